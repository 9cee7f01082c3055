import fs from 'node:fs';
export default class Irys {
  constructor(o) { this.o = o; }
  async upload(data, p) {
    if (process.env.REFUSE) throw new Error('402 not enough funds');
    fs.appendFileSync(process.env.SENT, JSON.stringify({ url: this.o.url, token: this.o.token, key: Buffer.from(this.o.key).toString('hex'), data: Buffer.from(data).toString('hex'), tags: (p && p.tags) || [] }) + '\n');
    return { id: 'AbCdEfGh123', timestamp: 1 };
  }
  async uploadFile(f, p) { return this.upload(fs.readFileSync(f), p); }
}
