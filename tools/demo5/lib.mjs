import { spawnSync } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
const dir = process.env.DEMO_DIR;
let n = 0;
export const KEY = Array.from({ length: 64 }, (_, i) => (i * 37 + 5) % 256);
export const hex = (b) => Buffer.from(b).toString('hex');
export function file(name, content) { const f = path.join(dir, name); fs.writeFileSync(f, content); return f; }
export function run(args, env = {}) {
  const s = path.join(dir, `sent${n++}`);
  const r = spawnSync(process.execPath, [path.join(dir, 'upload.mjs'), ...args], { cwd: dir, env: { ...process.env, SENT: s, ...env }, encoding: 'utf8', timeout: 60000 });
  const sent = fs.existsSync(s) ? fs.readFileSync(s, 'utf8').trim().split('\n').map((x) => JSON.parse(x)) : [];
  return { status: r.status, out: r.stdout + r.stderr, sent };
}
export const type = (u) => u.tags.filter((t) => t.name.toLowerCase() === 'content-type').map((t) => t.value).join();
export function expect(ok, what) { if (!ok) { console.error('demo: ' + what); process.exit(1); } }
