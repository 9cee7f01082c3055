// Stand-ins for the parts of @solana/web3.js and @solana/spl-token the scripts use.  The chain is the
// JSON file named by $WORLD; transactions are appended to $SENT.
import { createHash, createPrivateKey, createPublicKey } from 'node:crypto';
import fs from 'node:fs';
const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function b58(bytes) {
  let n = 0n, z = 0, out = '';
  for (const b of bytes) n = n * 256n + BigInt(b);
  for (const b of bytes) { if (b) break; z++; }
  for (; n; n /= 58n) out = A[Number(n % 58n)] + out;
  return '1'.repeat(z) + out;
}
function unb58(s) {
  let n = 0n, z = 0;
  for (const c of s) { if (c !== '1') break; z++; }
  for (const c of s) { const i = A.indexOf(c); if (i < 0) throw new Error('Non-base58 character'); n = n * 58n + BigInt(i); }
  const out = [];
  for (; n; n /= 256n) out.unshift(Number(n % 256n));
  return [...new Array(z).fill(0), ...out];
}
export class PublicKey {
  constructor(v) {
    if (v instanceof PublicKey) v = v.bytes;
    if (typeof v === 'string') { v = unb58(v); if (v.length !== 32) throw new Error('Invalid public key input'); }
    if (v.length > 32) throw new Error('Invalid public key input');
    this.bytes = Uint8Array.from([...v, ...new Array(32 - v.length).fill(0)]);
  }
  toString() { return b58(this.bytes); }
  toBase58() { return b58(this.bytes); }
  toJSON() { return b58(this.bytes); }
  toBuffer() { return Buffer.from(this.bytes); }
  toBytes() { return Uint8Array.from(this.bytes); }
  equals(o) { return this.toString() === o.toString(); }
  static isOnCurve() { return true; }
  static findProgramAddressSync(seeds, program) {
    for (const s of seeds) if (s.length > 32) throw new TypeError('Max seed length exceeded');
    const h = createHash('sha256');
    for (const s of seeds) h.update(s);
    return [new PublicKey(h.update(Buffer.from([255])).update(program.toBuffer()).update('ProgramDerivedAddress').digest()), 255];
  }
  static async findProgramAddress(s, p) { return PublicKey.findProgramAddressSync(s, p); }
}
PublicKey.default = new PublicKey('11111111111111111111111111111111');
export class Keypair {
  constructor(k) { this.secretKey = k; this.publicKey = new PublicKey(k.slice(32)); }
  static fromSecretKey(k) { if (k.length !== 64) throw new Error('bad secret key size'); return new Keypair(Uint8Array.from(k)); }
  static fromSeed(s) {
    if (s.length !== 32) throw new Error('bad seed size');
    const priv = createPrivateKey({ key: Buffer.concat([Buffer.from('302e020100300506032b657004220420', 'hex'), Buffer.from(s)]), format: 'der', type: 'pkcs8' });
    const pub = createPublicKey(priv).export({ format: 'der', type: 'spki' }).subarray(-32);
    return new Keypair(Uint8Array.from([...s, ...pub]));
  }
}
export class TransactionInstruction { constructor(o) { Object.assign(this, { data: Buffer.alloc(0) }, o); } }
export class Transaction {
  constructor() { this.instructions = []; }
  add(...xs) { for (const x of xs) x.instructions ? this.instructions.push(...x.instructions) : this.instructions.push(new TransactionInstruction(x)); return this; }
  sign(...s) { this.signers = s; }
  serialize() { return this; }
}
export const SystemProgram = { programId: PublicKey.default };
export const LAMPORTS_PER_SOL = 1e9;
const world = process.env.WORLD ? JSON.parse(fs.readFileSync(process.env.WORLD, 'utf8')) : { accounts: {} };
let asked = 0, sent = false;
function look(key) {
  if (!(key instanceof PublicKey)) throw new TypeError('not a public key');
  asked++;
  if ((world.fail || []).includes(asked)) throw new Error('429 Too Many Requests');
  const a = (sent && world.after && world.after[key.toString()]) || world.accounts[key.toString()];
  return a ? { data: Buffer.from(a.data, 'hex'), owner: new PublicKey(a.owner), lamports: 1, executable: false } : null;
}
const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA', ATA = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const parsed = (i) => {
  if (!i || i.owner.toString() !== TOKEN) return i;
  const d = i.data;
  if (d.length === 165) i.data = { program: 'spl-token', parsed: { type: 'account', info: { mint: b58(d.subarray(0, 32)), owner: b58(d.subarray(32, 64)), tokenAmount: { amount: String(d.readBigUInt64LE(64)), decimals: 6 } } } };
  if (d.length === 82) i.data = { program: 'spl-token', parsed: { type: 'mint', info: { mintAuthority: b58(d.subarray(4, 36)), supply: String(d.readBigUInt64LE(36)), decimals: d[44] } } };
  return i;
};
export class Connection {
  async getAccountInfo(k) { return look(k); }
  async getParsedAccountInfo(k) { return { context: {}, value: parsed(look(k)) }; }
  async getMultipleAccountsInfo(ks) { if (ks.length > 100) throw new Error('Too many inputs provided'); return ks.map(look); }
  async getTokenAccountBalance(k) { const i = look(k); if (!i) throw new Error('could not find account'); return { value: { amount: String(i.data.readBigUInt64LE(64)) } }; }
  async getLatestBlockhash() { return { blockhash: 'hash', lastValidBlockHeight: 1 }; }
  async getBalance() { return 1e9; }
}
export async function sendAndConfirmTransaction(c, t, signers) {
  const have = signers.map((s) => s.publicKey.toString());
  const payer = (t.feePayer || signers[0].publicKey).toString();
  const ixs = t.instructions.map((i) => ({ program: i.programId.toString(), keys: i.keys.map((k) => [k.pubkey.toString(), !!k.isSigner, !!k.isWritable]), data: Buffer.from(i.data).toString('hex') }));
  const need = new Set([payer, ...ixs.flatMap((i) => i.keys.filter((k) => k[1]).map((k) => k[0]))]);
  for (const n of need) if (!have.includes(n)) throw new Error('Signature verification failed');
  for (const h of have) if (!need.has(h)) throw new Error('unknown signer');
  fs.appendFileSync(process.env.SENT, JSON.stringify({ payer, have, ixs }) + '\n');
  if (world.reject) throw new Error(world.reject);
  sent = true;
  return 'signature';
}
// @solana/spl-token ---------------------------------------------------------------------------
export const TOKEN_PROGRAM_ID = new PublicKey(TOKEN), ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey(ATA);
export const AuthorityType = { MintTokens: 0, FreezeAccount: 1, AccountOwner: 2, CloseAccount: 3 };
export const getAssociatedTokenAddressSync = (mint, owner, off = false, tp = TOKEN_PROGRAM_ID, ap = ASSOCIATED_TOKEN_PROGRAM_ID) => PublicKey.findProgramAddressSync([owner.toBuffer(), tp.toBuffer(), mint.toBuffer()], ap)[0];
export const getAssociatedTokenAddress = async (...a) => getAssociatedTokenAddressSync(...a);
const meta = (pubkey, isSigner, isWritable) => ({ pubkey, isSigner, isWritable });
export const createAssociatedTokenAccountInstruction = (payer, ata, owner, mint, tp = TOKEN_PROGRAM_ID, ap = ASSOCIATED_TOKEN_PROGRAM_ID, data = []) => new TransactionInstruction({ programId: ap, data: Buffer.from(data),
  keys: [meta(payer, true, true), meta(ata, false, true), meta(owner, false, false), meta(mint, false, false), meta(SystemProgram.programId, false, false), meta(tp, false, false)] });
export const createAssociatedTokenAccountIdempotentInstruction = (p, a, o, m, tp, ap) => createAssociatedTokenAccountInstruction(p, a, o, m, tp, ap, [1]);
const amt = (n) => { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt(n)); return b; };
export const createTransferInstruction = (src, dst, owner, n, multi = [], tp = TOKEN_PROGRAM_ID) => new TransactionInstruction({ programId: tp, data: Buffer.concat([Buffer.from([3]), amt(n)]), keys: [meta(src, false, true), meta(dst, false, true), meta(owner, true, false)] });
export const createTransferCheckedInstruction = (src, mint, dst, owner, n, dec, multi = [], tp = TOKEN_PROGRAM_ID) => new TransactionInstruction({ programId: tp, data: Buffer.concat([Buffer.from([12]), amt(n), Buffer.from([dec])]), keys: [meta(src, false, true), meta(mint, false, false), meta(dst, false, true), meta(owner, true, false)] });
export const createSetAuthorityInstruction = (acc, cur, kind, next, multi = [], tp = TOKEN_PROGRAM_ID) => new TransactionInstruction({ programId: tp, data: next ? Buffer.concat([Buffer.from([6, kind, 1]), next.toBuffer()]) : Buffer.from([6, kind, 0]), keys: [meta(acc, false, true), meta(cur, true, false)] });
export async function getAccount(c, k) {
  const i = look(k);
  if (!i || i.data.length !== 165) throw new Error('TokenAccountNotFoundError');
  return { address: k, mint: new PublicKey(i.data.subarray(0, 32)), owner: new PublicKey(i.data.subarray(32, 64)), amount: i.data.readBigUInt64LE(64) };
}
export async function getMint(c, k) {
  const i = look(k);
  if (!i || i.data.length !== 82) throw new Error('TokenInvalidMintError');
  return { address: k, supply: i.data.readBigUInt64LE(36), decimals: i.data[44], mintAuthority: new PublicKey(i.data.subarray(4, 36)) };
}
