// Runs a bundled script of ts-scripts in its own process against a described chain.
import { spawnSync } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import { PublicKey, getAssociatedTokenAddressSync as ata } from './web3.mjs';
export const PROGRAM = 'StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT', ORCA = 'orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE', XORCA = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N';
export const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA', ATA = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL', SYSTEM = '11111111111111111111111111111111', DEPLOYER = '94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT';
const pk = (a) => new PublicKey(a);
export const pda = (program, ...seeds) => PublicKey.findProgramAddressSync(seeds.map((s) => Buffer.from(s)), pk(program))[0].toString();
export const bytes = (a) => pk(a).toBuffer();
export const ataOf = (owner, mint) => ata(pk(mint), pk(owner), true).toString();
export const STATE = pda(PROGRAM, 'state'), VAULT = ataOf(STATE, ORCA);
export const record = (staker, i) => pda(PROGRAM, 'pending_withdraw', bytes(staker), [i]);
export const le = (n, size = 8) => { const o = []; let v = BigInt.asUintN(8 * size, BigInt(n)); for (let i = 0; i < size; i++, v /= 256n) o.push(Number(v % 256n)); return o; };
export const token = (mint, owner, amount) => ({ owner: TOKEN, data: Buffer.from([...bytes(mint), ...bytes(owner), ...le(amount), ...new Array(36).fill(0), 1, ...new Array(56).fill(0)]).toString('hex') });
export const mint = (supply, authority = STATE) => ({ owner: TOKEN, data: Buffer.from([1, 0, 0, 0, ...bytes(authority), ...le(supply), 6, 1, ...new Array(36).fill(0)]).toString('hex') });
export const state = (escrowed, cooldown, authority = DEPLOYER) => ({ owner: PROGRAM, data: Buffer.from([1, 0, 0, 0, 0, 0, 254, 253, ...le(escrowed), ...le(cooldown), ...bytes(authority), ...new Array(1992).fill(0)]).toString('hex') });
export const pending = (staker, i, amount, time) => ({ owner: PROGRAM, data: Buffer.from([2, 0, 0, 0, 0, 0, 255, i, ...bytes(staker), ...le(amount), ...le(time), ...new Array(968).fill(0)]).toString('hex') });
export const at = (o) => o;
const dir = process.env.DEMO_DIR;
let n = 0;
// a key file whose public key is 32 times the byte b (or the given address)
export function keyfile(b) {
  const pub = typeof b === 'string' ? bytes(b) : Buffer.alloc(32, b), file = path.join(dir, `key${n++}.json`);
  fs.writeFileSync(file, JSON.stringify([...Buffer.alloc(32, 7), ...pub]));
  return { file, address: new PublicKey(pub).toString() };
}
export function run(script, args, world = {}) {
  const w = path.join(dir, `world${n}.json`), s = path.join(dir, `sent${n++}`);
  fs.writeFileSync(w, JSON.stringify({ accounts: {}, ...world }));
  const r = spawnSync(process.execPath, [path.join(dir, 'out', script + '.mjs'), ...args], { cwd: dir, env: { ...process.env, WORLD: w, SENT: s }, encoding: 'utf8', timeout: 60000 });
  const sent = fs.existsSync(s) ? fs.readFileSync(s, 'utf8').trim().split('\n').map((x) => JSON.parse(x)) : [];
  return { status: r.status, out: r.stdout + r.stderr, sent, ixs: sent.flatMap((t) => t.ixs) };
}
export function expect(ok, what) { if (!ok) { console.error('demo: ' + what); process.exit(1); } }
export const hex = (...parts) => Buffer.from(parts.flat()).toString('hex');
