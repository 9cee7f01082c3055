// Stand-ins for the parts of @solana/kit, @solana/addresses and @solana-program/token the client uses.
import { createHash } from 'node:crypto';
const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function b58(bytes) {
  let n = 0n, z = 0, out = '';
  for (const b of bytes) n = n * 256n + BigInt(b);
  for (const b of bytes) { if (b) break; z++; }
  for (; n; n /= 58n) out = A[Number(n % 58n)] + out;
  return '1'.repeat(z) + out;
}
export function unb58(s) {
  let n = 0n;
  for (const c of s) { const i = A.indexOf(c); if (i < 0) throw new Error('bad address'); n = n * 58n + BigInt(i); }
  const out = new Uint8Array(32);
  for (let i = 31; n; i--, n /= 256n) { if (i < 0) throw new Error('bad address'); out[i] = Number(n % 256n); }
  return out;
}
export const key = (n) => b58(new Uint8Array(32).fill(n));
// codecs ------------------------------------------------------------------------------------
const enc = (write, fixedSize) => ({ fixedSize, getSizeFromValue: (v) => write(v).length, encode: (v) => new Uint8Array(write(v)), _w: write });
const dec = (read, fixedSize) => ({ fixedSize, read, decode: (b, o = 0) => read(b, o)[0] });
const need = (b, o, n) => { if (!(b instanceof Uint8Array)) throw new Error('not bytes'); if (b.length - o < n) throw new Error('not enough bytes'); };
const numEnc = (n, signed) => () => enc((v) => {
  const x = BigInt(v), lo = signed ? -(1n << BigInt(8 * n - 1)) : 0n, hi = (1n << BigInt(signed ? 8 * n - 1 : 8 * n)) - 1n;
  if (x < lo || x > hi) throw new Error('number out of range');
  const u = BigInt.asUintN(8 * n, x);
  return Array.from({ length: n }, (_, i) => Number((u >> BigInt(8 * i)) & 255n));
}, n);
const numDec = (n, signed) => () => dec((b, o) => {
  need(b, o, n);
  let u = 0n;
  for (let i = n - 1; i >= 0; i--) u = u * 256n + BigInt(b[o + i]);
  if (signed) u = BigInt.asIntN(8 * n, u);
  return [n > 4 ? u : Number(u), o + n];
}, n);
export const getU8Encoder = numEnc(1), getU8Decoder = numDec(1), getU16Encoder = numEnc(2), getU16Decoder = numDec(2), getU32Encoder = numEnc(4), getU32Decoder = numDec(4);
export const getU64Encoder = numEnc(8), getU64Decoder = numDec(8), getI64Encoder = numEnc(8, true), getI64Decoder = numDec(8, true);
export const getBooleanEncoder = () => enc((v) => [v ? 1 : 0], 1), getBooleanDecoder = () => dec((b, o) => (need(b, o, 1), [b[o] === 1, o + 1]), 1);
export const getAddressEncoder = () => enc((v) => [...unb58(v)], 32), getAddressDecoder = () => dec((b, o) => (need(b, o, 32), [b58(b.slice(o, o + 32)), o + 32]), 32);
export const getBytesEncoder = () => enc((v) => [...v]), getBytesDecoder = () => dec((b, o) => [b.slice(o), b.length]);
export const getBase64Encoder = () => enc((v) => [...Buffer.from(v, 'base64')]);
export const getBase58Encoder = () => enc((v) => [...unb58(v)]);
export const getBase58Decoder = () => dec((b, o) => [b58(b.slice(o)), b.length]);
export const fixEncoderSize = (e, n) => enc((v) => { const a = [...e._w(v)].slice(0, n); while (a.length < n) a.push(0); return a; }, n);
export const fixDecoderSize = (d, n) => dec((b, o) => (need(b, o, n), [d.read(b.slice(o, o + n), 0)[0], o + n]), n);
export const transformEncoder = (e, f) => enc((v) => e._w(f(v)), e.fixedSize);
export const transformDecoder = (d, f) => dec((b, o) => { const [v, e] = d.read(b, o); return [f(v), e]; }, d.fixedSize);
export const getStructEncoder = (fs) => enc((v) => fs.flatMap(([k, e]) => [...e._w(v[k])]));
export const getStructDecoder = (fs) => dec((b, o) => { const v = {}; for (const [k, d] of fs) [v[k], o] = d.read(b, o); return [v, o]; });
export const getTupleEncoder = (es) => enc((v) => es.flatMap((e, i) => [...e._w(v[i])]));
export const getTupleDecoder = (ds) => dec((b, o) => { const v = []; for (const d of ds) { let x; [x, o] = d.read(b, o); v.push(x); } return [v, o]; });
const members = (e) => Object.keys(e).filter((k) => typeof e[k] === 'number').map((k) => e[k]);
export const getEnumEncoder = (E) => enc((v) => { const n = typeof v === 'string' ? E[v] : v; if (!members(E).includes(n)) throw new Error('bad enum'); return [members(E).indexOf(n)]; }, 1);
export const getEnumDecoder = (E) => dec((b, o) => { need(b, o, 1); const m = members(E); if (b[o] >= m.length) throw new Error('bad enum'); return [m[b[o]], o + 1]; }, 1);
export const getDiscriminatedUnionEncoder = (vs) => enc((v) => { const i = vs.findIndex(([k]) => k === v.__kind); if (i < 0) throw new Error('bad kind'); return [i, ...vs[i][1]._w(v)]; });
export const getDiscriminatedUnionDecoder = (vs) => dec((b, o) => { need(b, o, 1); const x = vs[b[o]]; if (!x) throw new Error('bad kind'); const [v, e] = x[1].read(b, o + 1); return [{ __kind: x[0], ...v }, e]; });
export const combineCodec = (e, d) => ({ ...e, ...d });
export const containsBytes = (data, bytes, o) => { const s = o === 0 && data.length === bytes.length ? data : data.slice(o, o + bytes.length); return s.length === bytes.length && bytes.every((x, i) => x === s[i]); };
// accounts ----------------------------------------------------------------------------------
export const AccountRole = { READONLY: 0, WRITABLE: 1, READONLY_SIGNER: 2, WRITABLE_SIGNER: 3, 0: 'READONLY', 1: 'WRITABLE', 2: 'READONLY_SIGNER', 3: 'WRITABLE_SIGNER' };
export const upgradeRoleToSigner = (r) => r | 2;
export const upgradeRoleToWritable = (r) => r | 1;
export const isTransactionSigner = (v) => 'signTransactions' in v || 'modifyAndSignTransactions' in v || 'signAndSendTransactions' in v;
export const isProgramDerivedAddress = (v) => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && v[1] >= 0 && v[1] <= 255;
export const isAddress = (v) => { try { return unb58(v).length === 32; } catch { return false; } };
export const address = (v) => v;
export const isProgramError = (e, tx, program, code) => e?.index !== undefined && tx.instructions[e.index]?.programAddress === program && (code === undefined || e.code === code);
export const isNone = (o) => o.__option === 'None', isSome = (o) => o.__option === 'Some', none = () => ({ __option: 'None' }), some = (value) => ({ __option: 'Some', value });
const account = (address, a) => a ? { address, exists: true, data: new Uint8Array(Buffer.from(a.data[0], 'base64')), executable: a.executable, lamports: a.lamports, programAddress: a.owner, space: a.space } : { address, exists: false };
export const fetchEncodedAccount = async (rpc, address, c = {}) => account(address, (await rpc.getAccountInfo(address, { ...c, encoding: 'base64' }).send()).value);
export const fetchEncodedAccounts = async (rpc, as, c = {}) => { const { value } = await rpc.getMultipleAccounts(as, { ...c, encoding: 'base64' }).send(); return value.map((a, i) => account(as[i], a)); };
export const decodeAccount = (a, d) => 'exists' in a && !a.exists ? a : { ...a, data: d.decode(a.data) };
export const assertAccountExists = (a) => { if (!a.exists) throw new Error('account not found'); };
export const assertAccountsExist = (as) => { if (as.some((a) => !a.exists)) throw new Error('accounts not found'); };
export const getProgramDerivedAddress = async ({ programAddress, seeds }) => {
  const h = createHash('sha256').update(unb58(programAddress));
  for (const s of seeds) { const b = typeof s === 'string' ? Buffer.from(s) : s; if (b.length > 32) throw new Error('seed too long'); h.update(b); }
  const d = h.digest();
  return [b58(d), 200 + (d[0] % 56)];
};
export const findAssociatedTokenPda = ({ owner, tokenProgram, mint }) =>
  getProgramDerivedAddress({ programAddress: 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL', seeds: [unb58(owner), unb58(tokenProgram), unb58(mint)] });
export const getTokenDecoder = () => getStructDecoder([['mint', getAddressDecoder()], ['owner', getAddressDecoder()], ['amount', getU64Decoder()], ['rest', fixDecoderSize(getBytesDecoder(), 93)]]);
export const getMintDecoder = () => getStructDecoder([['authorityFlag', getU32Decoder()], ['authority', getAddressDecoder()], ['supply', getU64Decoder()], ['decimals', getU8Decoder()], ['rest', fixDecoderSize(getBytesDecoder(), 37)]]);
// a node holding a map of accounts ------------------------------------------------------------
export function node(accounts) {
  const view = (a, c) => {
    const x = accounts.get(a);
    if (!x) return null;
    const data = Buffer.from(c?.dataSlice ? x.data.slice(c.dataSlice.offset, c.dataSlice.offset + c.dataSlice.length) : x.data);
    return { data: c?.encoding === 'base58' ? [b58(data), 'base58'] : [data.toString('base64'), 'base64'], executable: false, lamports: 1n, owner: x.owner, space: BigInt(x.data.length) };
  };
  const calls = [];
  return {
    calls,
    getMultipleAccounts: (as, c) => ({ send: async () => { calls.push(as.length); if (as.length > 100) throw new Error('Too many inputs provided; max 100'); return { context: { slot: 1n }, value: as.map((a) => view(a, c)) }; } }),
    getAccountInfo: (a, c) => ({ send: async () => { calls.push(1); return { context: { slot: 1n }, value: view(a, c ?? { encoding: 'base58' }) }; } }),
  };
}
// contents the program would write ------------------------------------------------------------
export const PROGRAM = 'StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT', ORCA = 'orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE', XORCA = 'xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N';
export const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA', ATA = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const text = (s) => Buffer.from(s);
export const statePda = () => getProgramDerivedAddress({ programAddress: PROGRAM, seeds: [text('state')] });
export const recordPda = (who, i) => getProgramDerivedAddress({ programAddress: PROGRAM, seeds: [text('pending_withdraw'), unb58(who), new Uint8Array([i])] });
export const vaultPda = async () => findAssociatedTokenPda({ owner: (await statePda())[0], tokenProgram: TOKEN, mint: ORCA });
export function stateAccount({ bump = 250, vaultBump = 251, escrowed = 0n, cooldown = 0n, authority = key(9) } = {}) {
  const d = Buffer.alloc(2048);
  d[0] = 1; d[6] = bump; d[7] = vaultBump; d.writeBigUInt64LE(escrowed, 8); d.writeBigInt64LE(cooldown, 16); d.set(unb58(authority), 24);
  return { data: new Uint8Array(d), owner: PROGRAM };
}
export function recordAccount({ who, index, amount, time, bump = 249 }) {
  const d = Buffer.alloc(1024);
  d[0] = 2; d[6] = bump; d[7] = index; d.set(unb58(who), 8); d.writeBigUInt64LE(amount, 40); d.writeBigInt64LE(time, 48);
  return { data: new Uint8Array(d), owner: PROGRAM };
}
export function tokenAccount({ mint = ORCA, owner, amount }) {
  const d = Buffer.alloc(165);
  d.set(unb58(mint), 0); d.set(unb58(owner), 32); d.writeBigUInt64LE(amount, 64); d[108] = 1;
  return { data: new Uint8Array(d), owner: TOKEN };
}
export function mintAccount({ supply }) {
  const d = Buffer.alloc(82);
  d.writeBigUInt64LE(supply, 36); d[44] = 6; d[45] = 1;
  return { data: new Uint8Array(d), owner: TOKEN };
}
export async function pool({ amount = 1000n, escrowed = 100n, supply = 500n, cooldown = 60n } = {}) {
  const s = (await statePda())[0];
  return new Map([[s, stateAccount({ escrowed, cooldown })], [(await vaultPda())[0], tokenAccount({ owner: s, amount })], [XORCA, mintAccount({ supply })]]);
}
export const expect = (c, what) => { if (!c) { console.log('demo: ' + what); process.exit(1); } };
export const throws = async (f) => { try { await f(); return false; } catch { return true; } };
export const signer = (address) => ({ address, signTransactions: async () => [] });
