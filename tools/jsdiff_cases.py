CASES = [r"""
function* g(n: number) { for (let i = 0; i < n; i++) yield i * i; return 7; }
return [[...g(4)], Array.from(g(3), (x) => x + 1), g(0).next(), (() => { const it = g(2); return [it.next(), it.next(), it.next(), it.next()]; })()];
""", r"""
const log: string[] = [];
function* g() { try { log.push('a'); yield 1; log.push('b'); yield 2; log.push('c'); } finally { log.push('f'); } }
for (const x of g()) { log.push('x' + x); break; }
for (const x of g()) { log.push('y' + x); }
return log;
""", r"""
class Range { constructor(private readonly lo: number, private hi: number) {} *[Symbol.iterator]() { for (let i = this.lo; i < this.hi; i++) yield i; } get size() { return this.hi - this.lo; } static of(n: number) { return new Range(0, n); } }
const r = Range.of(5); const [a, , b] = r; return [[...r], r.size, a, b, Math.max(...r)];
""", r"""
const it = [1, 2, 3][Symbol.iterator](); const out = []; let s = it.next(); while (!s.done) { out.push(s.value); s = it.next(); } return out;
""", r"""
class A { x = 1; m() { return 'A' + this.x; } get g() { return 'ga'; } static s() { return 'sA'; } }
class B extends A { x = 2; y: number; constructor(y: number) { super(); this.y = y; } m() { return super.m() + 'B' + this.y; } get g() { return super.g + 'b'; } static s() { return super.s() + 'B'; } set z(v: number) { this.y = v * 2; } }
const b = new B(5); b.z = 10; const f = b.m; let e = 'none'; try { f(); } catch (x) { e = 'threw'; } return [b.m(), b.g, B.s(), b.y, e, b instanceof A, Object.keys(b)];
""", r"""
const m = new Map([['a', 1], ['b', 2]]); const out: unknown[] = []; for (const [k, v] of m) out.push(k, v); m.set('c', 3); out.push([...m.keys()], [...m.values()], Array.from(m.entries())); const it = m.entries(); it.next(); out.push([...it]); return out;
""", r"""
return ['12.50'.replace(/\.?0+$/, ''), 'a-b-c'.split(/-/), /^[0-9]+$/.test('123'), /^[0-9]+$/.test('12a'), 'abc'.match(/b(.)/), 'xAyA'.replace(/A/g, (c) => c.toLowerCase()), 'pending_withdraw'.replace(/_([a-z])/g, (_, c) => c.toUpperCase()), 'abc'.search(/c/)];
""", r"""
async function* ag() { yield 1; yield await Promise.resolve(2); } const run = async () => { const out: number[] = []; for await (const x of ag()) out.push(x); for await (const y of [Promise.resolve(5), 6]) out.push(y); return out; };
return run();
""", r"""
return [7n / 2n, -7n / 2n, 7n % 3n, -7n % 3n, 2n ** 70n, 5 % -3, -5 % 3, 7 / 2, Math.floor(-3.5), Math.trunc(-3.5), 1 / 0, 0 / 0, (2 ** 53) + 1, 0.1 + 0.2, 5 >> 1, -5 >>> 28, ~5, 5 ^ 3, 1 << 31];
""", r"""
return [BigInt(5), Number(5n), BigInt('123'), Number('12'), Number(''), Number('x'), parseInt('12px'), BigInt.asUintN(8, 300n), BigInt.asIntN(8, 200n), String(10n), (255).toString(16), 10n > 5, 10n == 10 as any, typeof 1n];
""", r"""
const a = new Uint8Array([1, 2, 300, -1]); const b = new Uint8Array(a.buffer, 1, 2); b[0] = 9; const c = a.slice(1, 3); c[0] = 77; const d = a.subarray(1, 3); d[1] = 55; return [a, b, c, d, a.length, Array.from(a), [...a].map((x) => x + 1), new Uint8Array(3), Uint8Array.from([1, 2]), Uint8Array.of(4)];
""", r"""
const dv = new DataView(new ArrayBuffer(16)); dv.setBigUint64(0, 258n, true); dv.setUint32(8, 66051); dv.setInt8(12, -2); return [new Uint8Array(dv.buffer), dv.getBigUint64(0, true), dv.getUint16(8), dv.getInt8(12), dv.getUint8(12), dv.getBigInt64(8, true)];
""", r"""
const o: any = { a: 1, ...{ b: 2 }, ['c' + 1]: 3, get d() { return this.a + 10; } }; const { a, ...rest } = o; delete o.b; return [o, rest, a, 'b' in o, Object.entries({ x: 1, 2: 'y', 1: 'z' }), Object.assign({}, { q: 1 }), Object.fromEntries([['k', 1]])];
""", r"""
let out: unknown[] = []; outer: for (let i = 0; i < 3; i++) { for (let j = 0; j < 3; j++) { if (j === 1) continue outer; if (i === 2) break outer; out.push([i, j]); } } const fs = []; for (let i = 0; i < 3; i++) fs.push(() => i); return [out, fs.map((f) => f())];
""", r"""
const f = (x: number) => { switch (x) { case 1: return 'one'; case 2: case 3: return 'few'; default: break; } return 'many'; }; const g = (x: number) => { const out = []; switch (x) { case 0: out.push(0); case 1: out.push(1); break; default: out.push('d'); case 9: out.push(9); } return out; }; return [f(1), f(2), f(3), f(4), g(0), g(1), g(5), g(9)];
""", r"""
const log: unknown[] = []; const f = () => { try { log.push(1); throw new RangeError('boom'); } catch (e) { log.push((e as Error).message, e instanceof Error, e instanceof RangeError, (e as Error).name); return 'c'; } finally { log.push('f'); } }; return [f(), log];
""", r"""
class MyErr extends Error { code: number; constructor(m: string, c: number) { super(m); this.name = 'MyErr'; this.code = c; } } try { throw new MyErr('x', 5); } catch (e: any) { return [e.message, e.code, e.name, e instanceof MyErr, e instanceof Error, String(e)]; }
""", r"""
const a = [3, 1, 2]; return [a.toSorted(), [...a].sort((x, y) => y - x), a.reduce((s, x) => s + x, 0), a.reduceRight((s, x) => s + x, ''), a.findLast((x) => x > 1), a.indexOf(2), a.includes(9), a.flatMap((x) => [x, x]), a.concat([4], 5 as any), a.slice(-2), a.at(-1), a.fill(0, 1, 2), [10, 9, 1].sort(), [1, [2, [3]]].flat(), a.join('-'), Array.from({ length: 3 }, (_, i) => i * 2), new Array(2).fill(7), a.splice(0, 1), a, a.map(String), [..."héllo"], a.lastIndexOf(2), a.every(Number.isInteger), [,1].length];
""", r"""
const u: any = undefined; const o: any = { f: null, g: () => 4, a: { b: { c: 1 } } }; return [u?.x, u?.x.y.z, o.f?.(), o.g?.(), o.a?.b?.c, o.zz?.b.c.d, u ?? 5, 0 ?? 5, 0 || 5, '' && 3, !u, !!o, typeof u, typeof null, typeof o.g, void 0];
""", r"""
let x: any = null; x ??= 4; x &&= x + 1; x ||= 9; let y = 1; y += 2; y **= 3; y--; const z = y++; [x, y] = [y, x]; const { p = 5, q: { r = 6 } = {} as any } = {} as any; const [h = 1, ...t] = [undefined, 2, 3]; return [x, y, z, p, r, h, t];
""", r"""
return ['abc'.padStart(5, '*'), 'abc'.padEnd(5, '-'), 'a,b'.split(','), ' x '.trim(), 'abc'.slice(1), 'abc'.slice(-2, -1), 'abc'.substring(1, 2), 'abc'.charCodeAt(0), 'abc'.at(-1), 'ab'.repeat(2), 'abcabc'.lastIndexOf('b'), 'abc'.startsWith('b', 1), 'x'.concat('y', 'z'), `${1}${'a'}${null}${undefined}${[1, 2]}`, 'a' < 'b', 'B'.toLowerCase(), 'abc'.indexOf('z')];
""", r"""
const f = async (n: number): Promise<number> => { if (n > 2) throw new Error('big'); return n; }; const run = async () => [await f(1), await f(3).catch((e) => e.message), await Promise.all([f(1), f(2)]), (await Promise.allSettled([f(1), f(5)])).map((r) => r.status), await f(1).then((x) => x + 1), await f(2).finally(() => 9), await Promise.all([1, f(7)]).then(() => 'ok', () => 'no')]; return run();
""", r"""
enum E { A, B = 5, C, D = 'x' as any } const F = { ...E }; return [E.A, E.B, E.C, E[5], Object.keys(E), (E as any).Z, F.B];
""", r"""
const s = new Set([3, 1, 3, 2]); s.delete(1); s.add(9); const w = new Set([...s].filter((x) => x > 2)); return [s, s.size, s.has(3), [...w], Array.from(s, (x) => x * 2), [...new Set('aab')]];
""", r"""
function f(this: any, a: number, b = a * 2, ...r: number[]) { return [this?.k, a, b, r, arguments.length]; } return [f.call({ k: 1 }, 1), f.apply({ k: 2 }, [1, 2, 3]), f.bind({ k: 3 }, 7)(8)];
""", r"""
const m: Record<string, number> = {}; for (const k in { a: 1, b: 2 }) m[k + k] = 1; let n = 0; do { n++; } while (n < 3); let k = 10; while (true) { if (k-- < 5) break; } return [m, n, k];
""", r"""
const memo = new Map<string, Promise<number>>(); const get = (k: string) => { let p = memo.get(k); if (!p) { p = Promise.resolve(k.length); memo.set(k, p); } return p; }; const run = async () => [await get('aa'), await get('aa'), memo.size]; return run();
""", r"""
const o = Object.freeze({ a: 1 }); let e = ''; try { (o as any).a = 2; } catch (x: any) { e = x.name; } return [o.a, e, Object.isFrozen(o), Object.is(NaN, NaN), Number.isSafeInteger(2 ** 53), Number.MAX_SAFE_INTEGER, Number.isInteger(1.0), isNaN('x' as any), Math.min(), Math.max(1, 2), Math.abs(-3), Math.sign(-2), Math.ceil(1.2), Math.round(2.5), Math.pow(2, 3)];
""", r"""
return [[1, 2] + '' , [] + '' , ({} as any) + '', null + 1 as any, true + 1 as any, '5' * 2 as any, '5' + 2, +'7', -'3' as any, '10' > '9', '10' > 9 as any, null == undefined, null === undefined, NaN === NaN, '' == 0 as any, [1] == 1 as any];
""", r"""
function* fib() { let [a, b] = [0n, 1n]; while (true) { yield a; [a, b] = [b, a + b]; } } const out: bigint[] = []; for (const x of fib()) { if (x > 50n) break; out.push(x); } function* chain() { yield* [1, 2]; const r: number = yield* inner(); yield r; } function* inner() { yield 9; return 10; } return [out, [...chain()]];
""", r"""
const g = (function* () { const x: number = yield 1; yield x * 2; })(); return [g.next(), g.next(), g.next()];
""", r"""
class C { #n = 1; static count = 0; static { C.count = 5; } static get twice() { return C.count * 2; } inc() { this.#n++; C.count++; return this; } get n() { return this.#n; } } return [new C().inc().inc().n, C.count, C.twice];
""", r"""
const base58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'; const enc = (b: Uint8Array) => { let n = 0n; for (const x of b) n = n * 256n + BigInt(x); let s = ''; while (n > 0n) { s = base58[Number(n % 58n)] + s; n /= 58n; } for (const x of b) { if (x !== 0) break; s = '1' + s; } return s; }; return enc(new Uint8Array([0, 1, 2, 3, 250]));
""", r"""
const t = new TextEncoder().encode('héy'); return [t, new TextDecoder().decode(t), Buffer.from('abc').toString('hex'), Buffer.from('616263', 'hex').toString(), Buffer.concat([Buffer.from([1]), Buffer.from([2])]).length, Buffer.alloc(2).length];
""", r"""
const it = { from: 1, to: 3, [Symbol.iterator]() { let c = this.from; const to = this.to; return { next: () => c <= to ? { value: c++, done: false } : { value: undefined, done: true }, return() { log.push('ret'); return { value: 0, done: true }; } }; } }; const log: string[] = []; for (const x of it) { if (x === 2) break; } const [a] = it; return [[...it], a, log];
""", r"""
const pick = <T extends object, K extends keyof T>(o: T, ...ks: K[]) => Object.fromEntries(ks.map((k) => [k, o[k]])) as Pick<T, K>; return pick({ a: 1, b: 2, c: 3 }, 'a', 'c');
""", r"""
const groups = Object.groupBy([1, 2, 3, 4], (x) => (x % 2 ? 'odd' : 'even')); const mg = Map.groupBy([1, 2, 3], (x) => x > 1); return [Object.entries(groups), mg];
""", r"""
const chunk = <T,>(xs: T[], n: number): T[][] => xs.length === 0 ? [] : [xs.slice(0, n), ...chunk(xs.slice(n), n)]; const zip = (a: number[], b: string[]) => a.map((x, i) => [x, b[i]] as const); return [chunk([1, 2, 3, 4, 5], 2), zip([1, 2], ['a', 'b'])];
""", r"""
const compose = (...fs: ((x: number) => number)[]) => (x: number) => fs.reduceRight((v, f) => f(v), x); const curry = (a: number) => (b: number) => a - b; return [compose((x) => x + 1, (x) => x * 2)(5), curry(5)(3)];
""", r"""
const p = new Promise<number>((res, rej) => { res(4); rej(new Error('late')); }); const q = new Promise<number>((_, rej) => rej(new Error('bad'))); const run = async () => { let e = ''; try { await q; } catch (x: any) { e = x.message; } return [await p, e, await Promise.race([Promise.resolve(1)]), await Promise.any([Promise.resolve(2)])]; }; return run();
""", r"""
const run = async () => { const out: number[] = []; await Promise.all([1, 2, 3].map(async (x) => { out.push(await Promise.resolve(x * 2)); })); for (const x of [1, 2]) out.push(await (async () => x)()); const r = await [1, 2, 3].reduce(async (acc, x) => (await acc) + x, Promise.resolve(0)); return [out, r]; }; return run();
""", r"""
const t = (a: any) => { try { return a(); } catch (e: any) { return [e.constructor.name, e instanceof TypeError]; } }; return [t(() => null!.x), t(() => (undefined as any)()), t(() => BigInt(1.5)), t(() => 1n + (1 as any)), t(() => new Array(-1)), t(() => BigInt('x')), t(() => (1n as any) / 0n), t(() => Number.parseFloat('1.5x')), t(() => [].reduce((a: any) => a))];
""", r"""
const err = new Error('outer', { cause: new Error('inner') }); return [(err.cause as Error).message, err.message, err.toString()];
""", r"""
const a = [1, 2, 3]; a.length = 1; a.push(5, 6); a.unshift(0); const x = a.pop(), y = a.shift(); const c = [...a]; c[4] = 9; return [a, x, y, c.length, c[3], a.with(0, 7), a.indexOf(99), a.toString(), Array.isArray(a), [3, 4].entries().next(), [[1, 2], [3]].flat(), a.toSpliced(0, 1)];
""", r"""
const o = { n: 1, inc() { this.n++; return this; }, get dbl() { return this.n * 2; }, set dbl(v) { this.n = v / 2; } }; o.inc().inc(); o.dbl = 20; return [o.n, o.dbl, Object.keys(o), Object.hasOwn(o, 'n'), 'inc' in o, o.hasOwnProperty('zz')];
""", r"""
const key = Symbol('k'); const o: any = { [key]: 1, a: 2 }; return [o[key], Object.keys(o)];
""", r"""
const tag = (s: TemplateStringsArray, ...v: unknown[]) => s.join('|') + v.join(','); return [tag`a${1}b${2}c`];
""", r"""
var v = 1; { var v = 2; } let l = 1; { let l = 2; l++; } function hoisted() { return inner(); function inner() { return 'h'; } } const iife = (function () { return 5; })(); return [v, l, hoisted(), iife, typeof undeclared];
""", r"""
const x = { a: { b: [1, { c: 2 }] } }; const { a: { b: [first, { c }] } } = x; const f = ({ a = 1, ...r }: any = {}, [p, q = 4]: any = []) => [a, r, p, q]; return [first, c, f(), f({ a: 5, z: 1 }, [7])];
""", r"""
const n = 1_000_000; const h = 0xff; const b = 0b101; const o = 0o17; const big = 0xffn; return [n, h, b, o, big, 1e3, .5, 5..toFixed(2), (1234.5678).toFixed(2), Number('0x10'), Number(' 12 '), Number(null), Number(true), Number([]), Number(undefined)];
""", r"""
return [BigInt.asUintN(64, -1n), BigInt.asUintN(64, 2n ** 64n), BigInt.asIntN(64, 2n ** 63n), (-5n) >> 1n, 5n << 3n, 5n & 3n, 5n | 8n, 5n ^ 1n, -(-5n), 10n ** 3n, BigInt(Number.MAX_SAFE_INTEGER), Number(2n ** 64n), 2n > 1, 2 == (2n as any), [3n, 1n, 2n].sort((a, b) => (a < b ? -1 : a > b ? 1 : 0)), BigInt(true as any), BigInt('0x1f'), 5n === 5n];
""", r"""
const m = new Map<string, number>([['a', 1]]); const w = new WeakMap<object, number>(); const k = {}; w.set(k, 5); m.forEach((v, kk, mm) => mm.set(kk, v + 1)); return [m.get('a'), w.get(k), w.has({}), [...m].length, new Map(Object.entries({ x: 1 })).get('x'), new Map([...m].map(([a, b]) => [b, a]))];
""", r"""
const out: string[] = []; for (const ch of 'a-b') { if (ch === '-') continue; out.push(ch.toUpperCase()); } let s = ''; for (let i = 9, j = 0; i > j; i -= 3, j++) s += `${i}:${j};`; return [out, s, 'abc'.localeCompare('abd'), 'aXbX'.replaceAll('X', '-'), 'abc'[1], 'z'.codePointAt(0), String.fromCharCode(65, 66), 'abc'.substring(2, 0)];
""", r"""
const d = new Date(0); return [d.getTime(), typeof Date.now(), new Date(1000).toISOString()];
""", r"""
class Stack<T> { private items: T[] = []; push(x: T): this { this.items.push(x); return this; } get top(): T | undefined { return this.items[this.items.length - 1]; } static from<T>(xs: Iterable<T>): Stack<T> { const s = new Stack<T>(); for (const x of xs) s.push(x); return s; } [Symbol.iterator]() { return this.items[Symbol.iterator](); } toJSON() { return this.items; } } return [Stack.from([1, 2]).top, [...Stack.from('ab')], JSON.stringify({ s: Stack.from([1]), u: undefined, n: null, d: [undefined], x: 1.5, t: 'q"' }), JSON.parse('{"a":[1,{"b":null}]}')];
""", r"""
abstract class Shape { abstract area(): number; describe() { return `${this.constructor.name}:${this.area()}`; } } class Sq extends Shape { constructor(private s: number) { super(); } area() { return this.s ** 2; } } return new Sq(3).describe();
""", r"""
const debounce: Record<string, () => number> = { a: () => 1, b() { return 2; } }; const k = 'b' as string; return [debounce[k]!(), debounce['zz']?.(), (debounce as any).a?.call(null), k in debounce];
""", r"""
const u = new Uint8Array(8); new DataView(u.buffer).setBigUint64(0, 513n, true); const v = new DataView(u.buffer, 1, 4); const w = Uint8Array.from({ length: 3 }, (_, i) => i); const z = new Uint8Array([...u, ...w]); z.set(w, 2); return [u, v.getUint8(0), v.byteOffset, w, z, z.indexOf(2), Buffer.from(z).subarray(0, 3).equals(Buffer.from([1, 2, 0])), u.every((x) => x < 3), z.filter((x) => x > 1), z.reduce((a, b) => a + b, 0), z.fill(1, 2, 4), u.at(-1), z.toString()];
""", r"""
const a = new Uint8Array(4); const b = a.subarray(1); b.fill(7); const c = Buffer.from(a); c[0] = 9; const d = Buffer.from(a.buffer); d[3] = 1; const e = a.slice(); e[0] = 5; return [a, b, c, d, e, a.buffer.byteLength, b.byteOffset, structuredClone({ x: [1, { y: a }] })];
"""]
