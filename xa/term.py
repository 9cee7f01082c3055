"""Value-numbering domain: hash-consed byte-sized terms with local algebraic simplification.

Two program values with the same term are equal in every execution that reaches them; a term
that is not understood is an opaque symbol, so equality is only ever claimed, never guessed.
"""


class T:
    __slots__ = ("op", "a", "n", "id", "c")

    def __repr__(self):
        return show(self)


MAX_DATA = 10 * 1024 * 1024 + 10240     # the runtime never loads an account with more data
_tab = {}
_next = [0]


def mk(op, a, n):
    k = (op, a, n)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.n = op, a, n
        t.id = _next[0]
        _next[0] += 1
        t.c = a[0] if op == "c" else None
        _tab[k] = t
    return t


def const(v, n):
    return mk("c", (v & ((1 << (8 * n)) - 1),), n)


TRUE = const(1, 1)
FALSE = const(0, 1)


def boolc(b):
    return TRUE if b else FALSE


def sym(name, n):
    return mk("sym", (name,), n)


def undef(n):
    return mk("undef", (), n)


def func(name, args, n):
    return mk("f", (name,) + tuple(args), n)


def signed(v, n):
    return v - (1 << (8 * n)) if v >> (8 * n - 1) else v


# ---------------------------------------------------------------- bytes
def rbytes(region, off, n):
    """n bytes of an abstract byte region at (constant or symbolic) offset."""
    if region == "zero":
        return const(0, n)
    if isinstance(off, T) and off.c is not None:
        off = off.c
    return mk("b", (region, off), n)


def ext(t, off, n):
    if off == 0 and n == t.n:
        return t
    assert 0 <= off and off + n <= t.n, (t, off, n)
    if t.c is not None:
        return const(t.c >> (8 * off), n)
    op = t.op
    if op == "b":
        o = t.a[1]
        return rbytes(t.a[0], o + off if not isinstance(o, T) else add(o, const(off, o.n)), n)
    if op == "ext":
        return ext(t.a[0], t.a[1] + off, n)
    if op == "undef":
        return undef(n)
    if op == "zx":
        i = t.a[0]
        if off + n <= i.n:
            return ext(i, off, n)
        if off >= i.n:
            return const(0, n)
        return cat([ext(i, off, i.n - off), const(0, off + n - i.n)])
    if op == "cat":
        out, p = [], 0
        for x in t.a:
            lo, hi = max(off, p), min(off + n, p + x.n)
            if lo < hi:
                out.append(ext(x, lo - p, hi - lo))
            p += x.n
        return cat(out)
    if op == "ite" and (t.a[1].c is not None or t.a[2].c is not None):
        return ite(t.a[0], ext(t.a[1], off, n), ext(t.a[2], off, n))
    if op == "sx" and off + n <= t.a[0].n:
        return ext(t.a[0], off, n)
    if off == 0 and n in (1, 2, 4, 8) and op == "lin":
        # truncation distributes over sums and products modulo 2^8n
        r = const(t.a[0], n)
        for x, c in t.a[1]:
            r = add(r, mul(ext(x, 0, n), const(c, n)))
        return r
    if off == 0 and n in (1, 2, 4, 8) and op == "mul":
        return mul(ext(t.a[0], 0, n), ext(t.a[1], 0, n))
    return mk("ext", (t, off), n)


def cat(parts):
    out = []
    for p in parts:
        for q in (p.a if p.op == "cat" else (p,)):
            if q.n == 0:
                continue
            if out:
                l = out[-1]
                if l.c is not None and q.c is not None:
                    out[-1] = const(l.c | (q.c << (8 * l.n)), l.n + q.n)
                    continue
                if l.op == "undef" and q.op == "undef":
                    out[-1] = undef(l.n + q.n)
                    continue
                if l.op == "b" and q.op == "b" and l.a[0] == q.a[0]:
                    lo, qo = l.a[1], q.a[1]
                    if not isinstance(lo, T) and not isinstance(qo, T):
                        if lo + l.n == qo:
                            out[-1] = rbytes(l.a[0], lo, l.n + q.n)
                            continue
                    elif isinstance(lo, T) and isinstance(qo, T) and add(lo, const(l.n, lo.n)) is qo:
                        out[-1] = rbytes(l.a[0], lo, l.n + q.n)
                        continue
                lb, lo = (l.a[0], l.a[1]) if l.op == "ext" else (l, 0)
                qb, qo = (q.a[0], q.a[1]) if q.op == "ext" else (q, 0)
                if lb is qb and lo + l.n == qo and l.op != "undef":
                    out[-1] = ext(lb, lo, l.n + q.n)
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    if not out:
        return const(0, 0)
    if len(out) == 2 and out[1].c == 0 and out[0].n in (1, 2, 4, 8) and out[1].n + out[0].n in (2, 4, 8, 16):
        return mk("zx", (out[0],), out[0].n + out[1].n)
    return mk("cat", tuple(out), sum(x.n for x in out))


def zx(t, n):
    if n == t.n:
        return t
    if n < t.n:
        return ext(t, 0, n)
    if t.c is not None:
        return const(t.c, n)
    if t.op == "zx":
        return zx(t.a[0], n)
    if t.op == "ite":
        return ite(t.a[0], zx(t.a[1], n), zx(t.a[2], n))
    if t.op == "undef":
        return undef(n)
    return mk("zx", (t,), n)


def sx(t, n):
    if n == t.n:
        return t
    if n < t.n:
        return ext(t, 0, n)
    if t.c is not None:
        return const(signed(t.c, t.n), n)
    if t.op == "zx":
        return zx(t.a[0], n)
    return mk("sx", (t,), n)


# ---------------------------------------------------------------- pointers
def ptr(obj, off=0):
    if not isinstance(off, T):
        off = const(off, 8)
    return mk("ptr", (obj, off), 8)


# ---------------------------------------------------------------- linear arithmetic (mod 2^bits)
def _lin(t):
    if t.c is not None:
        return t.c, {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mklin(k, d, n):
    m = (1 << (8 * n)) - 1
    items = tuple(sorted(((t, c & m) for t, c in d.items() if c & m), key=lambda x: x[0].id))
    k &= m
    if not items:
        return const(k, n)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", (k, items), n)


def add(a, b):
    if a.op == "ptr" and b.op != "ptr":
        return ptr(a.a[0], add(a.a[1], b))
    if b.op == "ptr" and a.op != "ptr":
        return ptr(b.a[0], add(b.a[1], a))
    if a.op == "undef" or b.op == "undef":
        return undef(a.n)
    ka, da = _lin(a)
    kb, db = _lin(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + c
    return _mklin(ka + kb, da, a.n)


def neg(a):
    k, d = _lin(a)
    return _mklin(-k, {t: -c for t, c in d.items()}, a.n)


def sub(a, b):
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        return sub(a.a[1], b.a[1])
    if a.op == "ptr":
        return ptr(a.a[0], sub(a.a[1], b)) if b.op != "ptr" else func("ptrdiff", (a, b), 8)
    if a.op == "undef" or b.op == "undef":
        return undef(a.n)
    return add(a, neg(b))


def mul(a, b):
    if a.c is not None:
        a, b = b, a
    if b.c is not None:
        if b.c == 0:
            return b
        if b.c == 1:
            return a
        if a.op == "undef":
            return a
        k, d = _lin(a)
        return _mklin(k * b.c, {t: c * b.c for t, c in d.items()}, a.n)
    if a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), a.n)


def udiv(a, b):
    if b.c == 1:
        return a
    if a.c is not None and b.c:
        return const(a.c // b.c, a.n)
    if b.c and b.c & (b.c - 1) == 0:
        return shr(a, const(b.c.bit_length() - 1, 4))
    if a.op == "lin":                   # (p - p % b) / b
        for x, c in a.a[1]:
            if x.op == "urem" and x.a[1] is b and signed(c, a.n) == -1 and add(a, x) is x.a[0]:
                return udiv(x.a[0], b)
    return mk("udiv", (a, b), a.n)


def urem(a, b):
    if a.c is not None and b.c:
        return const(a.c % b.c, a.n)
    if b.c and b.c & (b.c - 1) == 0:
        return band(a, const(b.c - 1, a.n))
    return mk("urem", (a, b), a.n)


def sdiv(a, b):
    if a.c is not None and b.c:
        x, y = signed(a.c, a.n), signed(b.c, b.n)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.n)
    return mk("sdiv", (a, b), a.n)


def srem(a, b):
    if a.c is not None and b.c:
        x, y = signed(a.c, a.n), signed(b.c, b.n)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.n)
    return mk("srem", (a, b), a.n)


ISBOOL = {"eq", "ult", "slt", "not", "uaddo", "saddo", "ssubo", "umulo", "smulo", "band", "bor"}


def isbool(t):
    return t.op in ISBOOL or (t.n == 1 and t.c in (0, 1)) or (t.op == "ite" and isbool(t.a[1]) and isbool(t.a[2]))


def _cmp(t):
    """(relation, left, right, holds) of a comparison or negated comparison"""
    v = True
    if t.op == "not":
        t, v = t.a[0], False
    if t.op in ("eq", "ult", "slt"):
        return t.op, t.a[0], t.a[1], v
    return None


def _both(a, b):
    """a && b  for two comparisons of the same operands, or None"""
    if a is bnot(b):
        return FALSE
    x, y = _cmp(a), _cmp(b)
    if x is None or y is None or {x[1], x[2]} != {y[1], y[2]}:
        return None
    if y[0] == "eq":
        x, y, a, b = y, x, b, a
    if y[0] == "eq":
        return None
    if x[0] == "eq":
        # y is (negated) p < q
        if y[3]:
            return FALSE if x[3] else b
        if x[3]:
            return a
        return mk(y[0], (y[2], y[1]), 1)            # p != q and not p < q  is  q < p
    if x[0] == y[0] and x[1] is y[2]:
        if x[3] and y[3]:
            return FALSE
        if x[3]:
            return a
        if y[3]:
            return b
        return eq(x[1], x[2])                        # neither is smaller
    return None


def band(a, b):
    if a.c is not None:
        a, b = b, a
    if a is b:
        return a
    if b.c is not None:
        if b.c == 0:
            return b
        if a.c is not None:
            return const(a.c & b.c, a.n)
        if b.c == (1 << (8 * a.n)) - 1:
            return a
        if b.c == 1 and isbool(a):
            return a
        if a.op == "ptr" and b.c < 16:
            return band(a.a[1], b)
        if b.c in (0xFF, 0xFFFF, 0xFFFFFFFF, (1 << 64) - 1):
            return zx(ext(a, 0, {0xFF: 1, 0xFFFF: 2, 0xFFFFFFFF: 4, (1 << 64) - 1: 8}[b.c]), a.n)
        bs = _bits(a)
        if bs is not None:
            return _frombits({i: x for i, x in bs.items() if b.c >> i & 1}, a.n)
        return mk("and", (a, b), a.n)
    if isbool(a) and isbool(b):
        r = _both(a, b)
        if r is not None:
            return r
        for x, y in ((a, b), (b, a)):
            if y.op == "bor":
                p, q = y.a
                if p is x or q is x:
                    return x
                if p is bnot(x):
                    return band(x, q)
                if q is bnot(x):
                    return band(x, p)
        if a.id > b.id:
            a, b = b, a
        return mk("band", (a, b), 1)
    if a.id > b.id:
        a, b = b, a
    return mk("and", (a, b), a.n)


def _bits(t):
    """{position: boolean} of every bit of t that may be set, when each is a boolean; None otherwise"""
    if t.c is not None:
        return {i: TRUE for i in range(8 * t.n) if t.c >> i & 1}
    if isbool(t):
        return {0: t}
    if t.op == "zx":
        return _bits(t.a[0])
    if t.op == "lin":
        out = _bits(const(t.a[0], t.n))
        for x, k in t.a[1]:
            if k & (k - 1):
                return None
            x = x.a[0] if x.op == "zx" else x
            if not isbool(x) or k.bit_length() - 1 in out:
                return None
            out[k.bit_length() - 1] = x
        return out
    return None


def _frombits(bs, n):
    r = const(0, n)
    for i, x in bs.items():
        r = add(r, mul(zx(x, n), const(1 << i, n)))
    return r


def bor(a, b):
    if a.c is not None:
        a, b = b, a
    if a is b:
        return a
    if b.c is not None:
        if b.c == 0:
            return a
        if a.c is not None:
            return const(a.c | b.c, a.n)
        if b.c == 1 and isbool(a):
            return TRUE
    if isbool(a) and isbool(b):
        r = _both(bnot(a), bnot(b))
        if r is not None:
            return bnot(r)
        for x, y in ((a, b), (b, a)):
            if y.op == "band":
                p, q = y.a
                if p is x or q is x:
                    return x
                if p is bnot(x):
                    return bor(x, q)
                if q is bnot(x):
                    return bor(x, p)
        if a.id > b.id:
            a, b = b, a
        return mk("bor", (a, b), 1)
    # byte-aligned disjoint or:  zx(lo) | (zx(hi) << k)
    r = _disjoint(a, b)
    if r is not None:
        return r
    p, q = _bits(a), _bits(b)
    if p is not None and q is not None:             # sets of flags
        return _frombits({i: bor(p.get(i, FALSE), q.get(i, FALSE)) for i in sorted({*p, *q})}, a.n)
    if a.id > b.id:
        a, b = b, a
    return mk("or", (a, b), a.n)


def _pieces(t):
    """list of (off, term) covering nonzero bytes of t, or None"""
    if t.op == "zx":
        return [(0, t.a[0])]
    if t.op == "cat":
        out, p = [], 0
        for x in t.a:
            if x.c != 0:
                out.append((p, x))
            p += x.n
        return out
    return None


def _disjoint(a, b):
    pa, pb = _pieces(a), _pieces(b)
    if pa is None or pb is None:
        return None
    ps = sorted(pa + pb, key=lambda x: x[0])
    out, p = [], 0
    for o, t in ps:
        if o < p:
            return None
        if o > p:
            out.append(const(0, o - p))
        out.append(t)
        p = o + t.n
    if p < a.n:
        out.append(const(0, a.n - p))
    return cat(out)


def bxor(a, b):
    if a.c is not None:
        a, b = b, a
    if a is b:
        return const(0, a.n)
    if b.c is not None:
        if b.c == 0:
            return a
        if a.c is not None:
            return const(a.c ^ b.c, a.n)
        if b.c == 1 and isbool(a):
            return bnot(a)
    if a.id > b.id:
        a, b = b, a
    return mk("xor", (a, b), a.n)


def bitnot(a):
    if a.c is not None:
        return const(~a.c, a.n)
    return mk("bitnot", (a,), a.n)


def shl(a, b):
    if b.c is not None:
        s = b.c & (8 * a.n - 1)
        if a.c is not None:
            return const(a.c << s, a.n)
        if s == 0:
            return a
        if s % 8 == 0:
            return cat([const(0, s // 8), ext(a, 0, a.n - s // 8)])
        return mul(a, const(1 << s, a.n))
    return mk("shl", (a, b), a.n)


def shr(a, b):
    if b.c is not None:
        s = b.c & (8 * a.n - 1)
        if a.c is not None:
            return const(a.c >> s, a.n)
        if s == 0:
            return a
        if s % 8 == 0:
            return zx(ext(a, s // 8, a.n - s // 8), a.n)
        return mk("shr", (a, const(s, 4)), a.n)
    return mk("shr", (a, b), a.n)


def sar(a, b):
    if a.c is not None and b.c is not None:
        return const(signed(a.c, a.n) >> (b.c & (8 * a.n - 1)), a.n)
    return mk("sar", (a, b), a.n)


# ---------------------------------------------------------------- booleans
def bnot(t):
    if t.c is not None:
        return boolc(t.c == 0)
    if t.op == "not":
        return t.a[0]
    return mk("not", (t,), 1)


def ite(c, a, b):
    if a is b:
        return a
    if c.c is not None:
        return a if c.c else b
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.n == 1 and a.c == 1 and b.c == 0:
        return c
    if a.n == 1 and a.c == 0 and b.c == 1:
        return bnot(c)
    return mk("ite", (c, a, b), a.n)


def urange(t, depth=0):
    """unsigned interval of a term without context"""
    full = (1 << (8 * t.n)) - 1
    if t.c is not None:
        return t.c, t.c
    if depth > 12:
        return 0, full
    op = t.op
    if op == "zx":
        return urange(t.a[0], depth + 1)
    if op in ISBOOL:
        return 0, 1
    if op == "lin":
        lo = hi = t.a[0]
        for x, c in t.a[1]:
            l, h = urange(x, depth + 1)
            lo += l * c
            hi += h * c
        return (lo, hi) if hi <= full else (0, full)
    if op == "udiv":
        l, h = urange(t.a[0], depth + 1)
        dl, dh = urange(t.a[1], depth + 1)
        return (l // dh if dh else 0), (h // max(dl, 1))
    if op == "urem":
        dl, dh = urange(t.a[1], depth + 1)
        return 0, max(dh - 1, 0)
    if op == "mul":
        l1, h1 = urange(t.a[0], depth + 1)
        l2, h2 = urange(t.a[1], depth + 1)
        return (l1 * l2, h1 * h2) if h1 * h2 <= full else (0, full)
    if op == "shr" and t.a[1].c is not None:
        l, h = urange(t.a[0], depth + 1)
        return l >> t.a[1].c, h >> t.a[1].c
    if op == "and" and t.a[1].c is not None:
        return 0, t.a[1].c
    if op == "ite":
        l1, h1 = urange(t.a[1], depth + 1)
        l2, h2 = urange(t.a[2], depth + 1)
        return min(l1, l2), max(h1, h2)
    if op == "f" and t.a[0] == "bump":
        return 0, 255
    if op == "b" and t.a[1] == 0 and t.n >= 4 and t.a[0].__class__ is tuple and len(t.a[0]) > 2 and t.a[0][2] == "data_len":
        return 0, MAX_DATA
    if op == "ptr":
        return 1, full
    return 0, full


def eq(a, b):
    if a is b:
        return TRUE if a.op != "undef" else mk("f", ("undefeq",), 1)
    if a.c is not None and b.c is not None:
        return FALSE
    if a.c is not None:
        a, b = b, a
    if a.op == "ptr" and b.op == "ptr":
        return eq(a.a[1], b.a[1]) if a.a[0] == b.a[0] else FALSE
    if b.c is not None:
        v = b.c
        if a.op == "zx":
            return eq(a.a[0], const(v, a.a[0].n)) if v >> (8 * a.a[0].n) == 0 else FALSE
        if a.op == "sx":
            x = const(v, a.a[0].n)
            return eq(a.a[0], x) if signed(x.c, x.n) == signed(v, a.n) else FALSE
        if isbool(a):
            if v == 0:
                return bnot(a)
            return a if v == 1 else FALSE
        if a.op == "ite" and (a.a[1].c is not None or a.a[2].c is not None):
            e1, e2 = eq(a.a[1], b), eq(a.a[2], b)
            if e1.c is not None and e2.c is not None:
                return ite(a.a[0], e1, e2)
            if e1.c == 0:
                return band(bnot(a.a[0]), e2)
            if e2.c == 0:
                return band(a.a[0], e1)
            return ite(a.a[0], e1, e2)
        if a.op == "ite" and v == 0 and a.a[0].op == "ult":
            p, q = a.a[0].a
            z = const(0, a.n)
            if p is a.a[1] and q is a.a[2]:         # min(p, q) == 0
                return bor(eq(p, z), eq(q, z))
            if p is a.a[2] and q is a.a[1]:         # max(p, q) == 0
                return band(eq(p, z), eq(q, z))
        if a.op == "lin" and len(a.a[1]) == 1 and a.a[1][0][1] == 1:
            return eq(a.a[1][0][0], const(v - a.a[0], a.n))
        if a.op == "lin":
            bs = _bits(a)
            if bs is not None:                      # a set of flags
                r = boolc(all(i in bs for i in range(8 * a.n) if v >> i & 1))
                for i, x in bs.items():
                    r = band(r, x if v >> i & 1 else bnot(x))
                return r
        if a.op == "bitnot":
            return eq(a.a[0], const(~v, a.n))
        if a.op == "xor" and v == 0:
            return eq(a.a[0], a.a[1])
        if v == 0 and a.op == "ext" and a.a[1] + a.n == a.a[0].n:       # top bytes are zero
            return ult(a.a[0], const(1 << (8 * a.a[1]), a.a[0].n))
        if v == 0 and a.op == "shr" and a.a[1].c is not None:
            return ult(a.a[0], const(1 << a.a[1].c, a.n))
        if a.op == "or" and v == 0:
            return band(eq(a.a[0], const(0, a.n)), eq(a.a[1], const(0, a.n)))
        if a.op == "cat":
            r, p = TRUE, 0
            for x in a.a:
                r = band(r, eq(x, const(v >> (8 * p), x.n)))
                p += x.n
            return r
        lo, hi = urange(a)
        if v < lo or v > hi:
            return FALSE
    if a.op == b.op and a.op in ("zx", "sx") and a.a[0].n == b.a[0].n:
        return eq(a.a[0], b.a[0])
    for x, m in ((a, b), (b, a)):
        if m.op == "ite" and x.op != "ite" and (m.a[1] is x or m.a[2] is x):
            c, p, q = m.a
            if p is not x:
                c, p, q = bnot(c), q, p             # ite(c, x, q) == x
            i = c.a[0] if c.op == "not" else c
            if i.op in ("ult", "slt") and set(i.a) == {x, q}:
                cmp_ = ult if i.op == "ult" else slt
                if c is cmp_(x, q) or c is bnot(cmp_(q, x)):      # min(x, q) == x
                    return bnot(cmp_(q, x))
                if c is cmp_(q, x) or c is bnot(cmp_(x, q)):      # max(x, q) == x
                    return bnot(cmp_(x, q))
            return bor(c, eq(x, q))
    if a.op == "lin" or b.op == "lin":
        d = sub(a, b)
        if d.c is not None:
            return boolc(d.c == 0)
        if d.op == "lin" and d.a[0] == 0 and len(d.a[1]) == 2:
            (x, cx), (y, cy) = d.a[1]
            if (cx + cy) & ((1 << (8 * a.n)) - 1) == 0 and 1 in (cx, cy):
                return eq(x, y)
        # canonical orientation of a linear equation
        if d.op == "lin" and (len(d.a[1]) > 2 or d.a[0] != 0):
            m = neg(d)
            if m.op == "lin" and (m.a[0], tuple((c, x.id) for x, c in m.a[1])) < (d.a[0], tuple((c, x.id) for x, c in d.a[1])):
                d = m
            return mk("eq", (d, const(0, a.n)), 1)
    if b.c is None and a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), 1)


def _ltite(a, b, lt):
    """x < ite(c, x, y) and the like (comparisons with a minimum or maximum)"""
    if b.op == "ite" and (b.a[1] is a or b.a[2] is a):
        c, p, q = b.a
        return band(bnot(c), lt(a, q)) if p is a else band(c, lt(a, p))
    if a.op == "ite" and (a.a[1] is b or a.a[2] is b):
        c, p, q = a.a
        return band(bnot(c), lt(q, b)) if p is b else band(c, lt(p, b))
    return None


def ult(a, b):
    if a is b:
        return FALSE
    if a.c is not None and b.c is not None:
        return boolc(a.c < b.c)
    if b.c == 0 or a.c == (1 << (8 * a.n)) - 1:
        return FALSE
    if b.c == 1:
        return eq(a, const(0, a.n))
    if a.c == 0:
        return bnot(eq(b, const(0, b.n)))
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        return ult(a.a[1], b.a[1])
    if a.op == "zx" and b.op == "zx":
        n = max(a.a[0].n, b.a[0].n)
        return ult(zx(a.a[0], n), zx(b.a[0], n))
    if a.op == "zx" and b.c is not None:
        n = a.a[0].n
        return TRUE if b.c >> (8 * n) else ult(a.a[0], const(b.c, n))
    if b.op == "zx" and a.c is not None:
        n = b.a[0].n
        return FALSE if a.c >> (8 * n) else ult(const(a.c, n), b.a[0])
    if b.op == "urem" and b.a[0] is a:              # p < p % c
        return FALSE
    if a.op != "ite" and a.c is None and b.op == "ite" or b.op != "ite" and b.c is None and a.op == "ite":
        r = _ltite(a, b, ult)
        if r is not None:
            return r
    la, ha = urange(a)
    lb, hb = urange(b)
    if ha < lb:
        return TRUE
    if la >= hb:
        return FALSE
    # 2^64-1 < zx(x) + zx(y)   is   x + y overflows at 64 bits
    if a.c is not None and b.op == "lin" and b.a[0] == 0 and len(b.a[1]) == 2:
        (x, cx), (y, cy) = b.a[1]
        if cx == cy == 1 and x.op == y.op == "zx" and x.a[0].n == y.a[0].n and a.c == (1 << (8 * x.a[0].n)) - 1:
            return uaddo(x.a[0], y.a[0])
    if b.c is not None and a.op == "lin" and a.a[0] == 0 and len(a.a[1]) == 2:
        (x, cx), (y, cy) = a.a[1]
        if cx == cy == 1 and x.op == y.op == "zx" and x.a[0].n == y.a[0].n and b.c == 1 << (8 * x.a[0].n):
            return bnot(uaddo(x.a[0], y.a[0]))
    # MAX - x < y   is   x + y overflows
    full = (1 << (8 * a.n)) - 1
    if a.op == "lin" and a.a[0] == full and len(a.a[1]) == 1 and a.a[1][0][1] == full:
        return uaddo(a.a[1][0][0], b)
    # x + y < x  is overflow too
    if a.op == "lin" and b.c is None:
        d = sub(a, b)
        k, dd = _lin(a)
        if k == 0 and len(dd) == 2 and all(c == 1 for c in dd.values()) and b in dd:
            return uaddo(b, d)
    return mk("ult", (a, b), 1)


def satdiff(t):
    """(x, y) when t is the saturating signed difference of x and y"""
    if t.op == "ite" and t.a[0].op == "ssubo" and t.a[2] is sub(*t.a[0].a):
        top = 1 << (8 * t.n - 1)
        x = t.a[0].a[0]
        if t.a[1] is ite(slt(x, const(0, t.n)), const(top, t.n), const(top - 1, t.n)):
            return t.a[0].a
    return None


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "ite" and b.c in (0, 1) and b.n == a.n:
        d = satdiff(a)
        if d:
            return slt(*d) if b.c == 0 else bnot(slt(d[1], d[0]))
    if b.op == "ite" and a.n == b.n and a.c in (0, (1 << (8 * a.n)) - 1):
        d = satdiff(b)
        if d:
            return slt(d[1], d[0]) if a.c == 0 else bnot(slt(*d))
    # x - y < 0 in a type wide enough for the difference
    for l, k, left in ((a, b, True), (b, a, False)):
        if k.c is not None and l.op == "lin" and len(l.a[1]) == 2:
            (x, cx), (y, cy) = l.a[1]
            one, less = 1, (1 << (8 * l.n)) - 1
            if (cx, cy) == (less, one):
                x, cx, y, cy = y, cy, x, cx
            if (cx, cy) == (one, less) and x.op == y.op and x.op in ("sx", "zx") and x.a[0].n == y.a[0].n < l.n:
                kk = signed(k.c, k.n) - signed(l.a[0], l.n)
                f = slt if x.op == "sx" else ult
                x, y = x.a[0], y.a[0]
                if left and kk in (0, 1):               # x - y < 0,  x - y < 1
                    return f(x, y) if kk == 0 else bnot(f(y, x))
                if not left and kk in (0, -1):          # 0 < x - y,  -1 < x - y
                    return f(y, x) if kk == 0 else bnot(f(x, y))
    if a.c is not None and b.c is not None:
        return boolc(signed(a.c, a.n) < signed(b.c, b.n))
    r = _ltite(a, b, slt)
    if r is not None:
        return r
    # sx(x) + sx(y) outside the narrower signed range
    for l, k, hi in ((a, b, False), (b, a, True)):
        if k.c is not None and l.op == "lin" and l.a[0] == 0 and len(l.a[1]) == 2:
            (x, cx), (y, cy) = l.a[1]
            if cx == cy == 1 and x.op == y.op == "sx" and x.a[0].n == y.a[0].n:
                x, y = x.a[0], y.a[0]
                half, kk = 1 << (8 * x.n - 1), signed(k.c, k.n)
                neg_ = slt(x, const(0, x.n))
                if hi and kk == half - 1:           # max < x + y
                    return band(saddo(x, y), bnot(neg_))
                if hi and kk == -half - 1:          # min - 1 < x + y
                    return bnot(band(saddo(x, y), neg_))
                if not hi and kk == half:           # x + y < max + 1
                    return bnot(band(saddo(x, y), bnot(neg_)))
                if not hi and kk == -half:          # x + y < min
                    return band(saddo(x, y), neg_)
        if k.c is not None and l.op == "sx":
            half, kk = 1 << (8 * l.a[0].n - 1), signed(k.c, k.n)
            if -half <= kk < half:
                return slt(const(kk, l.a[0].n), l.a[0]) if hi else slt(l.a[0], const(kk, l.a[0].n))
            return boolc((kk < -half) if hi else (kk >= half))
    if a.op == b.op == "sx" and a.a[0].n == b.a[0].n:
        return slt(a.a[0], b.a[0])
    return mk("slt", (a, b), 1)


def lt(a, b, sg):
    return slt(a, b) if sg else ult(a, b)


def uaddo(a, b):
    la, ha = urange(a)
    lb, hb = urange(b)
    full = (1 << (8 * a.n)) - 1
    if ha + hb <= full:
        return FALSE
    if la + lb > full:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("uaddo", (a, b), 1)


def umulo(a, b):
    la, ha = urange(a)
    lb, hb = urange(b)
    full = (1 << (8 * a.n)) - 1
    if ha * hb <= full:
        return FALSE
    if la * lb > full:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return mk("umulo", (a, b), 1)


def saddo(a, b):
    if a.c is not None and b.c is not None:
        r = signed(a.c, a.n) + signed(b.c, b.n)
        return boolc(not -(1 << (8 * a.n - 1)) <= r < (1 << (8 * a.n - 1)))
    if a.c == 0 or b.c == 0:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("saddo", (a, b), 1)


def ssubo(a, b):
    if b.c == 0:
        return FALSE
    if a.c is not None and b.c is not None:
        r = signed(a.c, a.n) - signed(b.c, b.n)
        return boolc(not -(1 << (8 * a.n - 1)) <= r < (1 << (8 * a.n - 1)))
    return mk("ssubo", (a, b), 1)


def smulo(a, b):
    if a.c is not None and b.c is not None:
        r = signed(a.c, a.n) * signed(b.c, b.n)
        return boolc(not -(1 << (8 * a.n - 1)) <= r < (1 << (8 * a.n - 1)))
    if a.id > b.id:
        a, b = b, a
    return mk("smulo", (a, b), 1)


# ---------------------------------------------------------------- utilities
def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def subst(t, m, memo=None):
    """rebuild t with leaves (or subterms) replaced by m"""
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


_B = {"mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem, "and": band, "band": band, "or": bor,
      "bor": bor, "xor": bxor, "shl": shl, "shr": shr, "sar": sar, "eq": eq, "ult": ult, "slt": slt, "uaddo": uaddo,
      "umulo": umulo, "saddo": saddo, "ssubo": ssubo, "smulo": smulo}


def rebuild(x, go):
    op, a = x.op, x.a
    if op in ("c", "sym", "undef", "fn"):
        return x
    if op == "b":
        o = a[1]
        return rbytes(a[0], go(o) if isinstance(o, T) else o, x.n)
    if op == "ext":
        return ext(go(a[0]), a[1], x.n)
    if op == "cat":
        return cat([go(y) for y in a])
    if op == "zx":
        return zx(go(a[0]), x.n)
    if op == "sx":
        return sx(go(a[0]), x.n)
    if op == "ptr":
        return ptr(a[0], go(a[1]))
    if op == "lin":
        r = const(a[0], x.n)
        for t, c in a[1]:
            r = add(r, mul(go(t), const(c, x.n)))
        return r
    if op == "not":
        return bnot(go(a[0]))
    if op == "bitnot":
        return bitnot(go(a[0]))
    if op == "ite":
        return ite(go(a[0]), go(a[1]), go(a[2]))
    if op == "f":
        return mk("f", tuple(go(y) if isinstance(y, T) else y for y in a), x.n)
    if op in _B:
        return _B[op](go(a[0]), go(a[1]))
    raise AssertionError(op)


def show(t, depth=0):
    if depth > 8:
        return "..."
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else str(x)
    if t.c is not None:
        if t.n > 16 and t.c:
            return "0x%x:%d" % (t.c, t.n) if t.n <= 32 else "0x..:%d" % t.n
        v = t.c
        return str(v) if v < 1 << 20 else hex(v)
    op = t.op
    if op == "sym":
        return str(t.a[0])
    if op == "b":
        return "%s[%s;%d]" % (rname(t.a[0]), s(t.a[1]), t.n)
    if op == "ext":
        return "%s.<%d;%d>" % (s(t.a[0]), t.a[1], t.n)
    if op == "cat":
        return "{" + "|".join(s(x) for x in t.a) + "}"
    if op == "ptr":
        return "&%s+%s" % (rname(t.a[0]), s(t.a[1]))
    if op == "lin":
        bits = 8 * t.n
        out = []
        for x, c in t.a[1]:
            c = signed(c, t.n)
            out.append(("-" if c < 0 else "+") + ("" if abs(c) == 1 else "%d*" % abs(c)) + s(x))
        k = signed(t.a[0], t.n)
        if k:
            out.append("%+d" % k)
        return "(" + "".join(out).lstrip("+") + ")"
    names = {"eq": "==", "ult": "<u", "slt": "<s", "mul": "*", "udiv": "/", "urem": "%", "and": "&", "band": "&&",
             "or": "|", "bor": "||", "xor": "^"}
    if op in names:
        return "(%s %s %s)" % (s(t.a[0]), names[op], s(t.a[1]))
    if op == "not":
        return "!" + s(t.a[0])
    if op == "f":
        return "%s(%s)" % (t.a[0], ",".join(s(x) for x in t.a[1:]))
    return "%s(%s)" % (op, ",".join(s(x) for x in t.a))


def rname(r):
    if isinstance(r, tuple):
        return ".".join(str(x) for x in r)
    return str(r)
