"""What holds at one exit of an instruction: equality closure over bytes, normal forms of terms
under the exit's path facts, and no-wrap proofs.  Nothing here enumerates values."""
from .term import *
from .term import _lin
from .ai import State, as_term, pieces, Obj
from .models import DATA, HOFF


class Exit:
    def __init__(self, m, st, name="", parent=None):
        self.m, self.st, self.name = m, st, name
        self.par = {}
        self.memo = {}
        self.exm = {}
        self._close()

    # ------------------------------------------------ byte closure
    def _find(self, x):
        p = self.par.get(x)
        if p is None:
            return x
        r = self._find(p)
        self.par[x] = r
        return r

    def _union(self, a, b):
        a, b = self._find(a), self._find(b)
        if a is b:
            return
        # constants first, then the oldest term
        if a.c is None and (b.c is not None or b.id < a.id):
            a, b = b, a
        self.par[b] = a

    @staticmethod
    def byte(t, k):
        return ext(t, k, 1) if t.n > 1 else t

    def _close(self):
        eqs = []

        def collect(t, v):
            if v and t.op == "eq":
                eqs.append(t.a)
            elif v and t.op == "band":
                collect(t.a[0], True), collect(t.a[1], True)
            elif not v and t.op == "not":
                collect(t.a[0], True)
            elif not v and t.op == "bor":
                collect(t.a[0], False), collect(t.a[1], False)
        for t, v in self.st.facts.items():
            collect(t, v)
        for t, v in self.st.eqs.items():
            eqs.append((t, v))
        for _ in range(3):
            changed = False
            for a, b in eqs:
                if a.n > 64 or "lin" in (a.op, b.op):
                    continue
                a2, b2 = self.canon(a), self.canon(b)
                for x, y in ((a, b), (a2, b2)):
                    for k in range(a.n):
                        p, q = self._find(self.byte(x, k)), self._find(self.byte(y, k))
                        if p is not q:
                            self._union(p, q)
                            changed = True
            self.memo.clear()
            if not changed:
                break

    def canon(self, t):
        """byte-wise representative of a leaf or of a function application"""
        if t.c is not None or t.n > 64 or t.n == 0:
            return t
        if t.op == "f":
            t = mk("f", tuple(self.norm(x) if isinstance(x, T) else x for x in t.a), t.n)
        elif t.op not in ("b", "sym", "ext"):
            return t
        return cat([self._find(self.byte(t, k)) for k in range(t.n)])

    # ------------------------------------------------ normal form
    def norm(self, t):
        if t.c is not None:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        self.memo[t] = t          # cut cycles
        r = self._norm(t)
        self.memo[t] = r
        return r

    def _norm(self, t):
        st = self.st
        v = st.val(t)
        if v.c is not None:
            return v
        op = t.op
        if op in ISBOOL:
            d = st.decide(t)
            if d is not None:
                return boolc(d)
        if op == "ite":
            d = st.decide(t.a[0])
            if d is None:
                c = self.norm(t.a[0])
                if c.c is not None:
                    d = c.c != 0
            if d is not None:
                return self.norm(t.a[1 if d else 2])
            return ite(self.norm(t.a[0]), self.norm(t.a[1]), self.norm(t.a[2]))
        if op in ("b", "sym", "f"):
            return self.canon(t)
        if op == "zx":
            x = self.norm(t.a[0])
            y = t.a[0]
            if y.op == "lin" and self.exact(y):
                r = const(signed(y.a[0], y.n), t.n)
                for z, c in y.a[1]:
                    r = add(r, mul(zx(self.norm(z), t.n), const(signed(c, y.n), t.n)))
                return r
            return zx(x, t.n)
        r = rebuild(t, self.norm)
        if r.op == "ext" and r.a[0].op in ("b", "sym", "f"):
            return self.canon(r)
        return r

    def same(self, a, b):
        if a is b:
            return True
        if a.n != b.n:
            return False
        x, y = self.norm(a), self.norm(b)
        if x is y:
            return True
        if a.n > 4096:
            return False
        # compare piece by piece
        cuts = set()
        for t in (x, y):
            p = 0
            for q in (t.a if t.op == "cat" else (t,)):
                p += q.n
                cuts.add(p)
        p = 0
        for c in sorted(cuts):
            if not self._same1(ext(x, p, c - p), ext(y, p, c - p)):
                return False
            p = c
        return True

    def _same1(self, x, y):
        x, y = self.norm(x), self.norm(y)
        if x is y:
            return True
        if x.c is not None and y.c is not None:
            return False
        if self.holds(eq(x, y)):
            return True
        if x.n <= 64 and all(t.op in ("b", "sym", "f", "ext", "cat", "c") for t in (x, y)):
            return all(self._find(self.byte(x, k)) is self._find(self.byte(y, k)) for k in range(x.n))
        return False

    def holds(self, t, v=True):
        """the boolean term is known to be v at this exit"""
        if t.c is not None:
            return (t.c != 0) == v
        d = self.st.decide(t)
        if d is None:
            n = self.norm(t)
            d = (n.c != 0) if n.c is not None else self.st.decide(n)
        if d is None:
            d = self.nfacts().get(self.norm(t))
            if d is None and t.op == "not":
                d2 = self.nfacts().get(self.norm(t.a[0]))
                d = None if d2 is None else not d2
        if d is None and t.op == "eq" and v:
            a, b = t.a
            if a.n <= 64 and all(x.op in ("b", "sym", "f", "ext", "cat", "c") for x in (a, b)):
                a, b = self.norm(a), self.norm(b)
                return all(self._find(self.byte(a, k)) is self._find(self.byte(b, k)) for k in range(a.n))
        if d is None and t.op == "eq" and not v and t.a[0].n > 1 and t.a[0].n <= 64:
            return self.differ(*t.a)
        if d is None and t.op == "slt":
            d = self.by_difference(*t.a)
        return d is v

    def by_difference(self, a, b):
        """a < b (signed) decided from what is known of a - b or b - a"""
        if self.memo.get("bd"):
            return None
        self.memo["bd"] = True
        try:
            zero = const(0, a.n)
            known = lambda t: True if self.holds(t) else False if self.holds(t, False) else None
            for x, y, lo in ((a, b, True), (b, a, False)):
                w = known(ssubo(x, y))
                if w is False:
                    r = known(slt(sub(x, y), zero) if lo else slt(zero, sub(x, y)))
                elif w is True:         # of opposite signs
                    r = known(slt(a, zero))
                    if r is None:
                        r = known(slt(b, zero))
                        r = None if r is None else not r
                else:
                    r = None
                if r is not None:
                    return r
            # either way the subtraction goes
            got = set()
            for w in (True, False):
                s = self.st.fork()
                if s.assume(ssubo(a, b), w) and s.saturate():
                    x = Exit(self.m, s, self.name)
                    x.memo["bd-split"] = True
                    got.add(None if self.memo.get("bd-split") else True if x.holds(slt(a, b)) else False if x.holds(slt(a, b), False) else None)
            if len(got) == 1:
                return got.pop()
        finally:
            self.memo["bd"] = False
        return None

    def differ(self, a, b):
        """some part of the two values is known to differ"""
        for f, v in self.st.facts.items():
            if f.op == "not":
                f, v = f.a[0], not v
            if v or f.op != "eq" or f.a[0].n > a.n:
                continue
            p, q = f.a
            for k in range(a.n - p.n + 1):
                x, y = ext(a, k, p.n), ext(b, k, p.n)
                if x is p and y is q or x is q and y is p:
                    return True
        for k in range(a.n):
            x, y = self._find(self.byte(a, k)), self._find(self.byte(b, k))
            if x.c is not None and y.c is not None and x.c != y.c:
                return True
        return False

    def nfacts(self):
        r = self.memo.get("nf")
        if r is None:
            r = {}
            self.memo["nf"] = r
            for t, v in self.st.facts.items():
                # normalise the operands, not the (decided) fact itself
                if t.op in ISBOOL and t.op not in ("not", "band", "bor"):
                    n = rebuild(t, self.norm)
                    if n.c is None:
                        if n.op == "not":
                            n, v = n.a[0], not v
                        r[n] = v
        return r

    def subject(self, t):
        """normal form of a comparison without deciding it"""
        return rebuild(t, self.norm)

    # ------------------------------------------------ no-wrap proofs
    def exact(self, t, depth=0):
        """the linear term equals its value over the integers (no wrap at its width)"""
        if t.op != "lin":
            return True
        r = self.exm.get(t)
        if r is not None:
            return r
        self.exm[t] = False
        r = self._exact(t, depth)
        self.exm[t] = r
        return r

    def _exact(self, t, depth):
        st = self.st
        full = (1 << (8 * t.n)) - 1
        l = h = signed(t.a[0], t.n)
        for x, c in t.a[1]:
            c = signed(c, t.n)
            xl, xh = st.rng(x)
            l += c * (xl if c > 0 else xh)
            h += c * (xh if c > 0 else xl)
        if 0 <= l and h <= full:
            return True
        if depth > 4:
            return False
        for x, c in t.a[1]:
            if c == 1:
                rest = sub(t, x)
                if self.exact(rest, depth + 1):
                    if self.no(uaddo(x, rest)) or (rest.op != "lin" and rest.c is None and self.no(saddo(x, rest))):
                        return True
            elif signed(c, t.n) == -1:
                rest = add(t, x)
                if self.exact(rest, depth + 1) and self.no(ult(rest, x)):
                    return True
        # lamports of distinct accounts never exceed the total supply
        if t.a[0] == 0 and all(c == 1 and self.is_lamports(x) for x, c in t.a[1]):
            return True
        return False

    @staticmethod
    def is_lamports(x):
        return x.op == "b" and isinstance(x.a[0], tuple) and len(x.a[0]) > 2 and x.a[0][2] == "lamports"

    def no(self, t):
        if t.c is not None:
            return t.c == 0
        return self.st.decide(t) is False or self.nfacts().get(t) is False or \
            (t.op in ISBOOL and self.nfacts().get(rebuild(t, self.norm)) is False) or t.op == "slt" and self.by_difference(*t.a) is False

    def inexact(self, t):
        """arithmetic inside t that is not proved free of wrap-around, truncation or division by zero"""
        bad = []
        for x in walk(t):
            if x.op == "lin":
                if not self.exact(x):
                    bad.append(x)
            elif x.op == "mul":
                al, ah = self.st.rng(x.a[0])
                bl, bh = self.st.rng(x.a[1])
                if ah * bh > (1 << (8 * x.n)) - 1 and not self.no(umulo(*x.a)):
                    bad.append(x)
            elif x.op in ("udiv", "urem", "sdiv", "srem"):
                if self.st.rng(x.a[1])[0] == 0 and not self.no(eq(x.a[1], const(0, x.n))):
                    bad.append(x)
            elif x.op == "ext" and x.a[1] == 0 and x.a[0].op in ("udiv", "urem", "shr", "mul", "lin", "sdiv", "ite"):
                fullk = (1 << (8 * x.n)) - 1
                y = x.a[0]
                if self.st.rng(y)[1] > fullk and not self.no(ult(const(fullk, y.n), y)) and \
                        not self.holds(ult(y, const(fullk + 1, y.n))):
                    bad.append(x)
        return bad

    # ------------------------------------------------ accounts
    def init(self, i, field, off=0, n=None):
        if n is None:
            n = HOFF[field][1]
        return rbytes(("acct", i, field), off, n)

    def final(self, i, field, off=0, n=None):
        g, self.m.guarded = self.m.guarded, ()
        try:
            if field == "data":
                return as_term(self.m.read(self.st, ("acct", i), DATA + off, n))
            fo, fs = HOFF[field]
            return as_term(self.m.read(self.st, ("acct", i), fo + off, n or fs))
        finally:
            self.m.guarded = g

    def unchanged(self, i, field, off=0, n=None):
        return self.same(self.final(i, field, off, n), self.init(i, field, off, n))

    def touched(self):
        """[(account, field, offset, size)] of every piece of account memory that may differ from
        what it was on entry"""
        out = []
        for oid, o in self.st.mem.items():
            if oid[0] != "acct":
                continue
            back = o.back or {}
            for f, v in back.items():
                if v is not None:
                    out.append((oid[1], f, 0, None))
            for c, t in o.cells.items():
                if c >= DATA:
                    ini = rbytes(("acct", oid[1], "data"), c - DATA, t.n)
                    if not back.get("data") and self.same(t, ini):
                        continue
                    p = 0
                    for q in (t.a if t.op == "cat" else (t,)):
                        if back.get("data") or not self.same(q, ext(ini, p, q.n)):
                            out.append((oid[1], "data", c - DATA + p, q.n))
                        p += q.n
                else:
                    for f, (fo, fs) in HOFF.items():
                        if c < fo + fs and fo < c + t.n and f not in ("borrow_state", "resize_delta"):
                            lo, hi = max(c, fo), min(c + t.n, fo + fs)
                            if not self.same(ext(t, lo - c, hi - lo), rbytes(("acct", oid[1], f), lo - fo, hi - lo)):
                                out.append((oid[1], f, lo - fo, hi - lo))
        for e in self.st.log:
            if e[0] == "unk":
                out.append(("?", e[1], 0, None))
            elif e[0] == "wsym":
                out.append((e[1], "data?", 0, None))
        return out

    # ------------------------------------------------ case analysis
    def cases(self, depth=3, about=None):
        """exits obtained by splitting the disjunctions that mention the given terms' leaves"""
        if depth == 0:
            return [self]
        leaves = None
        if about is not None:
            leaves = set()
            for a in about:
                leaves |= {x for x in walk(a) if x.op in ("b", "sym")}
        for t, v in self.st.facts.items():
            if v and t.op == "bor" or not v and t.op == "band":
                a, b = t.a
                if self.st.decide(a) is not None or self.st.decide(b) is not None:
                    continue
                ways = (((a, v),), ((a, not v), (b, v)))
            elif t.op == "ite":
                if self.st.decide(t.a[0]) is not None:
                    continue
                ways = (((t.a[0], True), (t.a[1], v)), ((t.a[0], False), (t.a[2], v)))
            else:
                continue
            if leaves is not None and not any(x in leaves for x in walk(t)):
                continue
            out = []
            for w in ways:
                s = self.st.fork()
                if all(s.assume(x, y) for x, y in w) and s.saturate():
                    out += Exit(self.m, s, self.name).cases(depth - 1, about)
            return out
        return [self]

    def prove(self, pred, about):
        if pred(self):
            return True
        cs = self.cases(3, about)
        if len(cs) == 1 and cs[0] is self:
            return False
        return all(pred(c) for c in cs)
