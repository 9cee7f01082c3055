"""Interprocedural abstract interpreter over monomorphised MIR.

Domain: byte-addressed memory whose cells hold value-number terms (term.py), the set of branch
conditions that hold on every execution reaching the point, and the ordered log of observable
effects (account writes, cross-program invocations, emitted events).  States that meet at a
control-flow merge are joined when they agree on memory and effects (the facts are intersected,
disjunctions kept); otherwise they stay in separate partitions, bounded by K_PART, beyond which
cells that disagree are joined to an unknown.  Calls are analysed context-sensitively.
"""
import heapq, sys
from .term import *
from . import term as tm

sys.setrecursionlimit(20000)

K_PART = 96          # partitions per merge point before a forced join
K_VISIT = 4000       # visits of one block within one activation
K_STEPS = 6_000_000


DATA_OFF = 88


class Imprecise(Exception):
    pass


class Obj:
    __slots__ = ("cells", "size", "back")

    def __init__(self, cells=None, size=None, back=None):
        self.cells = {} if cells is None else cells
        self.size = size
        self.back = back

    def clone(self):
        return Obj(dict(self.cells), self.size, self.back)


class State:
    __slots__ = ("mem", "own", "facts", "eqs", "bnd", "log", "ctr", "trail")

    def __init__(self):
        self.mem, self.own, self.facts, self.eqs, self.bnd = {}, set(), {}, {}, {}
        self.log, self.ctr, self.trail = (), {}, ()

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.facts, s.eqs, s.bnd = dict(self.facts), dict(self.eqs), dict(self.bnd)
        s.log, s.ctr, s.trail = self.log, dict(self.ctr), self.trail
        return s

    # ---- facts
    def rng(self, t, depth=0):
        if t.c is not None:
            return t.c, t.c
        lo, hi = urange(t)
        b = self.bnd.get(t)
        if b:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        if depth < 6:
            if t.op == "zx":
                l, h = self.rng(t.a[0], depth + 1)
                lo, hi = max(lo, l), min(hi, h)
            elif t.op == "lin":
                # k + sum c*x without wrap when every step stays in range (coefficients +1 / -1)
                full = (1 << (8 * t.n)) - 1
                l = h = signed(t.a[0], t.n)
                for x, c in t.a[1]:
                    c = signed(c, t.n)
                    xl, xh = self.rng(x, depth + 1)
                    l += c * (xl if c > 0 else xh)
                    h += c * (xh if c > 0 else xl)
                if l >= 0 and h <= full:
                    lo, hi = max(lo, l), min(hi, h)
            elif t.op == "ite":
                l1, h1 = self.rng(t.a[1], depth + 1)
                l2, h2 = self.rng(t.a[2], depth + 1)
                lo, hi = max(lo, min(l1, l2)), min(hi, max(h1, h2))
        return lo, hi

    def srng(self, t, depth=0):
        """signed interval"""
        if t.c is not None:
            v = signed(t.c, t.n)
            return v, v
        half = 1 << (8 * t.n - 1)
        if t.op == "lin" and depth < 4:
            l = h = signed(t.a[0], t.n)
            for x, c in t.a[1]:
                c = signed(c, t.n)
                xl, xh = self.srng(x, depth + 1)
                l += c * (xl if c > 0 else xh)
                h += c * (xh if c > 0 else xl)
            if -half <= l and h < half:
                return l, h
        lo, hi = self.rng(t)
        if hi < half:
            return lo, hi
        if lo >= half:
            return lo - 2 * half, hi - 2 * half
        return -half, half - 1

    def solve1(self, t):
        """k + c*x == v  with c != 1  as  x == const, when the ranges leave one integer solution
        (or none); None when not of that form"""
        a, b = t.a
        if b.c is None or a.op != "lin" or len(a.a[1]) != 1 or a.a[1][0][1] == 1:
            return None
        x, c = a.a[1][0]
        c, k = signed(c, a.n), signed(a.a[0], a.n)
        xl, xh = self.rng(x)
        l, h = sorted((k + c * xl, k + c * xh))
        m = 1 << (8 * a.n)
        j0, j1 = -((b.c - l) // m), (h - b.c) // m
        if j0 > j1:
            return FALSE
        if j0 != j1:
            return None
        q = b.c + j0 * m - k
        return eq(x, const(q // c, a.n)) if q % c == 0 else FALSE

    def decide(self, t, depth=0):
        """True / False / None for a boolean term under the facts."""
        if t.c is not None:
            return t.c != 0
        f = self.facts.get(t)
        if f is not None:
            return f
        op = t.op
        if op == "not":
            r = self.decide(t.a[0], depth)
            return None if r is None else not r
        if depth > 8:
            return None
        if op == "band":
            a, b = self.decide(t.a[0], depth + 1), self.decide(t.a[1], depth + 1)
            if a is False or b is False:
                return False
            return True if a and b else None
        if op == "bor":
            a, b = self.decide(t.a[0], depth + 1), self.decide(t.a[1], depth + 1)
            if a or b:
                return True
            return False if a is False and b is False else None
        if op == "ite":
            c = self.decide(t.a[0], depth + 1)
            if c is not None:
                return self.decide(t.a[1 if c else 2], depth + 1)
            return None
        if op == "eq":
            a, b = t.a
            ea, eb = self.val(a), self.val(b)
            if ea.c is not None and eb.c is not None:
                return ea.c == eb.c
            if a.n <= 16:
                la, ha = self.rng(a)
                lb, hb = self.rng(b)
                if ha < lb or hb < la:
                    return False
            if self.facts.get(mk("ult", (a, b), 1)) or self.facts.get(mk("ult", (b, a), 1)):
                return False
            r = self.solve1(t) if depth < 8 else None
            return None if r is None else self.decide(r, depth + 1)
        if op in ("ult", "uaddo", "umulo"):
            a, b = t.a
            la, ha = self.rng(a)
            lb, hb = self.rng(b)
            full = (1 << (8 * a.n)) - 1
            if op == "ult":
                if ha < lb:
                    return True
                if la >= hb:
                    return False
                if self.facts.get(mk("ult", (b, a), 1)):
                    return False
                if self.eqs_same(a, b):
                    return False
            elif op == "uaddo":
                if ha + hb <= full:
                    return False
                if la + lb > full:
                    return True
            else:
                if ha * hb <= full:
                    return False
            return None
        if op == "slt":
            a, b = self.val(t.a[0]), self.val(t.a[1])
            la, ha = self.srng(a)
            lb, hb = self.srng(b)
            if ha < lb:
                return True
            if la >= hb:
                return False
            if self.facts.get(mk("slt", (b, a), 1)):
                return False
            return None
        if op in ("saddo", "ssubo"):
            la, ha = self.srng(t.a[0])
            lb, hb = self.srng(t.a[1])
            half = 1 << (8 * t.a[0].n - 1)
            l, h = (la + lb, ha + hb) if op == "saddo" else (la - hb, ha - lb)
            if -half <= l and h < half:
                return False
        return None

    def eqs_same(self, a, b):
        return self.facts.get(mk("eq", (a, b) if a.id <= b.id else (b, a), 1)) is True

    def val(self, t):
        """t itself or the constant it is known to equal"""
        if t.c is not None:
            return t
        e = self.eqs.get(t)
        if e is not None:
            return e
        if t.op == "zx":
            v = self.val(t.a[0])
            if v.c is not None:
                return const(v.c, t.n)
        if t.op == "ite":
            c = self.decide(t.a[0])
            if c is not None:
                return self.val(t.a[1 if c else 2])
        if t.op in ISBOOL:
            d = self.decide(t)
            if d is not None:
                return boolc(d)
        if t.op == "lin" or t.op == "ext" or t.op == "cat":
            m = {}
            for x in children(t):
                e = self.eqs.get(x)
                if e is not None:
                    m[x] = e
            if m:
                r = subst(t, m)
                if r.c is not None:
                    return r
        if t.n <= 16:
            b = self.bnd.get(t)
            if b and b[0] == b[1]:
                return const(b[0], t.n)
        return t

    def assume(self, t, v=True):
        """add a fact; False when it contradicts what is known"""
        if t.c is not None:
            return (t.c != 0) == v
        d = self.decide(t)
        if d is not None:
            if d == v and t not in self.facts and t.op != "not":
                self.facts[t] = v
            return d == v
        op = t.op
        if op == "not":
            return self.assume(t.a[0], not v)
        self.facts[t] = v
        if op == "band" and v or op == "bor" and not v:
            return self.assume(t.a[0], v) and self.assume(t.a[1], v)
        if op == "bor" and v or op == "band" and not v:
            a, b = self.decide(t.a[0]), self.decide(t.a[1])
            if a is (not v):
                return self.assume(t.a[1], v)
            if b is (not v):
                return self.assume(t.a[0], v)
            x, y = t.a                  # x || y  and  x || !y   give x
            if self.facts.get(mk(op, (x, bnot(y)), 1)) is v or self.facts.get(mk(op, (bnot(y), x), 1)) is v:
                return self.assume(x, v)
            if self.facts.get(mk(op, (bnot(x), y), 1)) is v or self.facts.get(mk(op, (y, bnot(x)), 1)) is v:
                return self.assume(y, v)
            return True
        if op == "ite":
            # boolean ite with constant arm
            c, x, y = t.a
            dx, dy = self.decide(x), self.decide(y)
            if dx is not None and dx != v:
                return self.assume(c, False) and self.assume(y, v)
            if dy is not None and dy != v:
                return self.assume(c, True) and self.assume(x, v)
            return True
        if op == "eq":
            a, b = t.a
            r = self.solve1(t)
            if r is not None and not self.assume(r, v):
                return False
            if b.c is not None:
                if v:
                    self.eqs[a] = b
                    self.bnd[a] = (b.c, b.c)
                    if a.op == "ite":
                        if a.a[1].c is not None and a.a[1].c != b.c:
                            return self.assume(a.a[0], False)
                        if a.a[2].c is not None and a.a[2].c != b.c:
                            return self.assume(a.a[0], True)
                else:
                    lo, hi = self.rng(a)
                    if b.c == lo:
                        self.bnd[a] = (lo + 1, hi)
                    elif b.c == hi:
                        self.bnd[a] = (lo, hi - 1)
            elif v:
                ca, cb = self.eqs.get(a), self.eqs.get(b)
                if ca is not None and cb is None:
                    self.eqs[b] = ca
                elif cb is not None and ca is None:
                    self.eqs[a] = cb
            return True
        if op == "ult":
            a, b = t.a
            la, ha = self.rng(a)
            lb, hb = self.rng(b)
            if v:      # a < b
                na, nb = (la, min(ha, hb - 1)), (max(lb, la + 1), hb)
            else:      # a >= b
                na, nb = (max(la, lb), ha), (lb, min(hb, ha))
            if na[0] > na[1] or nb[0] > nb[1]:
                return False
            if a.c is None:
                self.bound(a, na)
            if b.c is None:
                self.bound(b, nb)
        return True

    def saturate(self):
        """unit propagation over the recorded disjunctions; False on contradiction"""
        for _ in range(8):
            n = len(self.facts)
            for t, v in list(self.facts.items()):
                if t.op == "bor" and v or t.op == "band" and not v:
                    a, b = self.decide(t.a[0]), self.decide(t.a[1])
                    if a is v or b is v:
                        continue
                    if a is not None and not self.assume(t.a[1], v) or a is None and b is not None and not self.assume(t.a[0], v):
                        return False
                elif t.op == "ite":
                    c = self.decide(t.a[0])
                    if c is not None and not self.assume(t.a[1 if c else 2], v):
                        return False
            if len(self.facts) == n:
                break
        return True

    def bound(self, t, r):
        o = self.bnd.get(t)
        if o:
            r = (max(o[0], r[0]), min(o[1], r[1]))
        self.bnd[t] = r
        if t.n == 8 and t.op == "b" and r[1] < 1 << 32:
            self.bnd[ext(t, 0, 4)] = r
        # x + k in [lo,hi]  bounds x when x + k cannot wrap inside the interval
        if t.op == "lin" and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
            x, k = t.a[1][0][0], t.a[0]
            m = 1 << (8 * t.n)
            lo, hi = (r[0] - k) % m, (r[1] - k) % m
            if lo <= hi:
                self.bound(x, (lo, hi))
            else:
                xl, xh = self.rng(x)
                if (xl + k) // m == (xh + k) // m:      # x + k wraps the same way throughout
                    w = (xl + k) // m * m
                    self.bound(x, (max(xl, r[0] + w - k), min(xh, r[1] + w - k)))
        elif t.op == "zx":
            i = t.a[0]
            f = (1 << (8 * i.n)) - 1
            self.bound(i, (min(r[0], f), min(r[1], f)))

    # ---- memory
    def obj(self, oid):
        return self.mem.get(oid)

    def wobj(self, oid):
        o = self.mem.get(oid)
        if o is None:
            o = Obj()
            self.mem[oid] = o
            self.own.add(oid)
        elif oid not in self.own:
            o = o.clone()
            self.mem[oid] = o
            self.own.add(oid)
        return o

    def fresh(self, site):
        n = self.ctr.get(site, 0)
        self.ctr[site] = n + 1
        return n


class Blob:
    """aggregate value: size and (offset, term) pieces; gaps are uninitialised"""
    __slots__ = ("n", "p")

    def __init__(self, n, p):
        self.n, self.p = n, tuple(p)


UNIT = Blob(0, ())


def pieces(v):
    if isinstance(v, Blob):
        return v.p
    return ((0, v),)


def as_term(v):
    if isinstance(v, T):
        return v
    out, p = [], 0
    for o, t in v.p:
        if o > p:
            out.append(undef(o - p))
        out.append(t)
        p = o + t.n
    if p < v.n:
        out.append(undef(v.n - p))
    return cat(out)


def mkval(n, ps):
    ps = [(o, t) for o, t in ps if t.n]
    if len(ps) == 1 and ps[0][0] == 0 and ps[0][1].n == n:
        return ps[0][1]
    return Blob(n, ps)


def vslice(v, off, n):
    if isinstance(v, T):
        return ext(v, off, n) if n else UNIT
    ps = []
    for o, t in v.p:
        lo, hi = max(o, off), min(o + t.n, off + n)
        if lo < hi:
            ps.append((lo - off, ext(t, lo - o, hi - lo)))
    return mkval(n, ps)


class Prog:
    """Indexed dump"""

    def __init__(self, d):
        self.d = d
        self.types = {int(k): v for k, v in d["types"].items()}
        self.insts = d["insts"]
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.roots = {}
        for n, i, sp in d["roots"]:
            self.roots.setdefault(n, []).append(i)
        self._cfg = {}
        self._glob = {}

    def find(self, name):
        """instance ids whose name equals `name`"""
        return [k for k, i in enumerate(self.insts) if i["name"] == name]

    def size(self, ty):
        return self.types[ty]["size"]

    def cfg(self, iid):
        c = self._cfg.get(iid)
        if c is None:
            c = Cfg(self.insts[iid]["body"])
            self._cfg[iid] = c
        return c

    def alloc_pieces(self, a):
        key = id(a)
        r = self._glob.get(key)
        if r is None:
            hexs = a["b"]
            n = len(hexs) // 2
            ps = []
            prov = {o: i for o, i in a.get("p", ())}
            off = 0
            while off < n:
                if off in prov:
                    base = int.from_bytes(bytes.fromhex(hexs[2 * off:2 * off + 16]), "little")
                    ps.append((off, self.alloc_ptr(prov[off], base)))
                    off += 8
                    continue
                if hexs[2 * off:2 * off + 2] == "uu":
                    off += 1
                    continue
                e = off
                while e < n and e not in prov and hexs[2 * e:2 * e + 2] != "uu":
                    e += 1
                ps.append((off, const(int.from_bytes(bytes.fromhex(hexs[2 * off:2 * e]), "little"), e - off)))
                off = e
            r = (n, ps, a)
            self._glob[key] = r
        return r[0], r[1]

    def alloc_ptr(self, aid, base=0):
        al = self.allocs.get(aid)
        if al is None:
            return sym("alloc%d" % aid, 8)
        if "fn" in al:
            return mk("fn", (al["fn"],), 8)
        return ptr(("A", aid), base)


def _plocals(place, out):
    if isinstance(place, int):
        return
    for p in place[1]:
        if p[0] == "I":
            out.append(p[1])


class Cfg:
    def __init__(self, body):
        self.b = body
        bl = body["blocks"]
        self.succ = []
        for x in bl:
            self.succ.append(self._succ(x["t"]))
        n = len(bl)
        order, seen = [], [False] * n
        st = [(0, iter(self.succ[0]))]
        seen[0] = True
        while st:
            u, it = st[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        order.reverse()
        self.rpo = {u: k for k, u in enumerate(order)}
        npred = [0] * n
        for u in order:
            for v in self.succ[u]:
                npred[v] += 1
        self.merge = [c > 1 for c in npred]
        self.live = self._liveness(order)

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[3]]
        return []

    def _liveness(self, order):
        """locals that may be read later, or whose address was taken (always kept)"""
        body = self.b
        addr = set()
        use = [set() for _ in body["blocks"]]
        dfn = [set() for _ in body["blocks"]]

        def base(p):
            return p if isinstance(p, int) else p[0]

        for i, x in enumerate(body["blocks"]):
            u, d = use[i], dfn[i]

            def rd(p):
                l = base(p)
                if l not in d:
                    u.add(l)
                ex = []
                _plocals(p, ex)
                for e in ex:
                    if e not in d:
                        u.add(e)

            def op(o):
                if o[0] in ("c", "m"):
                    rd(o[1])

            def wr(p):
                if isinstance(p, int) or not p[1]:
                    d.add(base(p))
                else:
                    rd(p)

            for s in x["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("ref", "addr"):
                        p = r[2]
                        rd(p)
                        if isinstance(p, int) or not any(q[0] == "D" for q in p[1]):
                            addr.add(base(p))
                    elif k in ("use", "repeat"):
                        op(r[1])
                    elif k == "agg":
                        for o in r[3]:
                            op(o)
                    elif k in ("bin", "cbin"):
                        op(r[2]), op(r[3])
                    elif k == "cast":
                        op(r[2])
                    elif k == "un":
                        op(r[2])
                    elif k in ("discr", "len"):
                        rd(r[1])
                    elif k == "reborrow":
                        pass
                    wr(s[1])
                elif s[0] == "sd":
                    rd(s[1])
                elif s[0] == "cno":
                    op(s[1]), op(s[2]), op(s[3])
            t = x["t"]
            if t[0] == "switch":
                op(t[1])
            elif t[0] == "drop":
                rd(t[1])
                if isinstance(t[1], int) or not any(q[0] == "D" for q in t[1][1]):
                    addr.add(base(t[1]))
            elif t[0] == "call":
                op(t[1])
                for a in t[2]:
                    op(a)
                wr(t[3])
            elif t[0] == "assert":
                op(t[1])
            elif t[0] == "ret":
                u.add(0)
        live = [set() for _ in body["blocks"]]
        ch = True
        while ch:
            ch = False
            for u_ in reversed(order):
                o = set()
                for v in self.succ[u_]:
                    o |= live[v]
                n = use[u_] | (o - dfn[u_])
                if n != live[u_]:
                    live[u_] = n
                    ch = True
        self.addr = addr
        return live


class Frame:
    __slots__ = ("iid", "depth", "body", "loc", "site")


class Interp:
    def __init__(self, prog, models, trace=False):
        self.p = prog
        self.types = prog.types
        self.models = models
        models.types = self.types
        self.stats = {"functions": set(), "blocks": set(), "calls": set(), "unknown": {}, "joins": 0, "steps": 0}
        self.steps = 0
        self.trace = trace
        self.covered_lines = set()
        self.panics = {}
        self.prof = {}
        self.multi = {}
        self.guarded = ()
        self.access = {}
        self.cur = None
        self.refusals, self.labels, self.stops, self.k_part, self.watch = False, 0, [], K_PART, False

    # ------------------------------------------------ types
    def size(self, ty):
        return self.types[ty]["size"]

    def pointee(self, ty):
        t = self.types[ty]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt" and t.get("args"):
            return t["args"][0]
        raise Imprecise("deref of %s" % t["s"])

    def unsized_tail(self, ty):
        """'slice' | 'dyn' | None for the pointee type"""
        t = self.types[ty]
        k = t["k"]
        if k in ("slice", "str"):
            return k
        if k == "dyn":
            return k
        if k == "adt" and t.get("unsized") and t.get("v"):
            f = t["v"][0]["f"]
            if f:
                return self.unsized_tail(f[-1][1])
        return None

    # ------------------------------------------------ memory access
    def read(self, st, oid, off, n):
        if n == 0:
            return UNIT
        if isinstance(off, T):
            if off.c is not None:
                off = off.c
            else:
                v = st.val(off)
                if v.c is not None:
                    off = v.c
                else:
                    return self.read_sym(st, oid, off, n)
        kind = oid[0]
        if kind in self.guarded:
            self.models.access(self, st, oid, off, n, False)
        if kind == "A":
            al = self.p.allocs[oid[1]]
            if "m" in al or "static" in al:
                o = st.mem.get(oid)
                if o is None:
                    a = al.get("m")
                    if a is None:
                        s = al["static"]
                        a = s["m"] if isinstance(s, dict) else None
                    if a is None:
                        return sym(("static", oid[1], off), n)
                    size, ps = self.p.alloc_pieces(a)
                    return vslice(Blob(size, ps), off, n)
            else:
                return sym(("glob", oid[1], off), n)
        o = st.mem.get(oid)
        if o is None:
            if kind in ("acct", "accs", "ix", "deref", "reg"):
                return self.read_back(st, oid, None, off, n)
            return Blob(n, ())
        c = o.cells.get(off)
        if c is not None and c.n == n:
            return c
        ps = []
        for co, t in o.cells.items():
            if co < off + n and off < co + t.n:
                lo, hi = max(co, off), min(co + t.n, off + n)
                ps.append((lo - off, ext(t, lo - co, hi - lo)))
        ps.sort(key=lambda x: x[0])
        if o.back is not None or kind in ("acct", "accs", "ix", "deref", "reg"):
            full, p = [], 0
            for x, t in ps:
                if x > p:
                    full += [(p + q, z) for q, z in pieces(self.read_back(st, oid, o, off + p, x - p))]
                full.append((x, t))
                p = x + t.n
            if p < n:
                full += [(p + q, z) for q, z in pieces(self.read_back(st, oid, o, off + p, n - p))]
            # keep pointers separate, merge plain bytes
            if len(full) > 1 and all(t.op != "ptr" for _, t in full):
                return cat([t for _, t in full])
            return mkval(n, full)
        return mkval(n, ps)

    def read_sym(self, st, oid, off, n):
        if oid[0] in self.guarded:
            self.models.access(self, st, oid, off, n, False)
        o = st.mem.get(oid)
        if oid[0] in ("ix", "deref", "reg") and (o is None or not o.cells):
            return rbytes(oid, off, n)
        if oid[0] == "acct":
            return self.models.acct_read_sym(self, st, oid, off, n)
        if oid[0] == "accs":
            return self.models.accs_read(self, st, off, n)
        return func("memsel", (("mem",) + tuple(oid), off, sym(("at", self.steps), 8)), n)

    def read_back(self, st, oid, o, off, n):
        k = oid[0]
        if k == "acct":
            return self.models.acct_read(self, st, oid, o, off, n)
        if k == "accs":
            return self.models.accs_read(self, st, const(off, 8), n)
        if o is not None and o.back is not None:
            return rbytes(o.back, off, n)
        return rbytes(oid, off, n)

    def write(self, st, oid, off, v, n):
        if n == 0:
            return
        if isinstance(off, T):
            off = st.val(off)
            if off.c is not None:
                off = off.c
            else:
                return self.write_sym(st, oid, off, v, n)
        if oid[0] in self.guarded:
            self.models.access(self, st, oid, off, n, True)
        if oid[0] == "acct":
            self.models.acct_write(self, st, oid, off, v, n)
        elif oid[0] in ("A", "accs", "ix", "deref"):
            if oid[0] == "A":
                al = self.p.allocs[oid[1]]
                if "m" not in al and "static" not in al:
                    raise Imprecise("write to a global")
                if oid not in st.mem:
                    a = al.get("m") or al["static"]["m"]
                    size, ps = self.p.alloc_pieces(a)
                    st.mem[oid] = Obj(dict(ps), size)
                    st.own.add(oid)
            st.log = st.log + (("unk", "write to %s" % rname(oid)),) if oid[0] in ("ix", "accs") else st.log
        o = st.wobj(oid)
        self.put(o, off, v, n)

    @staticmethod
    def put(o, off, v, n):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c.n == n and isinstance(v, T):
            cells[off] = v
            return
        kill = [(co, t) for co, t in cells.items() if co < off + n and off < co + t.n]
        for co, t in kill:
            del cells[co]
            if co < off:
                cells[co] = ext(t, 0, off - co)
            e = co + t.n
            if e > off + n:
                cells[off + n] = ext(t, off + n - co, e - off - n)
        if isinstance(v, T):
            if v.op != "undef":
                cells[off] = v
        else:
            for po, t in v.p:
                if t.op != "undef":
                    cells[off + po] = t
            if o.back is not None:
                p = 0
                for po, t in v.p:
                    if po > p:
                        cells[off + p] = undef(po - p)
                    p = po + t.n
                if p < n:
                    cells[off + p] = undef(n - p)

    def write_sym(self, st, oid, off, v, n):
        if oid[0] in self.guarded:
            self.models.access(self, st, oid, off, n, True)
        if oid[0] == "acct":
            st.log = st.log + (("wsym", oid[1], off, as_term(v)),)
            self.models.acct_havoc(self, st, oid)
            return
        o = st.wobj(oid)
        o.cells.clear()
        o.back = ("havoc", rname(oid), st.fresh(("havoc", oid)))

    def load_ptr(self, st, p, n):
        """read n bytes behind pointer term p"""
        if n == 0:
            return UNIT
        p = st.val(p) if p.op == "ite" else p
        if p.op == "ptr":
            return self.read(st, p.a[0], p.a[1], n)
        if p.op == "ite":
            a, b = self.load_ptr(st, p.a[1], n), self.load_ptr(st, p.a[2], n)
            return ite(p.a[0], as_term(a), as_term(b))
        return self.read(st, *self.deref(p), n)

    def deref(self, p):
        if p.op == "ptr":
            return p.a[0], p.a[1]
        k, d = tm._lin(p)
        if len(d) == 1 and p.op == "lin" and list(d.values())[0] == 1:
            return ("deref", list(d)[0]), const(k, 8)
        return ("deref", p), const(0, 8)

    def store_ptr(self, st, p, v, n):
        if n == 0:
            return
        if p.op == "ite":
            p = st.val(p)
        if p.op == "ite":
            old1, old2 = self.load_ptr(st, p.a[1], n), self.load_ptr(st, p.a[2], n)
            t = as_term(v)
            self.store_ptr(st, p.a[1], ite(p.a[0], t, as_term(old1)), n)
            self.store_ptr(st, p.a[2], ite(p.a[0], as_term(old2), t), n)
            return
        oid, off = self.deref(p)
        if oid[0] == "deref":
            st.log = st.log + (("unk", "write through unknown pointer " + show(p)[:80]),)
        self.write(st, oid, off, v, n)

    # ------------------------------------------------ places
    def place(self, st, fr, pl):
        """-> (oid, off, ty, meta)"""
        if isinstance(pl, int):
            return ("L", fr.depth, pl), 0, fr.loc[pl], None
        l, proj = pl
        oid, off, ty, meta, var = ("L", fr.depth, l), 0, fr.loc[l], None, None
        for p in proj:
            k = p[0]
            if k == "D":
                e = self.pointee(ty)
                tail = self.unsized_tail(e)
                v = self.read(st, oid, off, 8)
                pt = as_term(v)
                if tail:
                    o8 = off + 8 if not isinstance(off, T) else add(off, const(8, 8))
                    meta = as_term(self.read(st, oid, o8, 8))
                else:
                    meta = None
                if pt.op == "ite":
                    pt = st.val(pt)
                if pt.op == "ite":
                    # pick by splitting is not possible here: give up on the object
                    pt = pt
                if pt.op == "undef":
                    raise Imprecise("deref of uninitialised pointer in %s" % self.p.insts[fr.iid]["name"])
                if pt.op == "ite":
                    raise NeedSplit(pt.a[0])
                oid, off = self.deref(pt)
                if off.c is not None:
                    off = off.c
                ty, var = e, None
            elif k == "F":
                o = self.foff(ty, var, p[1])
                off = off + o if not isinstance(off, T) else add(off, const(o, 8))
                ty, var = p[2], None
            elif k == "V":
                var = p[1]
            elif k == "I":
                t = self.types[ty]
                es = self.size(t["e"])
                iv = st.val(as_term(self.read(st, ("L", fr.depth, p[1]), 0, 8)))
                d = mul(iv, const(es, 8))
                off = add(off if isinstance(off, T) else const(off, 8), d)
                if off.c is not None:
                    off = off.c
                ty, meta = t["e"], None
            elif k == "C":
                t = self.types[ty]
                es = self.size(t["e"])
                if p[3]:
                    ln = meta if t["k"] == "slice" else const(t["len"], 8)
                    d = mul(sub(ln, const(p[1], 8)), const(es, 8))
                else:
                    d = const(p[1] * es, 8)
                off = add(off if isinstance(off, T) else const(off, 8), d)
                if off.c is not None:
                    off = off.c
                ty, meta = t["e"], None
            elif k == "S":
                t = self.types[ty]
                es = self.size(t["e"])
                off = add(off if isinstance(off, T) else const(off, 8), const(p[1] * es, 8))
                if off.c is not None:
                    off = off.c
                if t["k"] == "slice":
                    meta = sub(meta, const(p[1] + p[2], 8)) if p[3] else const(p[2] - p[1], 8)
                else:
                    raise Imprecise("array subslice")
            elif k == "O":
                ty = p[1]
            else:
                raise Imprecise("projection " + k)
        return oid, off, ty, meta

    def foff(self, ty, var, i):
        t = self.types[ty]
        if var is not None and t.get("multi"):
            return t["multi"]["off"][var][i]
        if t.get("off") is not None:
            return t["off"][i]
        if t.get("multi"):
            return t["multi"]["off"][0][i]
        if t["k"] == "adt" and t.get("ak") == "Union":
            return 0
        raise Imprecise("no layout for field of " + t["s"])

    def read_place(self, st, fr, pl):
        oid, off, ty, meta = self.place(st, fr, pl)
        n = self.size(ty)
        if n is None:
            raise Imprecise("unsized read")
        return self.read(st, oid, off, n)

    def write_place(self, st, fr, pl, v):
        if isinstance(pl, int):
            n = self.types[fr.loc[pl]]["size"]
            if n:
                o = st.wobj(("L", fr.depth, pl))
                if isinstance(v, T):
                    o.cells = {0: v} if v.op != "undef" else {}
                else:
                    o.cells = {po: t for po, t in v.p if t.op != "undef"}
            return
        oid, off, ty, meta = self.place(st, fr, pl)
        self.write(st, oid, off, v, self.size(ty))

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            return self.read_place(st, fr, o[1])
        if k == "k":
            return self.constant(o[1])
        if k == "rt":
            return FALSE
        raise Imprecise("operand " + k)

    def constant(self, c):
        n = self.size(c["t"]) or 0
        if "a" in c:
            size, ps = self.p.alloc_pieces(c["a"])
            t = self.types[c["t"]]
            return mkval(size, ps)
        if n == 0:
            return UNIT
        return sym(("const", str(c)), n)

    # ------------------------------------------------ enums
    def tag_term(self, st, v, ty):
        pass

    def discr(self, st, oid, off, ty, n):
        t = self.types[ty]
        if t["k"] != "adt" or t.get("ak") != "Enum":
            return const(0, n)
        m = t.get("multi")
        if not m:
            sv = t.get("single")
            d = t["v"][sv or 0]["d"] if t["v"] else 0
            return const(int(d or 0), n)
        o = off + m["at"] if not isinstance(off, T) else add(off, const(m["at"], 8))
        ts = tag_size(m["tag"])
        tag = as_term(self.read(st, oid, o, ts))
        if m["enc"] == "direct":
            tag = st.val(tag)
            if tag.c is not None:
                s = any(int(x["d"]) < 0 or int(x["d"]) >> 127 for x in t["v"])
                return const(signed(tag.c, tag.n) if s else tag.c, n)
            return zx(tag, n) if n >= tag.n else ext(tag, 0, n)
        unt, start, end, ns = m["enc"]
        ns = int(ns)

        tag = st.val(tag)
        bits = (1 << (8 * ts)) - 1

        def dval(v):
            return const(int(t["v"][v]["d"]), n)
        if tag.c is not None:
            rel = (tag.c - ns) & bits
            return dval(start + rel) if rel <= end - start else dval(unt)
        if tag.op in ("ptr", "fn"):
            return dval(unt)
        r = dval(unt)
        for v in range(start, end + 1):
            r = ite(eq(tag, const(ns + v - start, ts)), dval(v), r)
        return r

    def enum_pieces(self, ty, var, fields):
        """pieces of an enum value; fields: list of values"""
        t = self.types[ty]
        ps = []
        for i, f in enumerate(fields):
            o = self.foff(ty, var, i)
            ps += [(o + q, x) for q, x in pieces(f)]
        m = t.get("multi")
        if m:
            ts = tag_size(m["tag"])
            if m["enc"] == "direct":
                ps.append((m["at"], const(int(t["v"][var]["d"]), ts)))
            else:
                unt, start, end, ns = m["enc"]
                ns = int(ns)

                if var != unt:
                    ps.append((m["at"], const(ns + var - start, ts)))
        ps.sort(key=lambda x: x[0])
        return mkval(t["size"], ps)

    def aggregate(self, st, fr, r):
        kind = r[1]
        ty = r[2]
        ops = [self.operand(st, fr, o) for o in r[3]]
        if kind == "adt":
            t = self.types[ty]
            if t["ak"] == "Enum":
                return self.enum_pieces(ty, r[4], ops)
            if t["ak"] == "Union":
                v = ops[0]
                return mkval(t["size"], pieces(v))
        if kind == "array":
            t = self.types[ty]
            es = self.size(t["e"])
            ps = []
            for i, v in enumerate(ops):
                ps += [(i * es + q, x) for q, x in pieces(v)]
            return mkval(t["size"], self.pack(ps, es))
        if kind == "rawptr":
            meta = ops[1]
            if isinstance(meta, Blob) and meta.n == 0:
                return ops[0]
            return Blob(16, ((0, as_term(ops[0])), (8, as_term(meta))))
        t = self.types[ty]
        ps = []
        for i, v in enumerate(ops):
            o = self.foff(ty, None, i)
            ps += [(o + q, x) for q, x in pieces(v)]
        ps.sort(key=lambda x: x[0])
        return mkval(t["size"], ps)

    @staticmethod
    def pack(ps, es):
        if es == 1 and len(ps) > 1 and all(t.c is not None for _, t in ps):
            return [(0, cat([t for _, t in ps]))] if ps[0][0] == 0 and ps[-1][0] == len(ps) - 1 else ps
        return ps

    # ------------------------------------------------ rvalues
    def is_signed(self, ty):
        return self.types[ty]["k"] == "int"

    def op_ty(self, fr, o):
        if o[0] in ("c", "m"):
            p = o[1]
            if isinstance(p, int):
                return fr.loc[p]
            return self.pty(fr, p)
        if o[0] == "k":
            return o[1]["t"]
        return None

    def pty(self, fr, p):
        ty = fr.loc[p[0]]
        for q in p[1]:
            k = q[0]
            if k == "D":
                ty = self.pointee(ty)
            elif k == "F":
                ty = q[2]
            elif k in ("I", "C"):
                ty = self.types[ty]["e"]
            elif k == "O":
                ty = q[1]
        return ty

    def binop(self, st, fr, opn, x, y, xo, yo):
        ty = self.op_ty(fr, xo)
        if ty is None:
            ty = self.op_ty(fr, yo)
        t = self.types[ty]
        if isinstance(x, Blob) and x.n == 16 and t["k"] in ("ptr", "ref"):
            # fat pointers compare
            xa, ya = vslice(x, 0, 8), vslice(y, 0, 8)
            e = band(eq(as_term(xa), as_term(ya)), eq(as_term(vslice(x, 8, 8)), as_term(vslice(y, 8, 8))))
            if opn == "Eq":
                return e
            if opn == "Ne":
                return bnot(e)
            raise Imprecise("fat pointer ordering")
        if isinstance(x, Blob) and x.n == 0:
            return TRUE if opn in ("Eq", "Le", "Ge") else FALSE
        a, b = as_term(x), as_term(y)
        sg = t["k"] == "int"
        if t["k"] == "float":
            return func("f" + opn, (a, b), 1 if opn in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else a.n)
        if opn in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            a, b = st.val(a), st.val(b)
            if a.n != b.n:
                raise Imprecise("compare sizes")
            if opn == "Eq":
                return eq(a, b)
            if opn == "Ne":
                return bnot(eq(a, b))
            if opn == "Lt":
                return lt(a, b, sg)
            if opn == "Gt":
                return lt(b, a, sg)
            if opn == "Le":
                return bnot(lt(b, a, sg))
            if opn == "Ge":
                return bnot(lt(a, b, sg))
            return ite(lt(a, b, sg), const(-1, 1), ite(eq(a, b), const(0, 1), const(1, 1)))
        if opn == "Offset":
            es = self.size(t["e"])
            return add(a, mul(zx(b, 8) if b.n <= 8 else b, const(es, 8)))
        if opn in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            b = st.val(b)
            if opn.startswith("Shl"):
                return shl(a, b)
            return sar(a, b) if sg else shr(a, b)
        opn = opn.replace("Unchecked", "")
        if opn == "Add":
            return add(a, b)
        if opn == "Sub":
            return sub(a, b)
        if opn == "Mul":
            return mul(a, b)
        if opn == "Div":
            return sdiv(a, b) if sg else udiv(a, b)
        if opn == "Rem":
            return srem(a, b) if sg else urem(a, b)
        if opn == "BitAnd":
            return band(a, b)
        if opn == "BitOr":
            return bor(a, b)
        if opn == "BitXor":
            return bxor(a, b)
        raise Imprecise("binop " + opn)

    def overflow(self, st, fr, opn, x, y, xo):
        sg = self.is_signed(self.op_ty(fr, xo))
        a, b = as_term(x), as_term(y)
        if opn == "Add":
            return add(a, b), (saddo if sg else uaddo)(a, b)
        if opn == "Sub":
            return sub(a, b), (ssubo(a, b) if sg else ult(a, b))
        if opn == "Mul":
            return mul(a, b), (smulo if sg else umulo)(a, b)
        raise Imprecise("checked " + opn)

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "addr"):
            oid, off, ty, meta = self.place(st, fr, r[2])
            p = ptr(oid, off) if oid[0] != "deref" else add(oid[1], off if isinstance(off, T) else const(off, 8))
            if meta is not None and self.unsized_tail(ty):
                return Blob(16, ((0, p), (8, meta)))
            return p
        if k == "agg":
            return self.aggregate(st, fr, r)
        if k == "bin":
            return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[2], r[3])
        if k == "cbin":
            v, o = self.overflow(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[2])
            return ("pair", v, o)
        if k == "cast":
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "discr":
            oid, off, ty, meta = self.place(st, fr, r[1])
            return ("discr", oid, off, ty)
        if k == "len":
            oid, off, ty, meta = self.place(st, fr, r[1])
            return meta if meta is not None else const(self.types[ty]["len"], 8)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            cnt = r[2]
            n = v.n
            if cnt == 0 or n == 0:
                return UNIT
            if isinstance(v, T) and v.c is not None:
                return const(int.from_bytes(v.c.to_bytes(n, "little") * cnt, "little"), n * cnt)
            if isinstance(v, T) and v.op == "undef" or isinstance(v, Blob) and not v.p:
                return Blob(n * cnt, ())
            return mkval(n * cnt, [(i * n + q, x) for i in range(cnt) for q, x in pieces(v)])
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                t = as_term(v)
                return bnot(t) if self.types[self.op_ty(fr, r[2])]["k"] == "bool" else bitnot(t)
            if r[1] == "Neg":
                return neg(as_term(v))
            if r[1] == "PtrMetadata":
                if isinstance(v, T) and v.n == 8:
                    return UNIT
                return as_term(vslice(v, 8, 8))
        if k == "reborrow":
            return self.read_place(st, fr, r[-1])
        raise Imprecise("rvalue " + str(r[:2]))

    def cast(self, st, fr, kind, v, to, frm):
        n = self.size(to)
        tk, fk = self.types[to], self.types[frm]
        if kind == "IntToInt":
            t = as_term(v)
            if fk["k"] == "adt":       # enum as integer: handled through discriminant read by MIR
                return zx(t, n) if n >= t.n else ext(t, 0, n)
            if n <= t.n:
                return ext(t, 0, n)
            return sx(t, n) if fk["k"] == "int" else zx(t, n)
        if kind == "PointerCoercion(Unsize)":
            src, dst = self.coerce_pair(frm, to)
            if src is not None:
                if isinstance(v, Blob) and v.n == 16:
                    return v
                if self.types[dst]["k"] == "slice" and self.types[src]["k"] == "array":
                    return Blob(16, ((0, as_term(v)), (8, const(self.types[src]["len"], 8))))
                return Blob(16, ((0, as_term(v)), (8, sym(("vtable", src), 8))))
            return Blob(16, ((0, as_term(v)), (8, sym(("vtable", frm), 8))))
        if kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "FnPtrToPtr", "PointerExposeAddress",
                    "PointerWithExposedProvenance", "Subtype") or kind.startswith("PointerCoercion"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                fi = self.types[frm].get("fn")
                return mk("fn", (fi if fi is not None else ("ty", frm),), 8)
            if isinstance(v, Blob) and v.n == 16 and n == 8:
                return as_term(vslice(v, 0, 8))
            if kind == "Transmute" and isinstance(v, Blob) and self.types[to]["k"] in ("uint", "int", "bool", "char"):
                return as_term(v)
            return v
        return func("cast:" + kind, (as_term(v),), n)

    def coerce_pair(self, a, b):
        ta, tb = self.types[a], self.types[b]
        if ta["k"] in ("ref", "ptr") and tb["k"] in ("ref", "ptr"):
            return ta["e"], tb["e"]
        if ta["k"] == "adt" and tb["k"] == "adt" and ta.get("args") and tb.get("args"):
            return ta["args"][0], tb["args"][0]
        return None, None

    # ------------------------------------------------ joins
    def kill_dead(self, st, fr, bb, cfg):
        live, addr = cfg.live[bb], cfg.addr
        for l in range(len(fr.loc)):
            if l not in live and l not in addr:
                k = ("L", fr.depth, l)
                if k in st.mem:
                    del st.mem[k]
                    st.own.discard(k)

    @staticmethod
    def same_mem(a, b):
        if a.log != b.log or len(a.mem) != len(b.mem):
            return False
        for k, o in a.mem.items():
            p = b.mem.get(k)
            if p is None:
                return False
            if p is not o and (o.cells != p.cells or o.back != p.back or o.size is not p.size and o.size != p.size):
                return False
        return True

    def resym(self, a, b, extra=None):
        """Join b into a when every disagreeing cell is a pair of constants that some common term
        is known to equal on each side (match b { 0 => .., 1 => .. } after the match): exact."""
        if a.log != b.log or len(a.mem) != len(b.mem):
            return False
        todo = []
        for k, o in a.mem.items():
            p = b.mem.get(k)
            if p is None:
                return False
            if p is o:
                continue
            if o.back != p.back or o.size is not p.size:
                return False
            if o.cells != p.cells:
                if len(o.cells) != len(p.cells):
                    return False
                for f, x in o.cells.items():
                    y = p.cells.get(f)
                    if y is x:
                        continue
                    if y is None or y.n != x.n:
                        return False
                    t = self.common(a, b, x, y)
                    if t is None:
                        return False
                    todo.append((k, f, t))
                    if len(todo) > 12:
                        return False
        if extra is not None:
            ex = []
            pa, pb = extra
            if len(pa) != len(pb):
                return False
            for (o1, x), (o2, y) in zip(pa, pb):
                if o1 != o2 or x.n != y.n:
                    return False
                if x is not y:
                    x = self.common(a, b, x, y)
                    if x is None:
                        return False
                ex.append((o1, x))
        for k, f, t in todo:
            a.wobj(k).cells[f] = t
        self.join_facts(a, b)
        return ex if extra is not None else True

    @staticmethod
    def common(a, b, x, y):
        if x.c is None or y.c is None:
            if y.c is None and x.c is not None and b.facts and a.eqs.get(y) is x:
                return y
            if x.c is None and y.c is not None and b.eqs.get(x) is y:
                return x
            return None
        for t, v in a.eqs.items():
            if v.c == x.c and t.n <= x.n and t.op in ("b", "ext", "zx"):
                w = b.eqs.get(t)
                if w is not None and w.c == y.c:
                    return zx(t, x.n)
        return None

    def join_facts(self, a, b):
        fa, fb = a.facts, b.facts
        f = {t: v for t, v in fa.items() if fb.get(t) is v}
        da = [(t, v) for t, v in fa.items() if fb.get(t) is not v]
        db = [(t, v) for t, v in fb.items() if fa.get(t) is not v]
        # what one side decides by other means is kept
        for t, v in da:
            if b.decide(t) is v:
                f[t] = v
        for t, v in db:
            if a.decide(t) is v:
                f[t] = v
        da = [(t, v) for t, v in da if t not in f]
        db = [(t, v) for t, v in db if t not in f]
        if 0 < len(da) <= 6 and 0 < len(db) <= 6:
            ca = cb = TRUE
            for t, v in da:
                ca = band(ca, t if v else bnot(t))
            for t, v in db:
                cb = band(cb, t if v else bnot(t))
            # drop the disjunction x or not x
            lits_a = {t: v for t, v in da}
            if not any(lits_a.get(t) is (not v) for t, v in db) or len(da) > 1 or len(db) > 1:
                d = bor(ca, cb)
                if d.c is None:
                    f[d] = True
        a.facts = f
        a.eqs = {t: v for t, v in a.eqs.items() if b.eqs.get(t) is v}
        bn = {}
        for t, r in a.bnd.items():
            s = b.bnd.get(t)
            if s:
                bn[t] = (min(r[0], s[0]), max(r[1], s[1]))
        a.bnd = bn
        for k, v in b.ctr.items():
            if a.ctr.get(k, 0) < v:
                a.ctr[k] = v
        self.stats["joins"] += 1

    def join_list(self, states, tag, force=False):
        if len(states) < 2:
            return states
        out = []
        for s in states:
            for o in out:
                if o.trail != s.trail:
                    continue
                if self.same_mem(o, s):
                    self.join_facts(o, s)
                    break
                if self.resym(o, s):
                    break
            else:
                out.append(s)
        if force or len(out) > self.k_part:
            groups = {}
            for s in out:
                groups.setdefault((s.log, s.trail), []).append(s)
            if len(groups) > self.k_part and not force:
                raise Imprecise("too many effect histories at %s" % (tag,))
            out = []
            for g in groups.values():
                o = g[0]
                for s in g[1:]:
                    self.force_join(o, s, tag)
                out.append(o)
        return out

    def force_join(self, a, b, tag):
        for k in list(a.mem):
            o, p = a.mem[k], b.mem.get(k)
            if p is None:
                if k[0] == "L":
                    del a.mem[k]
                continue
            if p is o or (o.cells == p.cells and o.back == p.back):
                continue
            w = a.wobj(k)
            if o.back != p.back:
                w.back = ("phi", tag, rname(k))
                w.cells = {}
                continue
            offs = set(o.cells) | set(p.cells)
            for f in offs:
                x, y = o.cells.get(f), p.cells.get(f)
                if x is y:
                    continue
                if x is None or y is None or x.n != y.n:
                    n = max(x.n if x is not None else 0, y.n if y is not None else 0)
                    self.put(w, f, sym(("phi", tag, rname(k), f, a.fresh(("phi", tag))), n), n)
                else:
                    w.cells[f] = sym(("phi", tag, rname(k), f, a.fresh(("phi", tag))), x.n)
        for k in b.mem:
            if k not in a.mem and k[0] != "L":
                a.mem[k] = b.mem[k]
        self.join_facts(a, b)

    # ------------------------------------------------ execution
    def call(self, st, iid, args, depth, site):
        """analyse a call; returns [(state, value)]"""
        inst = self.p.insts[iid]
        m = self.models.find(inst)
        if m is not None:
            return m(self, st, inst, args, depth, site)
        body = inst.get("body")
        if body is None:
            return self.models.unknown(self, st, inst, args, depth, site)
        if depth > 120:
            raise Imprecise("recursion at " + inst["name"])
        self.stats["functions"].add(iid)
        argc = body["argc"]
        if len(args) != argc:
            if len(args) >= 1 and argc >= len(args) - 1:
                # rust-call: the last argument is a tuple
                last = args[-1]
                tys = body["locals"][len(args):argc + 1]
                tt = None
                offs = self.models.tuple_offs(self, site, [self.size(t) for t in tys])
                out, ao = [], 0
                lt_ = site.argtys[-1] if site is not None and site.argtys else None
                for i, ty in enumerate(tys):
                    o = self.foff(lt_, None, i) if lt_ is not None else offs[i]
                    out.append(vslice(last, o, self.size(ty)))
                args = list(args[:-1]) + out
            else:
                raise Imprecise("arity of " + inst["name"])
        fr = Frame()
        fr.iid, fr.depth, fr.body, fr.loc, fr.site = iid, depth, body, body["locals"], site
        for i, v in enumerate(args):
            n = self.types[fr.loc[i + 1]]["size"]
            if n:
                o = st.wobj(("L", depth, i + 1))
                o.cells = {po: t for po, t in pieces(v) if t.op != "undef"}
        cfg = self.p.cfg(iid)
        blocks = body["blocks"]
        pend = {0: [st]}
        heap = [(0, 0)]
        rets = []
        visits = {}
        rpo = cfg.rpo
        while heap:
            _, bb = heapq.heappop(heap)
            states = pend.pop(bb, None)
            if not states:
                continue
            if len(states) > 1 and cfg.merge[bb]:
                if self.refusals:
                    self.label(states, fr)
                for s in states:
                    self.kill_dead(s, fr, bb, cfg)
                states = self.join_list(states, (inst["path"], bb))
            v = visits[bb] = visits.get(bb, 0) + len(states)
            if v > K_VISIT:
                raise Imprecise("loop does not stabilise in " + inst["name"])
            self.stats["blocks"].add((iid, bb))
            todo = list(states)
            while todo:
                s = todo.pop()
                try:
                    outs = self.block(s, fr, bb, blocks[bb], rets)
                except Imprecise as e:
                    if not hasattr(e, "stack"):
                        e.stack = []
                    e.stack.append("%s bb%d line %s" % (inst["name"], bb, blocks[bb].get("l")))
                    raise
                except NeedSplit as e:
                    # a pointer whose target depends on a condition: separate partitions
                    s2 = e.state.fork()
                    if e.state.assume(e.cond, True):
                        todo.append(e.state)
                    if s2.assume(e.cond, False):
                        todo.append(s2)
                    continue
                for tb, s2 in outs:
                    if tb in pend:
                        pend[tb].append(s2)
                    else:
                        pend[tb] = [s2]
                        heapq.heappush(heap, (rpo[tb], tb))
        if self.refusals:
            self.label(rets, fr)
        # drop the frame
        res = []
        n0 = self.types[fr.loc[0]]["size"]
        for s in rets:
            rv = s.mem.get(("L", depth, 0))
            rv = mkval(n0, sorted(rv.cells.items())) if rv is not None and n0 else (Blob(n0, ()) if n0 else UNIT)
            for l in range(len(fr.loc)):
                k = ("L", depth, l)
                if k in s.mem:
                    del s.mem[k]
                    s.own.discard(k)
            res.append((s, rv))
        if len(res) > 1:
            res = self.join_rets(res, inst, fr)
        if self.trace and len(res) > 1:
            c = self.multi.setdefault(iid, {})
            c[len(res)] = c.get(len(res), 0) + 1
        return res

    def label(self, states, fr):
        """refusal analysis: every way an error first arises stays a partition of its own"""
        rt = self.types[fr.loc[0]]
        if rt["k"] != "adt" or not rt["adt"].endswith("result::Result"):
            return
        for s in states:
            if s.trail == () and ("L", fr.depth, 0) in s.mem:
                try:
                    d = self.discr(s, ("L", fr.depth, 0), 0, fr.loc[0], 8)
                except (Imprecise, NeedSplit):
                    continue
                if d.c == 1:
                    self.labels += 1
                    s.trail = (self.labels, fr.iid)

    def join_rets(self, res, inst, fr):
        out = []
        for s, v in res:
            for i, (o, w) in enumerate(out):
                if o.trail != s.trail:
                    continue
                r = self.resym(o, s, (pieces(w), pieces(v))) if v is not w else False
                if r is not False:
                    out[i] = (o, mkval(v.n, r))
                    break
                if (v is w or isinstance(v, Blob) and isinstance(w, Blob) and v.p == w.p) and self.same_mem(o, s):
                    self.join_facts(o, s)
                    break
            else:
                out.append((s, v))
        # one partition for every way to fail
        rt = self.types[fr.loc[0]]
        if len(out) > 1 and rt["k"] == "adt" and rt["adt"].endswith("result::Result") and not self.models.keep_errors:
            errs, rest = {}, []
            tmp = ("R",)
            for s, v in out:
                s.mem[tmp] = Obj({o: t for o, t in pieces(v)})
                s.own.add(tmp)
                d = self.discr(s, tmp, 0, fr.loc[0], 8)
                if d.c == 1:
                    errs.setdefault(s.log, []).append((s, v))
                else:
                    del s.mem[tmp]
                    s.own.discard(tmp)
                    rest.append((s, v))
            for g in errs.values():
                o = g[0][0]
                for s, _ in g[1:]:
                    self.force_join(o, s, ("ret", inst["path"]))
                vv = mkval(rt["size"], sorted(o.mem[tmp].cells.items()))
                # a forced join must not lose the discriminant
                dd = self.discr(o, tmp, 0, fr.loc[0], 8)
                del o.mem[tmp]
                o.own.discard(tmp)
                if dd.c != 1:
                    vv = self.enum_pieces(fr.loc[0], 1, [sym(("err", inst["path"]), self.field_size(fr.loc[0], 1, 0))])
                    mu = rt.get("multi")
                    if mu and mu["enc"] != "direct" and mu["enc"][0] == 1:
                        _, start, end, ns = mu["enc"]
                        ts = tag_size(mu["tag"])
                        tg = as_term(vslice(vv, mu["at"], ts))
                        for k in range(start, end + 1):
                            o.assume(eq(tg, const(int(ns) + k - start, ts)), False)
                rest.append((o, vv))
            out = rest
        if len(out) > self.k_part:
            raise Imprecise("too many exits of " + inst["name"])
        return out

    def field_size(self, ty, var, i):
        return self.size(self.types[ty]["v"][var]["f"][i][1])

    def block(self, st, fr, bb, blk, rets):
        ss = blk["s"]
        self.cur = (fr, blk)
        self.steps += len(ss) + 1
        if self.trace:
            f = fr
            while f is not None:
                self.prof[f.iid] = self.prof.get(f.iid, 0) + len(ss) + 1
                f = f.site.fr if f.site is not None else None
        if self.steps > K_STEPS:
            raise Imprecise("analysis budget exhausted")
        try:
            for s in ss:
                k = s[0]
                if k == "=":
                    r = s[2]
                    v = self.rvalue_split(st, fr, r)
                    if v.__class__ is tuple:
                        if v[0] == "pair":
                            ty = self.pty(fr, s[1]) if not isinstance(s[1], int) else fr.loc[s[1]]
                            o0, o1 = self.foff(ty, None, 0), self.foff(ty, None, 1)
                            v = Blob(self.size(ty), sorted([(o0, v[1]), (o1, v[2])], key=lambda x: x[0]))
                        else:
                            ty = self.pty(fr, s[1]) if not isinstance(s[1], int) else fr.loc[s[1]]
                            v = self.discr(st, v[1], v[2], v[3], self.size(ty))
                    self.write_place(st, fr, s[1], v)
                elif k == "dead":
                    key = ("L", fr.depth, s[1])
                    if key in st.mem:
                        del st.mem[key]
                        st.own.discard(key)
                elif k == "sd":
                    oid, off, ty, meta = self.place(st, fr, s[1])
                    self.set_discr(st, oid, off, ty, s[2])
                elif k == "cno":
                    src = as_term(self.operand(st, fr, s[1]))
                    dst = as_term(self.operand(st, fr, s[2]))
                    cnt = as_term(self.operand(st, fr, s[3]))
                    es = self.size(self.pointee(self.op_ty(fr, s[1])))
                    self.memcpy(st, dst, src, mul(cnt, const(es, 8)))
            return self.term(st, fr, bb, blk["t"], rets, blk.get("l"))
        except NeedSplit as e:
            if e.state is None:
                e.state = st
            raise

    def rvalue_split(self, st, fr, r):
        return self.rvalue(st, fr, r)

    def set_discr(self, st, oid, off, ty, var):
        t = self.types[ty]
        m = t.get("multi")
        if not m:
            return
        ts = tag_size(m["tag"])
        o = off + m["at"] if not isinstance(off, T) else add(off, const(m["at"], 8))
        if m["enc"] == "direct":
            self.write(st, oid, o, const(int(t["v"][var]["d"]), ts), ts)
        else:
            unt, start, end, ns = m["enc"]
            ns = int(ns)

            if var != unt:
                self.write(st, oid, o, const(ns + var - start, ts), ts)

    def memcpy(self, st, dst, src, n):
        n = st.val(n)
        if n.c is None:
            lo, hi = st.rng(n)
            if lo == hi:
                n = const(lo, n.n)
        if n.c is not None:
            if n.c == 0:
                return
            v = self.load_ptr(st, src, n.c)
            self.store_ptr(st, dst, v, n.c)
            return
        # symbolic length: destination object becomes unknown
        so, sf = self.deref(src)
        if so[0] in self.guarded:
            self.models.access(self, st, so, sf, n, False)
        oid, off = self.deref(dst)
        if oid[0] in self.guarded:
            self.models.access(self, st, oid, off, n, True)
        if oid[0] == "acct" and off.c is not None and off.c >= DATA_OFF:
            self.models.acct_bump(st, oid, ("data",), ("set", st.fresh("set")))
            return
        if oid[0] == "acct":
            st.log = st.log + (("wsym", oid[1], off, func("memcpy", (src, n), 8)),)
            self.models.acct_havoc(self, st, oid)
            return
        if oid[0] in ("L", "H"):
            o = st.wobj(oid)
            if off.c is not None:
                for c in [c for c in o.cells if c + o.cells[c].n > off.c]:
                    t = o.cells.pop(c)
                    if c < off.c:
                        o.cells[c] = ext(t, 0, off.c - c)
                if o.back is None:
                    so, sf = self.deref(src)
                    o.back = ("copy", rname(oid), rname(so), show(sf), show(n), off.c)
                else:
                    o.back = ("copy2", o.back, show(n), off.c)
            else:
                o.cells.clear()
                o.back = ("havoc", rname(oid), st.fresh(("havoc", oid)))
            return
        if oid[0] == "deref":
            st.log = st.log + (("unk", "copy to unknown pointer"),)

    def term(self, st, fr, bb, t, rets, line):
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "switch":
            v = as_term(self.operand(st, fr, t[1]))
            v = st.val(v)
            if v.c is not None:
                for val, tb in t[2]:
                    if int(val) & ((1 << (8 * v.n)) - 1) == v.c:
                        return [(tb, st)]
                return [(t[3], st)]
            if v.op == "undef":
                raise Imprecise("branch on uninitialised value in %s" % self.p.insts[fr.iid]["name"])
            out = []
            for val, tb in t[2]:
                c = eq(v, const(int(val), v.n))
                d = st.decide(c)
                if d is False:
                    continue
                s2 = st.fork()
                if s2.assume(c, True):
                    out.append((tb, s2))
                if d is True or not st.assume(c, False):
                    return out
            if self.p.insts[fr.iid]["body"]["blocks"][t[3]]["t"][0] != "unreachable":
                out.append((t[3], st))
            return out
        if k == "assert":
            c = as_term(self.operand(st, fr, t[1]))
            s2 = st
            if (self.refusals or self.watch) and st.decide(c) is not bool(t[2]):
                bad = st.fork()
                if bad.assume(c, not t[2]):
                    self.stops.append((bad, "a failing check in " + self.p.insts[fr.iid]["path"]))
            if not s2.assume(c, bool(t[2])):
                return []
            return [(t[3], s2)]
        if k == "drop":
            return self.drop(st, fr, t, line)
        if k == "call":
            return self.do_call(st, fr, bb, t, line)
        if k in ("unreachable", "resume", "abort"):
            return []
        raise Imprecise("terminator " + k)

    def drop(self, st, fr, t, line):
        if t[4] is None or not self.models.needs_drop(self, t[3]):
            return [(t[2], st)]
        oid, off, ty, meta = self.place(st, fr, t[1])
        p = ptr(oid, off) if oid[0] != "deref" else add(oid[1], off if isinstance(off, T) else const(off, 8))
        if meta is not None and self.unsized_tail(ty):
            return [(t[2], st)]
        site = Site(fr, line, None)
        inst = self.p.insts[t[4]]
        if inst.get("body") is None:
            return [(t[2], st)]
        return [(t[2], s) for s, _ in self.call(st, t[4], [p], fr.depth + 1, site)]

    def do_call(self, st, fr, bb, t, line):
        f = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        iid = None
        if f[0] == "k" and "fn" in f[1]:
            iid = f[1]["fn"]
        else:
            fv = None
            if f[0] != "k" or "a" in f[1]:
                ft_ = self.types[self.op_ty(fr, f)]
                if ft_["k"] == "fndef":
                    iid = ft_.get("fn")
                else:
                    fv = self.operand(st, fr, f)
            if fv is not None:
                ft = as_term(fv)
                if ft.op == "fn" and isinstance(ft.a[0], int):
                    iid = ft.a[0]
        site = Site(fr, line, t[5] if len(t) > 5 else None)
        site.bb = bb
        site.ret = self.pty(fr, t[3]) if not isinstance(t[3], int) else fr.loc[t[3]]
        if iid is None:
            name = f[1].get("fnun") if f[0] == "k" else "indirect"
            res = self.models.unknown(self, st, {"name": name or "?", "path": name or "?", "crate": "?"}, args, fr.depth + 1, site)
        else:
            res = self.call(st, iid, args, fr.depth + 1, site)
        self.stats["calls"].add((fr.iid, bb))
        if t[4] is None:
            if self.refusals or self.watch:
                self.stops += [(s, "%s in %s" % (self.p.insts[iid]["path"] if iid is not None else "?", self.p.insts[fr.iid]["path"])) for s, _ in res or [(st, None)]]
            if line and self.p.insts[fr.iid]["crate"] == self.p.d["crate"]:
                self.panics[(fr.body["span"][0], line)] = self.p.insts[iid]["path"] if iid is not None else "?"
            return []
        out = []
        for s, v in res:
            self.write_place(s, fr, t[3], v)
            out.append((t[4], s))
        return out


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond
        self.state = None


class Site:
    __slots__ = ("fr", "line", "argtys", "bb", "ret")

    def __init__(self, fr, line, argtys):
        self.fr, self.line, self.argtys, self.bb, self.ret = fr, line, argtys, None, None

    def key(self):
        out = []
        f = self
        while f is not None and f.fr is not None:
            out.append((f.fr.iid, f.bb))
            f = f.fr.site
        return tuple(out)


_TAG = {}


def tag_size(s):
    r = _TAG.get(s)
    if r is None:
        import re
        m = re.search(r"length: I(\d+)", s) or re.search(r"Int\s*[({].*?I(\d+)", s)
        if m:
            r = int(m.group(1)) // 8
        elif "Pointer" in s:
            r = 8
        else:
            raise Imprecise("tag " + s)
        _TAG[s] = r
    return r
