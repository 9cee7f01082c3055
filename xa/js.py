"""Abstract interpreter for the TypeScript client (types erased by jsx/ast.cjs).

Values: numbers and bigints are concrete or polynomials over unknowns with ranges (S); strings such
as addresses may be opaque (Opq); byte arrays are lists of cells, each a known byte or one byte of
an unknown.  A test that the ranges and recorded facts do not settle splits the analysis: every
outcome is analysed, each from a fresh load of the modules."""
import json, os, re, subprocess, math, threading
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("XORCA_REPO", "/repo")
INF = float("inf")
EPS = Fraction(1, 2 ** 1074)


class Unsupported(Exception):
    pass


class Regex:
    """a regular expression, used on concrete strings"""
    def __init__(self, m, src, flags):
        if set(flags) - set("gimsuy") or "y" in flags:
            raise Unsupported("regular expression flags " + flags)
        if re.search(r"\\[pPkcu]|\(\?<[a-zA-Z]|\[\^?\]|\[[^\]]*\[", src):
            raise Unsupported("regular expression " + src)
        f = (re.I if "i" in flags else 0) | (re.M if "m" in flags else 0) | (re.S if "s" in flags else 0) | re.A
        try:
            self.re = re.compile(re.sub(r"(?<!\\)\$", r"(?!\\n)\\Z" if "m" not in flags else "$", src), f)
        except re.error:
            raise Unsupported("regular expression " + src)
        self.src, self.flags, self.all = src, flags, "g" in flags

    def on(self, s):
        if not isinstance(s, str):
            raise Unsupported("regular expression on %s" % s)
        return self.re

    def result(self, x):
        return NULL if x is None else Arr([x.group(0)] + [UNDEF if g is None else g for g in x.groups()])

    def replace(self, m, s, by, every):
        def one(x):
            if isinstance(by, str):
                if "$" in by:
                    raise Unsupported("replacement pattern")
                return by
            return m.tostr(m.call(by, [x.group(0)] + [UNDEF if g is None else g for g in x.groups()] + [x.start(), s]))
        return self.on(s).sub(one, s, count=0 if every or self.all else 1)

    def __repr__(self):
        return "/%s/%s" % (self.src, self.flags)


class Exit(BaseException):
    """the script ends"""
    def __init__(self, code):
        self.code = code


class JSThrow(Exception):
    def __init__(self, v):
        self.v = v


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    def __init__(self, lb):
        self.lb = lb


class Cont(Exception):
    def __init__(self, lb):
        self.lb = lb


class _U:
    def __repr__(self):
        return "undefined"

    def __bool__(self):
        raise TypeError("host truth value of undefined")


UNDEF = _U()
NULL = None


class Big(int):
    """a concrete bigint"""
    def __repr__(self):
        return int.__repr__(self) + "n"


class S:
    """number or bigint: polynomial over unknowns"""
    __slots__ = ("big", "p")

    def __init__(self, big, p):
        self.big, self.p = big, p

    def __repr__(self):
        return "S(%s,%s)" % ("big" if self.big else "num", self.p)


def addrsame(x, y):
    """are two addresses the same?  None: not known.  Named addresses are distinct from each other
    and from derived ones; the derivation is collision-free."""
    if x == y:
        return True
    if isinstance(x, str) or isinstance(y, str):
        return False if isinstance(x, str) and isinstance(y, str) else None
    if {x[0], y[0]} <= {"addr", "pda"}:
        if "addr" in (x[0], y[0]):
            return False
        if addrsame(x[1], y[1]) is False or len(x[2]) != len(y[2]):
            return False
        i = 0
        while i < len(x[2]):
            c, d = x[2][i], y[2][i]
            if isinstance(c, int) and isinstance(d, int) and c != d:
                return False
            if isinstance(c, tuple) and isinstance(d, tuple) and c[0] == d[0] == "ab" and c[2] == d[2] == 0 and len(x[2]) >= i + 32:
                whole = all(x[2][i + k] == ("ab", c[1], k) and y[2][i + k] == ("ab", d[1], k) for k in range(32))
                if whole and addrsame(c[1], d[1]) is False:
                    return False
            i += 1
    return None


B58 = set("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")


def strsame(x, y):
    """are two strings the same?  terms of opaque strings or host strings; None: not known"""
    a = list(x[1:]) if not isinstance(x, str) and x[0] == "cat" else [x]
    b = list(y[1:]) if not isinstance(y, str) and y[0] == "cat" else [y]

    def trim(a, b, last):
        while a and b:
            i = -1 if last else 0
            p, q = a[i], b[i]
            if p == q:
                a.pop(i)
                b.pop(i)
                continue
            if isinstance(p, str) and isinstance(q, str):
                n = 0
                while n < min(len(p), len(q)) and (p[-1 - n] == q[-1 - n] if last else p[n] == q[n]):
                    n += 1
                p, q = (p[:len(p) - n], q[:len(q) - n]) if last else (p[n:], q[n:])
                if p and q:
                    return False
                for l, v in ((a, p), (b, q)):
                    l.pop(i)
                    if v:
                        l.insert(len(l) if last else 0, v)
                continue
            if isinstance(p, str) or isinstance(q, str) or not {p[0], q[0]} <= {"addr", "pda"}:
                return None
            # two addresses, each ended by the end of the string or a character outside their alphabet
            k = -2 if last else 1
            for l in (a, b):
                if len(l) > 1 and not (isinstance(l[k], str) and l[k][-1 if last else 0] not in B58):
                    return None
            r = addrsame(p, q)
            if r is not True:
                return r
            a.pop(i)
            b.pop(i)
        return True if not a and not b else False if (a or b) and any(isinstance(z, str) or z[0] in ("addr", "pda") for z in (a or b)) else None
    r = trim(a, b, False)
    return trim(a, b, True) if r is None else r


class Opq:
    """opaque string ('str'), boolean ('bool') or anything ('any')"""
    __slots__ = ("k", "t")

    def __init__(self, k, t):
        self.k, self.t = k, t

    def __repr__(self):
        return "<%s %s>" % (self.k, show(self.t))


def show(t, n=90):
    s = str(t)
    return s if len(s) <= n else s[:n] + "..."


class Obj:
    def __init__(self, props=None, cls=None, proto=None):
        self.p = dict(props or {})
        self.cls, self.proto, self.frozen = cls, proto, False

    def __repr__(self):
        return "{%s}" % ", ".join("%s: %s" % (k, show(v, 40)) for k, v in list(self.p.items())[:8])


class HObj(Obj):
    """an object of a library: methods given by the model, which no caller enumerates"""
    def __init__(self, cls, props=None, **methods):
        Obj.__init__(self, props, cls)
        self.hm = methods


class Arr:
    def __init__(self, items):
        self.a = list(items)
        self.frozen = False

    def __repr__(self):
        return "[%s]" % ", ".join(show(x, 40) for x in self.a[:8])


class Iter:
    """an iterator: g is a Python iterator of the values it still gives"""
    def __init__(self, g, close=None, aio=False):
        self.g, self.close, self.aio, self.done, self.result = g, close, aio, False, UNDEF

    def step(self):
        """(value,) or None at the end"""
        if self.done:
            return None
        try:
            return (next(self.g),)
        except StopIteration as x:
            self.done = True
            self.result = x.value if x.value is not None else UNDEF
            return None
        except BaseException:
            self.done = True
            raise

    def __repr__(self):
        return "iterator"


class Bytes:
    """Uint8Array: n cells of the buffer B, from o"""
    def __init__(self, c):
        self.B, self.o = list(c), 0
        self.n = len(self.B)

    def view(self, o, n, cls=None):
        r = (cls or type(self))(())
        r.B, r.o, r.n = self.B, self.o + o, n
        return r

    @property
    def c(self):
        return self.B[self.o:self.o + self.n]

    def at(self, i):
        return self.B[self.o + i]

    def write(self, i, cells):
        assert 0 <= i and i + len(cells) <= self.n
        self.B[self.o + i:self.o + i + len(cells)] = cells

    def __repr__(self):
        return "bytes(%d)" % self.n


class Buf(Bytes):
    """Node Buffer"""


class ABuf(Bytes):
    """ArrayBuffer"""


class MapV:
    def __init__(self, is_set=False):
        self.k, self.v, self.is_set = [], [], is_set


class Getter:
    def __init__(self, f=None, s=None):
        self.f, self.s = f, s


class Fn:
    def __init__(self, node, env, m, this=None, cls=None, static=False):
        self.static = static
        self.node, self.env, self.this, self.cls = node, env, this, cls
        self.p = {}

    def __repr__(self):
        return "function %s" % self.node.get("name")


class Host:
    def __init__(self, name, f):
        self.name, self.f = name, f
        self.p = {}

    def __repr__(self):
        return "function %s" % self.name


class Class:
    def __init__(self, name, node, env, base):
        self.name, self.node, self.env, self.base = name, node, env, base
        self.p = {}

    def __repr__(self):
        return "class %s" % self.name


class Promise:
    def __init__(self, ok, v):
        self.ok, self.v, self.seen = ok, v, False

    def __repr__(self):
        return "Promise(%s %s)" % ("ok" if self.ok else "rejected", self.v)


class Codec:
    """encoder and/or decoder of the codecs library"""
    def __init__(self, enc=None, dec=None, size=None, what=""):
        self.enc, self.dec, self.size, self.what = enc, dec, size, what

    def __repr__(self):
        return "codec(%s)" % self.what


class Env:
    __slots__ = ("v", "up", "fn")

    def __init__(self, up=None, fn=None):
        self.v, self.up, self.fn = {}, up, fn


class Cell:
    __slots__ = ("x", "c", "tdz")

    def __init__(self, x, c=False, tdz=False):
        self.x, self.c, self.tdz = x, c, tdz


class Link:
    """live import binding"""
    __slots__ = ("m", "n")

    def __init__(self, m, n):
        self.m, self.n = m, n


class Module:
    def __init__(self, path, env):
        self.path, self.env = path, env
        self.exp, self.stars = {}, []
        self.done = False


_AST = {}


def asts(root):
    """the parsed sources under root"""
    if root not in _AST:
        files = []
        for d, _, fs in os.walk(root):
            if "node_modules" in d:
                continue
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".ts") and not f.endswith((".test.ts", ".d.ts"))]
        r = subprocess.run(["node", HERE + "/jsx/ast.cjs"] + sorted(files), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise Unsupported("the sources cannot be parsed: " + r.stderr.decode()[-800:])
        _AST[root] = json.loads(r.stdout)
    return _AST[root]


# ------------------------------------------------------------------ polynomials
class Ctx:
    """unknowns, their ranges, and what has been decided on this path"""
    def __init__(self, decisions=None):
        self.ids, self.atoms, self.rng, self.kind = {}, [], [], []
        self.dec = list(decisions or [])
        self.at = 0
        self.facts = {}
        self.log = []

    def atom(self, t, lo=-INF, hi=INF, kind="int"):
        i = self.ids.get(t)
        if i is None:
            i = self.ids[t] = len(self.atoms)
            self.atoms.append(t)
            self.rng.append((lo, hi))
            self.kind.append(kind)
        return i

    def var(self, t, lo, hi, big=True, kind="int"):
        return S(big, (((self.atom(t, lo, hi, kind),), 1),))

    def interval(self, p):
        lo = hi = 0
        for mono, c in p:
            a, b = 1, 1
            for i in mono:
                x, y = self.rng[i]
                v = [mul(a, x), mul(a, y), mul(b, x), mul(b, y)]
                a, b = min(v), max(v)
            v = (mul(c, a), mul(c, b))
            lo, hi = lo + min(v), hi + max(v)
        return lo, hi

    def split(self, key, what):
        """decide an open question; every answer is explored"""
        if key in self.facts:
            return self.facts[key]
        if self.at < len(self.dec):
            r = self.dec[self.at]
        else:
            r = True
            self.dec.append(True)
        self.at += 1
        self.facts[key] = r
        self.log.append((what, r))
        return r

    def sign(self, p, op, what=""):
        """p op 0, op in < == """
        if not p:
            return op == "=="
        lo, hi = self.interval(p)
        if op == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            if len(p) == 1 and not p[0][0]:
                return p[0][1] == 0
            if self.integral_frac(p):
                return False
            if len(p) == 1 and len(p[0][0]) == 1 and p[0][1] != 1:
                p = ((p[0][0], 1),)
        neg = tuple((m, -c) for m, c in p)
        if op == "==" and (neg, op) in self.facts:
            return self.facts[(neg, op)]
        # -p < 0 known true  =>  p > 0
        if op == "<" and self.facts.get((neg, "<")) is True:
            return False
        r = self.split((p, op), what or "%s %s 0" % (self.pshow(p), op))
        self.learn(p, op, r)
        return r

    def least(self, p):
        """a lower bound known on this path"""
        lo = self.interval(p)[0]
        base = tuple(x for x in p if x[0])
        c0 = sum(c for m, c in p if not m)
        neg = tuple((m, -c) for m, c in base)
        for k, v in self.facts.items():
            if isinstance(k, tuple) and len(k) == 2 and k[1] == "<" and isinstance(k[0], tuple):
                q = tuple(x for x in k[0] if x[0])
                c = sum(c for m, c in k[0] if not m)
                if q == base and v is False:            # base + c >= 0
                    lo = max(lo, c0 - c)
                elif q == neg and v is True:            # -base + c < 0
                    lo = max(lo, c0 + c)
        return lo

    def integral_frac(self, p):
        """p is (atom that is no integer) + integer"""
        fr = [m for m, c in p if m and self.kind[m[0]] == "frac"]
        return len(fr) == 1 and len(fr[0]) == 1 and all(c in (1, -1) if m == fr[0] else Fraction(c).denominator == 1 and all(self.kind[i] == "int" for i in m) for m, c in p)

    def learn(self, p, op, r):
        """refine the range of a lone unknown"""
        k = [(m, c) for m, c in p if m]
        c0 = sum(c for m, c in p if not m)
        if len(k) != 1 or len(k[0][0]) != 1 or k[0][1] not in (1, -1):
            return
        i, c = k[0][0][0], k[0][1]
        lo, hi = self.rng[i]
        step = 1 if self.kind[i] == "int" else EPS
        b = -c0 * c          # c*x + c0 = 0 at x = b
        if op == "==":
            if r:
                lo = hi = b
            else:
                if lo == b:
                    lo = b + step
                if hi == b:
                    hi = b - step
        else:
            below = (c == 1) == r       # x < b, or x <= b when the sense is flipped
            if c == 1:
                if r:
                    hi = min(hi, b - step)
                else:
                    lo = max(lo, b)
            else:
                if r:
                    lo = max(lo, b + step)
                else:
                    hi = min(hi, b)
        self.rng[i] = (lo, hi)

    def pshow(self, p):
        out = []
        for m, c in p:
            out.append(" * ".join(([str(c)] if c != 1 or not m else []) + [self.ashow(i) for i in m]))
        return " + ".join(out) or "0"

    def ashow(self, i):
        t = self.atoms[i]
        if t[0] == "in":
            return str(t[1])
        if t[0] == "div":
            return "floor((%s) / (%s))" % (self.pshow(t[1]), self.pshow(t[2]))
        if t[0] == "mod":
            return "(%s) %% %s" % (self.pshow(t[1]), self.pshow(t[2]))
        if t[0] == "uint":
            c = t[1]
            return "%s[%s..+%d]" % (c[0][1] if isinstance(c[0], tuple) else "bytes", c[0][2] if isinstance(c[0], tuple) and len(c[0]) > 2 else "?", len(c))
        return show(t, 60)


def mul(a, b):
    return 0 if a == 0 or b == 0 else a * b


def padd(p, q, k=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + k * c
    return tuple(sorted((m, c) for m, c in d.items() if c))


def pmul(p, q):
    d = {}
    for m, c in p:
        for n, e in q:
            k = tuple(sorted(m + n))
            d[k] = d.get(k, 0) + c * e
    return tuple(sorted((m, c) for m, c in d.items() if c))


def pdivexact(p, q):
    """p / q where q divides p (over the integers), else None"""
    from collections import Counter

    def key(m):
        return (len(m), tuple(m))
    lm, lc = max(q, key=lambda x: key(x[0]))
    r, n = (), 0
    while p:
        n += 1
        if n > 200:
            return None
        m, c = max(p, key=lambda x: key(x[0]))
        d = Counter(m)
        d.subtract(Counter(lm))
        if any(v < 0 for v in d.values()) or c % lc:
            return None
        t = ((tuple(sorted(d.elements())), c // lc),)
        r = padd(r, t)
        p = padd(p, pmul(t, q), -1)
    return r


def pconst(c):
    return (((), c),) if c else ()


def isbig(v):
    return isinstance(v, Big) or (isinstance(v, S) and v.big)


def isnum(v):
    return (isinstance(v, (int, float, Fraction)) and not isinstance(v, (bool, Big))) or (isinstance(v, S) and not v.big)


def poly(v):
    return v.p if isinstance(v, S) else pconst(int(v) if isinstance(v, (Big, int)) else v)


B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58dec(s):
    n = 0
    for ch in s:
        if ch not in B58:
            return None
        n = n * 58 + B58.index(ch)
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes(len(s) - len(s.lstrip("1"))) + b


def b58enc(b):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


class Machine:
    def __init__(self, root, ctx, models, env="test"):
        self.root, self.ctx, self.models = root, ctx, models
        self.trees = asts(root)
        self.mods = {}
        self.functions, self.nodes, self.steps = set(), 0, 0
        self.globals = Env()
        self.logs, self.okeys = [], {}
        self.file = None
        models.setup(self, env)
        self.depth, self.hasvar = 0, {}
        self.coroutines, self.current = [], None
        self.rejected = []

    # ---------------------------------------------------------- modules
    def resolve(self, frm, spec):
        base = os.path.normpath(os.path.join(os.path.dirname(frm), spec))
        for c in (base, base + ".ts", os.path.join(base, "index.ts"), base[:-3] + ".ts" if base.endswith(".js") else base):
            if c in self.trees:
                return c
        raise Unsupported("cannot resolve module %s from %s" % (spec, frm))

    def load(self, path):
        if path in self.mods:
            return self.mods[path]
        mod = self.mods[path] = Module(path, Env(self.globals))
        tree = self.trees[path]
        for st in tree["b"]:
            t = st["t"]
            if t == "import":
                src = self.source(path, st["from"])
                for a, b in st["names"]:
                    mod.env.v[b] = Link(src, a)
            elif t == "exportall":
                mod.stars.append(self.source(path, st["from"]))
            elif t == "exportns":
                mod.exp[st["as"]] = Link(self.source(path, st["from"]), "*")
            elif t == "export":
                src = self.source(path, st["from"]) if st["from"] else None
                for a, b in st["names"]:
                    mod.exp[b] = Link(src, a) if src else ("local", a)
        self.hoist(tree["b"], mod.env)
        self.varhoist(tree["b"], mod.env)
        for st in tree["b"]:
            if st.get("exp"):
                for n in names(st):
                    mod.exp[n] = ("local", n)
        old, self.file = self.file, path
        for st in tree["b"]:
            if st["t"] == "exportdef":
                mod.env.v["default"] = Cell(self.ev(st["v"], mod.env))
                mod.exp["default"] = ("local", "default")
            elif st["t"] not in ("import", "export", "exportall", "exportns"):
                self.stmt(st, mod.env)
        self.file = old
        mod.done = True
        return mod

    def source(self, frm, spec):
        if spec.startswith("."):
            return self.load(self.resolve(frm, spec))
        return spec

    def export(self, mod, name, seen=None):
        """value of an export, None-able: returns Cell-like or raises KeyError"""
        if isinstance(mod, str):
            return self.models.external(self, mod, name)
        if name == "*":
            return Obj({n: self.export(mod, n) for n in self.exports(mod)})
        e = mod.exp.get(name)
        if e is not None:
            if isinstance(e, Link):
                return self.export(e.m, e.n)
            return self.read(mod.env, e[1])
        seen = seen or set()
        if mod.path in seen:
            raise KeyError(name)
        seen.add(mod.path)
        for s in mod.stars:
            if isinstance(s, str):
                continue
            try:
                return self.export(s, name, seen)
            except KeyError:
                pass
        raise KeyError(name)

    def exports(self, mod, seen=None):
        seen = seen if seen is not None else set()
        if mod.path in seen:
            return set()
        seen.add(mod.path)
        out = set(mod.exp)
        for s in mod.stars:
            if not isinstance(s, str):
                out |= self.exports(s, seen) - {"default"}
        return out

    # ---------------------------------------------------------- environments
    def hoist(self, body, env):
        for st in body:
            if st["t"] == "fn" and st.get("decl"):
                env.v[st["name"]] = Cell(Fn(st, env, self))
            elif st["t"] == "var" and st["fs"]:
                pass
            elif st["t"] in ("var", "class", "enum"):
                for n in names(st):
                    if n not in env.v or st["t"] != "var":
                        env.v[n] = Cell(UNDEF, False, True)

    def varhoist(self, body, env):
        """function-scoped variables declared anywhere in the body"""
        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
            elif isinstance(x, dict):
                if x.get("t") in ("fn", "class"):
                    return
                if x.get("fs"):
                    for n in names(x if x["t"] == "var" else {"t": "var", "d": [{"p": x["v"]}]}):
                        if n not in env.v:
                            up = env.up.v.get(n) if env.up else None
                            env.v[n] = Cell(up.x if up is not None and not up.tdz else UNDEF)
                for y in x.values():
                    go(y)
        key = id(body)
        if key not in self.hasvar:
            import json as j
            self.hasvar[key] = '"fs": true' in j.dumps(body)
        if self.hasvar[key]:
            go(body)

    def find(self, env, n):
        e = env
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.up
        return None

    def read(self, env, n):
        c = self.find(env, n)
        if c is None:
            if n == "undefined":
                return UNDEF
            self.throw("ReferenceError", n + " is not defined")
        if isinstance(c, Link):
            try:
                return self.export(c.m, c.n)
            except KeyError:
                raise Unsupported("no export %s in %s" % (c.n, c.m if isinstance(c.m, str) else c.m.path))
        if c.tdz:
            self.throw("ReferenceError", "Cannot access '%s' before initialization" % n)
        return c.x

    def throw(self, cls, msg):
        raise JSThrow(Obj({"message": msg, "name": cls}, cls))

    # ---------------------------------------------------------- patterns
    def bind(self, p, v, env, decl):
        """decl: 'let'/'const' to declare, None to assign"""
        t = p["t"]
        if t == "id":
            n = p["n"]
            if decl:
                env.v[n] = Cell(v, decl == "const")
            else:
                c = self.find(env, n)
                if c is None or isinstance(c, Link):
                    self.throw("ReferenceError", n)
                if c.tdz:
                    self.throw("ReferenceError", n)
                if c.c:
                    self.throw("TypeError", "Assignment to constant variable.")
                c.x = v
        elif t == "apat":
            it = self.iterator(v)
            items = []
            while any(e is not None and e.get("rest") for e in p["e"]) or len(items) < len(p["e"]):
                x = it.step()
                if x is None:
                    break
                items.append(x[0])
                if len(items) > 20000:
                    raise Unsupported("loop bound")
            if not it.done and it.close:
                it.done = True
                it.close()
            for i, e in enumerate(p["e"]):
                if e is None:
                    continue
                if e.get("rest"):
                    self.bind(e["p"], Arr(items[i:]), env, decl)
                    continue
                x = items[i] if i < len(items) else UNDEF
                if x is UNDEF and e["d"] is not None:
                    x = self.ev(e["d"], env)
                self.bind(e["p"], x, env, decl)
        elif t == "opat":
            if v is UNDEF or v is NULL:
                self.throw("TypeError", "Cannot destructure")
            used = []
            for e in p["e"]:
                if e.get("rest"):
                    self.bind(e["p"], Obj({k: self.get(v, k) for k in self.keys(v) if k not in used}), env, decl)
                    continue
                k = e["k"] if isinstance(e["k"], str) else self.pkey(self.ev(e["k"], env))
                used.append(k)
                x = self.get(v, k)
                if x is UNDEF and e["d"] is not None:
                    x = self.ev(e["d"], env)
                self.bind(e["p"], x, env, decl)
        elif t == "mem":
            self.put(self.ev(p["o"], env), p["k"], v)
        elif t == "idx":
            o = self.ev(p["o"], env)
            self.put(o, self.pkey(self.ev(p["k"], env)), v)
        else:
            raise Unsupported("assignment target " + t)

    # ---------------------------------------------------------- statements
    def block(self, body, env):
        self.hoist(body, env)
        for st in body:
            self.stmt(st, env)

    def stmt(self, s, env):
        t = s["t"]
        if t == "es":
            self.ev(s["e"], env)
        elif t == "var":
            for d in s["d"]:
                if d["i"] is None:
                    v = UNDEF
                else:
                    v = self.ev(d["i"], env)
                    if isinstance(v, Fn) and v.node.get("name") is None and d["p"]["t"] == "id":
                        v.p.setdefault("name", d["p"]["n"])
                if s["fs"]:
                    if d["i"] is not None:
                        self.bind(d["p"], v, env, None)
                    continue
                self.bind(d["p"], v, env, "const" if s["c"] else "let")
        elif t == "return":
            raise Ret(UNDEF if s["e"] is None else self.ev(s["e"], env))
        elif t == "if":
            if self.truth(self.ev(s["c"], env)):
                self.stmt(s["a"], env)
            elif s["b"] is not None:
                self.stmt(s["b"], env)
        elif t == "block":
            self.block(s["b"], Env(env))
        elif t == "fn":
            pass
        elif t == "throw":
            raise JSThrow(self.ev(s["e"], env))
        elif t in ("for", "forof", "forin", "while", "do"):
            self.loop(s, env, None)
        elif t == "label":
            if s["b"]["t"] in ("for", "forof", "forin", "while", "do"):
                self.loop(s["b"], env, s["n"])
            else:
                try:
                    self.stmt(s["b"], env)
                except Brk as b:
                    if b.lb != s["n"]:
                        raise
        elif t == "break":
            raise Brk(s["lb"])
        elif t == "continue":
            raise Cont(s["lb"])
        elif t == "try":
            self.try_(s, env)
        elif t == "switch":
            v = self.ev(s["e"], env)
            e = Env(env)
            for _, b in s["c"]:
                self.hoist(b, e)
            at = None
            for i, (c, b) in enumerate(s["c"]):
                if c is not None and self.seq(v, self.ev(c, e)):
                    at = i
                    break
            if at is None:
                d = [i for i, (c, b) in enumerate(s["c"]) if c is None]
                at = d[0] if d else None
            if at is not None:
                try:
                    for c, b in s["c"][at:]:
                        for x in b:
                            self.stmt(x, e)
                except Brk as b:
                    if b.lb is not None:
                        raise
        elif t == "enum":
            o = Obj()
            e = Env(env)
            prev = -1
            for k, i in s["m"]:
                if i is None:
                    v = prev + 1
                else:
                    v = self.ev(i, e)
                o.p[k] = v
                if isnum(v):
                    o.p[self.pkey(v)] = k
                    prev = v
                e.v[k] = Cell(v)
            env.v[s["n"]] = Cell(o, True)
        elif t == "class":
            env.v[s["n"]] = Cell(self.mkclass(s, env), False)
        else:
            raise Unsupported("statement " + t)

    def try_(self, s, env):
        try:
            try:
                self.block(s["b"]["b"], Env(env))
            except JSThrow as x:
                if s["c"] is None:
                    raise
                e = Env(env)
                if s["p"] is not None:
                    self.bind(s["p"], x.v, e, "let")
                self.block(s["c"]["b"], Env(e))
        finally:
            import sys
            if s["f"] is not None and not isinstance(sys.exc_info()[1], (Unsupported, Exit)):
                self.block(s["f"]["b"], Env(env))

    def loop(self, s, env, lb):
        t = s["t"]

        def body(e):
            """-> False to stop"""
            try:
                self.stmt(s["b"], e)
            except Brk as b:
                if b.lb not in (None, lb):
                    raise
                return False
            except Cont as c:
                if c.lb not in (None, lb):
                    raise
            return True
        n = 0
        if t == "for":
            e = Env(env)
            let = False
            if s["i"] is not None:
                if s["i"]["t"] == "var":
                    self.hoist([s["i"]], e)
                    self.stmt(s["i"], e)
                    let = not s["i"]["fs"]
                else:
                    self.ev(s["i"], e)
            while s["c"] is None or self.truth(self.ev(s["c"], e)):
                n += 1
                if n > 20000:
                    raise Unsupported("loop bound")
                if not body(e):
                    break
                if let:
                    e2 = Env(env)
                    e2.v = {k: Cell(c.x, c.c, c.tdz) for k, c in e.v.items()}
                    e = e2
                if s["u"] is not None:
                    self.ev(s["u"], e)
        elif t == "while":
            while self.truth(self.ev(s["c"], env)):
                n += 1
                if n > 20000:
                    raise Unsupported("loop bound")
                if not body(env):
                    break
        elif t == "do":
            while True:
                n += 1
                if n > 20000:
                    raise Unsupported("loop bound")
                if not body(env) or not self.truth(self.ev(s["c"], env)):
                    break
        else:
            v = self.ev(s["e"], env)
            it = self.iterator(v, bool(s.get("aw"))) if t == "forof" else Iter(iter([self.keyval(k) for k in self.keys(v)]))
            if t == "forof" and it.aio and not s.get("aw"):
                self.throw("TypeError", "object is not iterable")
            ended = False
            try:
                while True:
                    n += 1
                    if n > 20000:
                        raise Unsupported("loop bound")
                    x = it.step()
                    if x is None:
                        ended = True
                        break
                    x = self.await_(x[0]) if s.get("aw") else x[0]
                    e = Env(env)
                    self.bind(s["v"], x, e if s["decl"] else env, "let" if s["decl"] else None)
                    if not body(e):
                        break
            finally:
                if not ended and it.close and not it.done:
                    it.done = True
                    it.close()

    # ---------------------------------------------------------- classes and calls
    def mkclass(self, s, env):
        base = self.ev(s["ext"], env) if s["ext"] is not None else None
        c = Class(s["n"], s, env, base)
        c.m = []
        for kind, f, static in s["m"]:
            k = None if kind in ("ctor", "block") else f["k"] if kind == "field" else f["name"]
            if isinstance(k, dict):
                k = self.pkey(self.ev(k, env))
            if not static:
                c.m.append((kind, k, f))
                continue
            e = Env(env)
            e.v["this"], e.v["%home"] = Cell(c), Cell((c, True))
            if kind == "method":
                c.p[k] = Fn(f, env, self, cls=c, static=True)
            elif kind == "get":
                c.p[k] = Getter(Fn(f, env, self, cls=c, static=True))
            elif kind == "set":
                raise Unsupported("static setter")
            elif kind == "block":
                if c.name:
                    e.v[c.name] = Cell(c)
                self.block(f["b"], e)
            elif kind == "field":
                if c.name:
                    e.v[c.name] = Cell(c)
                c.p[k] = self.ev(f["v"], e) if f["v"] is not None else UNDEF
        return c

    def construct(self, f, args):
        if isinstance(f, Host):
            new = getattr(f, "new", None)
            if new is None:
                raise Unsupported("new " + f.name)
            return new(args)
        if isinstance(f, Class):
            o = Obj(cls=f.name)
            o.proto = f
            self.init(f, o, args)
            return o
        self.throw("TypeError", "not a constructor")

    def init(self, c, o, args):
        ctor = [f for kind, k, f in c.m if kind == "ctor"]
        done = []

        def fields():
            for kind, k, f in c.m:
                if kind == "field":
                    e = Env(c.env)
                    e.v["this"], e.v["%home"] = Cell(o), Cell((c, False))
                    o.p[k] = self.ev(f["v"], e) if f["v"] is not None else UNDEF

        def sup(a):
            if isinstance(c.base, Class):
                self.init(c.base, o, a)
            elif isinstance(c.base, Host):
                b = self.construct(c.base, a)
                if isinstance(b, Obj):
                    o.p.update(b.p)
            fields()
            return UNDEF
        if not ctor:
            sup(args)
            return
        if c.base is None:
            fields()
        f = ctor[0]
        e = Env(c.env)
        e.v["this"], e.v["%home"] = Cell(o), Cell((c, False))
        e.v["super"] = Cell(Host("super", lambda m, th, a: sup(a)))
        self.params(f, args, e)
        for n in f.get("props", []):
            o.p[n] = e.v[n].x
        try:
            self.block(f["body"]["b"], e)
        except Ret:
            pass

    def params(self, node, args, e):
        for i, p in enumerate(node["params"]):
            if p["rest"]:
                self.bind(p["p"], Arr(args[i:]), e, "let")
                continue
            v = args[i] if i < len(args) else UNDEF
            if v is UNDEF and p["d"] is not None:
                v = self.ev(p["d"], e)
            self.bind(p["p"], v, e, "let")

    def call(self, f, args, this=UNDEF):
        if isinstance(f, Host):
            return f.f(self, this, list(args))
        if not isinstance(f, Fn):
            if isinstance(f, Opq):
                raise Unsupported("call of an unknown function %s" % f)
            self.throw("TypeError", "not a function")
        node = f.node
        self.functions.add("%s:%s" % (os.path.relpath(self.file or "", REPO) if self.file else "", node.get("name") or f.p.get("name") or "line %d" % node["l"]))
        self.depth += 1
        if self.depth > 150:
            self.depth -= 1
            self.throw("RangeError", "Maximum call stack size exceeded")
        e = Env(f.env, f)
        if not node.get("arrow"):
            e.v["this"] = Cell(f.this if f.this is not None and this is UNDEF else this)
            e.v["arguments"] = Cell(Arr(args))
            if f.cls is not None:
                e.v["%home"] = Cell((f.cls, f.static))
        try:
            if node.get("gen"):
                return self.generator(node, args, e)
            if node.get("async"):
                try:
                    return Promise(True, self.settle(self.body(node, args, e)))
                except JSThrow as x:
                    self.rejected.append(Promise(False, x.v))
                    return self.rejected[-1]
            return self.body(node, args, e)
        finally:
            self.depth -= 1

    def generator(self, node, args, e):
        """the body runs in a thread of its own, which only runs while the caller waits for it"""
        co = Coroutine(self, lambda: self.body(node, args, e))
        self.coroutines.append(co)
        return Iter(co.values(), co.abort, bool(node.get("async")))

    def e_yield(self, n, env):
        co = self.current
        if co is None:
            raise Unsupported("yield outside a generator")
        if n["star"]:
            it = self.iterator(self.ev(n["e"], env))
            while True:
                x = it.step()
                if x is None:
                    return it.result
                co.give(x[0])
        co.give(self.settle(self.ev(n["e"], env)) if n["e"] is not None else UNDEF)
        return co.sent

    def settle(self, v):
        """value of awaiting v"""
        while isinstance(v, Promise):
            v.seen = True
            if not v.ok:
                raise JSThrow(v.v)
            v = v.v
        return v

    await_ = settle

    def body(self, node, args, e):
        self.params(node, args, e)
        if node["expr"]:
            return self.ev(node["body"], e)
        b = Env(e)
        self.varhoist(node["body"]["b"], b)
        try:
            self.block(node["body"]["b"], b)
        except Ret as r:
            return r.v
        return UNDEF

    # ---------------------------------------------------------- expressions
    def ev(self, n, env):
        v = self.evc(n, env)
        return UNDEF if v is SHORT else v

    def evc(self, n, env):
        """may return SHORT: the rest of an optional chain is skipped"""
        self.nodes += 1
        try:
            f = EV[n["t"]]
        except KeyError:
            raise Unsupported("expression %s (line %s)" % (n["t"], n["l"]))
        try:
            return f(self, n, env)
        except Unsupported as e:
            if not hasattr(e, "stack"):
                e.stack = []
            if len(e.stack) < 6:
                e.stack.append("%s line %d" % (n["t"], n["l"]))
            raise

    def e_id(self, n, env):
        return self.read(env, n["n"])

    def e_num(self, n, env):
        v = n["v"]
        return int(v) if isinstance(v, float) and v.is_integer() else v

    def e_big(self, n, env):
        return Big(int(n["v"]))

    def e_str(self, n, env):
        return n["v"]

    e_lit = e_str

    def e_this(self, n, env):
        c = self.find(env, "this")
        return c.x if c else UNDEF

    def e_tpl(self, n, env):
        parts = [n["q"][0]]
        for q, x in zip(n["q"][1:], n["e"]):
            parts += [self.tostr(self.ev(x, env)), q]
        return self.cat(parts)

    def cat(self, parts):
        out = []
        for p in sum([[Opq("str", x) if not isinstance(x, str) else x for x in p.t[1:]] if isinstance(p, Opq) and p.k == "str" and p.t[0] == "cat" else [p] for p in parts], []):
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return Opq("str", ("cat",) + tuple(x if isinstance(x, str) else x.t for x in out))

    def e_arr(self, n, env):
        out = []
        for x in n["e"]:
            if x is None:
                out.append(UNDEF)
            elif x["t"] == "spread":
                out += self.iterate(self.ev(x["e"], env))
            else:
                out.append(self.ev(x, env))
        return Arr(out)

    def e_obj(self, n, env):
        o = Obj()
        for k, name, x in n["p"]:
            if k == "spread":
                v = self.ev(x, env)
                if v is UNDEF or v is NULL or isinstance(v, (bool, int, float)):
                    continue
                for kk in self.keys(v):
                    o.p[kk] = self.get(v, kk)
                continue
            key = name if isinstance(name, str) else self.pkey(self.ev(name, env))
            if k in ("get", "set"):
                g = o.p.get(key)
                if not isinstance(g, Getter):
                    g = o.p[key] = Getter()
                setattr(g, "f" if k == "get" else "s", Fn(x, env, self))
            else:
                o.p[key] = self.ev(x, env)
        return o

    def e_fn(self, n, env):
        return Fn(n, env, self)

    def e_class(self, n, env):
        return self.mkclass(n, env)

    def e_mem(self, n, env):
        if n["o"]["t"] == "super":
            return self.supermember(n, env)
        o = self.evc(n["o"], env)
        if o is SHORT:
            if n["chain"]:
                return o
            o = UNDEF
        if n["opt"] and (o is UNDEF or o is NULL):
            return SHORT
        return self.get(o, n["k"])

    def e_super(self, n, env):
        raise Unsupported("super")

    def e_idx(self, n, env):
        o = self.evc(n["o"], env)
        if o is SHORT:
            if n["chain"]:
                return o
            o = UNDEF
        if n["opt"] and (o is UNDEF or o is NULL):
            return SHORT
        return self.get(o, self.pkey(self.ev(n["k"], env)))

    def e_call(self, n, env):
        f = n["f"]
        this = UNDEF
        if f["t"] == "super":
            g = self.find(env, "super").x
        elif f["t"] in ("mem", "idx"):
            if f["o"]["t"] == "super":
                return self.call(self.supermember(f, env), self.args(n["a"], env), self.find(env, "this").x)
            this = self.evc(f["o"], env)
            if this is SHORT:
                if f["chain"]:
                    return SHORT
                this = UNDEF
            if f["opt"] and (this is UNDEF or this is NULL):
                return SHORT
            k = f["k"] if f["t"] == "mem" else self.pkey(self.ev(f["k"], env))
            g = self.get(this, k)
            if g is UNDEF and not n["opt"]:
                if isinstance(this, (Obj, Arr, Bytes, str, Fn, Host)):
                    self.missing(this, k)
                self.throw("TypeError", "%s is not a function" % k)
        else:
            g = self.ev(f, env)
        if n["opt"] and (g is UNDEF or g is NULL):
            return SHORT
        return self.call(g, self.args(n["a"], env), this)

    def supermember(self, f, env):
        k = f["k"] if f["t"] == "mem" else self.pkey(self.ev(f["k"], env))
        home = self.find(env, "%home")
        if home is None:
            raise Unsupported("super outside a class")
        c, static = home.x
        if static:
            return self.get(c.base, k)
        b, this = c.base, self.find(env, "this").x
        while isinstance(b, Class):
            for kind, n, g in b.m:
                if n == k and kind in ("method", "get"):
                    g = Fn(g, b.env, self, cls=b)
                    return self.call(g, [], this) if kind == "get" else g
            b = b.base
        raise Unsupported("super.%s" % k)

    def missing(self, o, k):
        """a method of a modelled library value that is not modelled"""
        if isinstance(o, Obj) and o.cls is None or isinstance(o, Fn):
            return
        raise Unsupported("method %s of %s" % (k, type(o).__name__))

    def args(self, a, env):
        out = []
        for x in a:
            if x["t"] == "spread":
                out += self.iterate(self.ev(x["e"], env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_new(self, n, env):
        return self.construct(self.ev(n["f"], env), self.args(n["a"], env))

    def e_regex(self, n, env):
        src, _, flags = n["v"][1:].rpartition("/")
        return Regex(self, src, flags)

    def e_await(self, n, env):
        return self.await_(self.ev(n["e"], env))

    def e_cond(self, n, env):
        return self.ev(n["a"] if self.truth(self.ev(n["c"], env)) else n["b"], env)

    def e_seq(self, n, env):
        v = UNDEF
        for x in n["e"]:
            v = self.ev(x, env)
        return v

    def e_un(self, n, env):
        o = n["o"]
        if o in ("++", "--"):
            v = self.num(self.ev(n["e"], env))
            r = self.arith("+" if o == "++" else "-", v, Big(1) if isbig(v) else 1)
            self.bind(n["e"], r, env, None)
            return r
        if o == "typeof":
            if n["e"]["t"] == "id" and self.find(env, n["e"]["n"]) is None:
                return "undefined"
            return self.typeof(self.ev(n["e"], env))
        v = self.ev(n["e"], env)
        if o == "!":
            return not self.truth(v)
        if o == "void":
            return UNDEF
        v = self.num(v)
        if o == "-":
            if isinstance(v, S):
                return S(v.big, pmul(v.p, pconst(-1)))
            return Big(-v) if isbig(v) else (-v if v != 0 else -0.0 if not isinstance(v, S) and v == 0 else -v)
        if o == "+":
            if isbig(v):
                self.throw("TypeError", "Cannot convert a BigInt value to a number")
            return v
        if o == "~":
            if isinstance(v, S):
                lo, hi = self.ctx.interval(v.p)
                if -2 ** 31 <= lo and hi < 2 ** 31:
                    w = poly(self.models.round(self, "trunc", v))
                    if self.isint(w):
                        return self.mk(False, padd(pconst(-1), w, -1))
                return self.opaque_num("~", v)
            return Big(~v) if isbig(v) else to32(~int(v))
        raise Unsupported("unary " + o)

    def e_post(self, n, env):
        v = self.num(self.ev(n["e"], env))
        self.bind(n["e"], self.arith("+" if n["o"] == "++" else "-", v, Big(1) if isbig(v) else 1), env, None)
        return v

    def e_delete(self, n, env):
        e = n["e"]
        o = self.ev(e["o"], env)
        k = e["k"] if e["t"] == "mem" else self.pkey(self.ev(e["k"], env))
        if isinstance(o, Obj):
            if o.frozen:
                self.throw("TypeError", "frozen")
            o.p.pop(k, None)
        return True

    def e_asg(self, n, env):
        o = n["o"]
        if o == "=":
            v = self.ev(n["b"], env)
            self.bind(n["a"], v, env, None)
            return v
        a = self.ev(n["a"], env)
        if o in ("&&=", "||=", "??="):
            take = self.truth(a) if o == "&&=" else (not self.truth(a)) if o == "||=" else (a is UNDEF or a is NULL)
            if not take:
                return a
            v = self.ev(n["b"], env)
        else:
            v = self.binop(o[:-1], a, self.ev(n["b"], env))
        self.bind(n["a"], v, env, None)
        return v

    def e_bin(self, n, env):
        o = n["o"]
        a = self.ev(n["a"], env)
        if o == "&&":
            return self.ev(n["b"], env) if self.truth(a) else a
        if o == "||":
            return a if self.truth(a) else self.ev(n["b"], env)
        if o == "??":
            return self.ev(n["b"], env) if a is UNDEF or a is NULL or a is SHORT else a
        if o == ",":
            return self.ev(n["b"], env)
        return self.binop(o, a, self.ev(n["b"], env))

    def binop(self, o, a, b):
        if o == "===":
            return self.seq(a, b)
        if o == "!==":
            return not self.seq(a, b)
        if o in ("==", "!="):
            r = self.looseq(a, b)
            return r if o == "==" else not r
        if o in ("<", ">", "<=", ">="):
            if isinstance(a, str) and isinstance(b, str):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]
            a, b = self.num(a), self.num(b)
            for x in (a, b):
                if isinstance(x, float) and math.isnan(x):
                    return False
            if not isinstance(a, S) and not isinstance(b, S):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]
            p, q = poly2(a), poly2(b)
            if isinstance(p, float) or isinstance(q, float):      # against an infinity
                lo, hi = (p, p) if isinstance(p, float) else self.ctx.interval(p)
                l2, h2 = (q, q) if isinstance(q, float) else self.ctx.interval(q)
                return {"<": lo < l2, ">": lo > l2, "<=": lo <= l2, ">=": lo >= l2}[o]
            if o == "<":
                return self.ctx.sign(padd(p, q, -1), "<")
            if o == ">":
                return self.ctx.sign(padd(q, p, -1), "<")
            if o == ">=":
                return not self.ctx.sign(padd(p, q, -1), "<")
            return not self.ctx.sign(padd(q, p, -1), "<")
        if o == "in":
            if isinstance(b, (Opq, str, int, float, bool)) or b is UNDEF or b is NULL:
                self.throw("TypeError", "Cannot use 'in' operator")
            return self.has(b, self.pkey(a))
        if o == "instanceof":
            return self.instanceof(a, b)
        if o == "+":
            a, b = self.prim(a), self.prim(b)
            if isinstance(a, str) or isinstance(b, str) or (isinstance(a, Opq) and a.k == "str") or (isinstance(b, Opq) and b.k == "str"):
                return self.cat([self.tostr(a), self.tostr(b)])
        return self.arith(o, self.num(a), self.num(b))

    def prim(self, v):
        if isinstance(v, (Obj, Arr, Bytes, Fn, Host, MapV, Promise)):
            return self.tostr(v)
        return v

    def num(self, v):
        if isinstance(v, (S, Big)):
            return v
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float, Fraction)):
            return v
        if v is UNDEF:
            return float("nan")
        if v is NULL:
            return 0
        if isinstance(v, str):
            return tonum(v)
        if isinstance(v, Opq) and v.k == "str" and v.t[0] == "dec" and all(self.ctx.kind[i] == "int" for mono, c in v.t[1] for i in mono):
            return self.rounded(v.t[1])
        if isinstance(v, Opq):
            return self.ctx.var(("num", v.t), -INF, INF, False, "real")
        if isinstance(v, Obj):
            f = self.get(v, "valueOf")
            if isinstance(f, Fn):
                return self.num(self.call(f, [], v))
        if isinstance(v, (Arr, Obj, Bytes)):
            return self.num(self.tostr(v))
        return float("nan")

    def opaque_num(self, op, *xs, lo=-INF, hi=INF, big=None, kind="int"):
        return self.ctx.var(("op", op) + tuple(poly2(x) if isinstance(x, (S, int, float, Fraction)) else repr(x) for x in xs), lo, hi,
                            isbig(xs[0]) if big is None else big, kind)

    def arith(self, o, a, b):
        if isbig(a) != isbig(b):
            self.throw("TypeError", "Cannot mix BigInt and other types, use explicit conversions")
        big = isbig(a)
        if not isinstance(a, S) and not isinstance(b, S):
            return self.carith(o, a, b, big)
        for x in (a, b):
            if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
                if math.isnan(x):
                    return x
                return self.opaque_num(o, a, b, big=False, kind="real")
        p, q = poly(a), poly(b)
        if o in ("+", "-", "*"):
            r = pmul(p, q) if o == "*" else padd(p, q, 1 if o == "+" else -1)
            return self.mk(big, r)
        if o in ("/", "%"):
            if big:
                if self.ctx.sign(q, "=="):
                    self.throw("RangeError", "Division by zero")
                if o == "/" and self.lit(q):
                    r = self.exact(p, self.lit(q))
                    if r is not None:
                        return self.mk(True, r)
                if o == "%" and self.lit(q):
                    return self.mk(True, self.rest(p, self.lit(q)))
                d = self.quot(p, q)
                return self.mk(True, d) if o == "/" else self.mk(True, padd(p, pmul(q, d), -1))
            if o == "/" and q == pconst(1):
                return a
            lo, hi = self.ctx.interval(p)
            if o == "%" and self.lit(q) and self.isint(p) and -2 ** 53 <= lo and hi <= 2 ** 53:
                return self.mk(False, self.rest(p, self.lit(q)))
            if o == "%" and q == pconst(1):
                if all(self.ctx.kind[i] == "int" for m, c in p for i in m) and all(Fraction(c).denominator == 1 for m, c in p):
                    return 0
                frac = self.ctx.integral_frac(p)
                r = (EPS if lo > 0 else -1 + EPS if frac else -1 + EPS, 1 - EPS if hi > 0 else -EPS)
                if lo >= 0 and not frac:
                    r = (0, 1 - EPS)
                if lo <= 0 <= hi:
                    r = (-1 + EPS, 1 - EPS)
                return self.ctx.var(("op", "%", p, q), r[0], r[1], False, "frac" if frac else "real")
            if o == "%" and len(q) == 1 and not q[0][0] and lo >= 0:
                return self.ctx.var(("op", "%", p, q), 0, min(hi, q[0][1] - 1), False, "int" if all(self.ctx.kind[i] == "int" for m, c in p for i in m) else "real")
            if o == "/" and self.lit(q) and self.isint(p) and -2 ** 53 <= lo and hi <= 2 ** 53:
                r = self.exact(p, self.lit(q))
                if r is not None:
                    return self.mk(False, r)
            if o == "/" and len(q) == 1 and not q[0][0] and q[0][1] != 0:
                return self.ctx.var(("op", "/", p, q), lo / q[0][1] if abs(lo) != INF else lo, hi / q[0][1] if abs(hi) != INF else hi, False, "real") if q[0][1] > 0 else self.opaque_num(o, a, b, kind="real")
            return self.opaque_num(o, a, b, big=False, kind="real")
        if o == "**" and not isinstance(b, S) and 0 <= b <= 8:
            r = pconst(1)
            for _ in range(int(b)):
                r = pmul(r, p)
            return self.mk(big, r)
        if o == "<<" and not isinstance(b, S) and big:
            return self.mk(big, pmul(p, pconst(2 ** int(b))))
        if o == ">>" and not isinstance(b, S) and big:
            d = self.quot(p, pconst(2 ** int(b)))
            if self.ctx.interval(p)[0] >= 0:
                return S(True, d)
        lo, hi = self.ctx.interval(p)
        if o == "&" and not isinstance(b, S) and lo >= 0 and b >= hi and (b & (b + 1)) == 0 and (big or hi < 2 ** 31):
            return a
        if o in ("|", ">>", ">>>", "<<", "^") and not big and not isinstance(b, S) and b == 0 and lo >= 0 and hi < 2 ** 31 and self.ctx.kind[p[0][0][0]] == "int" if p and p[0][0] else False:
            return a
        if o in ("|", ">>", ">>>") and lo < 0:
            lo = self.ctx.least(p)
        if o in ("|", ">>", ">>>") and not big and not isinstance(b, S) and b == 0 and lo >= 0 and hi < 2 ** 31:
            return self.models.round(self, "trunc", a)
        if o in ("&", "|", "^", ">>", "<<", ">>>", "**"):
            return self.opaque_num(o, a, b, big=big)
        raise Unsupported("operator " + o)

    def isint(self, p):
        return all(self.ctx.kind[i] == "int" for m, c in p for i in m) and all(Fraction(c).denominator == 1 for m, c in p)

    def lit(self, q):
        """the literal a divisor is, when it is a whole number above one"""
        return q[0][1] if len(q) == 1 and not q[0][0] and Fraction(q[0][1]).denominator == 1 and q[0][1] > 1 else None

    def lone(self, p, tag):
        """the unknown of that form a polynomial consists of"""
        if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
            t = self.ctx.atoms[p[0][0][0]]
            if t[0] == tag and self.lit(t[2]):
                return t
        return None

    def ratio(self, p):
        """the integers of a quotient small enough for a double to get its whole part right"""
        if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
            t = self.ctx.atoms[p[0][0][0]]
            if t[:2] == ("op", "/") and self.lit(t[3]) and self.isint(t[2]):
                lo, hi = self.ctx.interval(t[2])
                if -2 ** 53 <= lo and hi <= 2 ** 53:
                    return t[2], t[3]
        return None

    def rest(self, p, k):
        """remainder of the truncated division of an integer by a whole number, with the sign of the dividend:
        (P mod M) mod k = P mod k for k | M"""
        t = self.lone(p, "mod")
        if t and self.lit(t[2]) % k == 0:
            return self.rest(t[1], k)
        lo, hi = self.ctx.interval(p)
        if self.ctx.least(p) >= 0:
            if hi < k:
                return p
            lo, hi = 0, min(hi, k - 1)
        else:
            lo, hi = max(lo, 1 - k) if lo < 0 else 0, min(hi, k - 1) if hi > 0 else 0
        if all(c % k == 0 for m, c in p):
            return ()
        return self.ctx.var(("mod", p, pconst(k)), lo, hi).p

    def fold(self, p):
        """K (P div K) = P - P mod K, and b (P div ab) = P div a - (P div a) mod b beside P div a"""
        for n in range(50):
            ds = []
            for m, c in p:
                # k ((P div k) mod b) = P mod kb - P mod k
                if len(m) == 1 and self.ctx.atoms[m[0]][0] == "mod" and Fraction(c).denominator == 1:
                    t = self.ctx.atoms[m[0]]
                    d = self.lone(t[1], "div")
                    if d and c % self.lit(d[2]) == 0:
                        k = self.lit(d[2])
                        p = padd(padd(p, ((m, c),), -1), padd(self.rest(d[1], k * self.lit(t[2])), self.rest(d[1], k), -1), c // k)
                        break
                if len(m) == 1 and self.ctx.atoms[m[0]][0] == "div" and Fraction(c).denominator == 1:
                    t = self.ctx.atoms[m[0]]
                    k = self.lit(t[2])
                    if k:
                        ds.append((m, c, t[1], k))
            else:
                m = None
            if m is not None:
                continue
            for m, c, num, k in ds:
                if c % k == 0:
                    p = padd(padd(p, ((m, c),), -1), padd(num, self.rest(num, k), -1), c // k)
                    break
                b = next(((m2, k // k2) for m2, c2, n2, k2 in ds if n2 == num and k2 < k and k % k2 == 0 and c % (k // k2) == 0), None)
                if b:
                    d = ((b[0], 1),)
                    p = padd(padd(p, ((m, c),), -1), padd(d, self.rest(d, b[1]), -1), c // b[1])
                    break
            else:
                break
        return p

    def exact(self, p, k):
        """p / k where that is a whole number whatever the unknowns are"""
        for m, c in p:
            if len(m) == 1:
                t = self.ctx.atoms[m[0]]
                if t[0] == "mod" and self.lit(t[2]) == k:
                    p = padd(p, padd(padd(t[1], pmul(t[2], self.quot(t[1], t[2])), -1), ((m, 1),), -1), c)
        return tuple((m, c // k) for m, c in p) if all(c % k == 0 for m, c in p) else None

    def quot(self, p, q):
        """truncated quotient of integers; (P div a) div b = P div ab, and (P mod M) div k = (P div k) mod (M / k) for k | M"""
        k = self.lit(q)
        if k:
            t = self.lone(p, "div")
            if t:
                return self.quot(t[1], pmul(t[2], q))
            t = self.lone(p, "mod")
            if t and self.lit(t[2]) % k == 0:
                return self.rest(self.quot(t[1], q), self.lit(t[2]) // k) if self.lit(t[2]) > k else ()
        lo, hi = self.ctx.interval(p)
        l2, h2 = self.ctx.interval(q)
        if q == pconst(1):
            return p
        if lo < 0 and l2 > 0:
            lo = self.ctx.least(p)
        if lo >= 0 and l2 > 0:
            if hi < l2:
                return ()
            a, b = lo // h2 if h2 != INF else 0, hi // l2 if hi != INF else INF
        else:
            a, b = (lo, max(hi, 0)) if l2 > 0 else (-INF, INF)
        # exact common factor
        if len(q) == 1:
            m0, c0 = q[0]
            r = []
            for m, c in p:
                mm = list(m)
                ok = c % c0 == 0
                for i in m0:
                    if i in mm:
                        mm.remove(i)
                    else:
                        ok = False
                if not ok:
                    break
                r.append((tuple(mm), c // c0))
            else:
                return tuple(sorted(r))
        else:
            r = pdivexact(p, q)
            if r is not None:
                return r
        return self.ctx.var(("div", p, q), a, b).p

    def keyval(self, k):
        return self.okeys.get(k, k)

    def rounded(self, p):
        """the double nearest to an integer"""
        lo, hi = self.ctx.interval(p)
        if -2 ** 53 <= lo and hi <= 2 ** 53 or len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and self.ctx.atoms[p[0][0][0]][0] == "round":
            return self.mk(False, p)
        return self.ctx.var(("round", p), lo, hi, False, "int")

    def mk(self, big, p):
        p = self.fold(p)
        if not big:
            lo, hi = self.ctx.interval(p)
            if lo < -2 ** 53 or hi > 2 ** 53:
                if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
                    return S(False, p)
                return self.ctx.var(("round", p), lo, hi, False, "int")
        if not p:
            return Big(0) if big else 0
        if len(p) == 1 and not p[0][0]:
            return Big(p[0][1]) if big else p[0][1]
        return S(big, p)

    def carith(self, o, a, b, big):
        if big:
            a, b = int(a), int(b)
            if o == "+":
                return Big(a + b)
            if o == "-":
                return Big(a - b)
            if o == "*":
                return Big(a * b)
            if o in ("/", "%"):
                if b == 0:
                    self.throw("RangeError", "Division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return Big(q) if o == "/" else Big(a - q * b)
            if o == "**":
                return Big(a ** b)
            if o in ("<<", ">>", "&", "|", "^"):
                return Big({"<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[o]())
            raise Unsupported("operator " + o)
        try:
            if o == "+":
                r = a + b
            elif o == "-":
                r = a - b
            elif o == "*":
                r = a * b
            elif o == "/":
                if b == 0:
                    r = float("nan") if a == 0 or math.isnan(a) else math.copysign(INF, a) * math.copysign(1, b)
                elif isinstance(a, int) and isinstance(b, int) and a % b == 0:
                    r = a // b
                else:
                    r = a / b
            elif o == "%":
                if b == 0 or (isinstance(a, float) and (math.isinf(a) or math.isnan(a))) or (isinstance(b, float) and math.isnan(b)):
                    r = float("nan")
                else:
                    r = math.fmod(a, b)
            elif o == "**":
                r = a ** b
            else:
                x, y = to32(a), to32(b)
                if o == "&":
                    r = to32(x & y)
                elif o == "|":
                    r = to32(x | y)
                elif o == "^":
                    r = to32(x ^ y)
                elif o == "<<":
                    r = to32(x << (y & 31))
                elif o == ">>":
                    r = x >> (y & 31)
                elif o == ">>>":
                    r = (x & 0xffffffff) >> (y & 31)
                else:
                    raise Unsupported("operator " + o)
        except OverflowError:
            r = INF
        if isinstance(r, int) and abs(r) > 2 ** 53:
            r = float(r)
        if isinstance(r, float) and r.is_integer() and abs(r) <= 2 ** 53:
            r = int(r)
        return r

    # ---------------------------------------------------------- conversions and comparisons
    def truth(self, v):
        if v is UNDEF or v is NULL or v is SHORT:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, S):
            return not self.ctx.sign(v.p, "==")
        if isinstance(v, (int, float, Fraction)):
            return not (v == 0 or v != v)
        if isinstance(v, str):
            return v != ""
        if isinstance(v, Opq):
            if v.k == "str" and (v.t[0] in ("addr", "pda", "addrof", "b64", "b58", "ata", "dec", "fixed") or v.t[0] == "cat" and any(isinstance(x, str) for x in v.t[1:])):
                return True
            return self.ctx.split(("truth", v.t), "%s is true" % v)
        return True

    def typeof(self, v):
        if v is UNDEF or v is SHORT:
            return "undefined"
        if v is NULL:
            return "object"
        if isinstance(v, bool):
            return "boolean"
        if isbig(v):
            return "bigint"
        if isnum(v):
            return "number"
        if isinstance(v, str):
            return "string"
        if isinstance(v, Opq):
            if v.k == "any":
                raise Unsupported("typeof an unknown")
            return {"str": "string", "bool": "boolean"}[v.k]
        if isinstance(v, (Fn, Host, Class)):
            return "function"
        return "object"

    def seq(self, a, b):
        if a is SHORT:
            a = UNDEF
        if b is SHORT:
            b = UNDEF
        if a is b:
            return not (isinstance(a, float) and a != a)
        if isinstance(a, (bool, str)) and isinstance(b, (bool, str)):
            return type(a) == type(b) and a == b
        na, nb = isbig(a) or isnum(a), isbig(b) or isnum(b)
        if na and nb:
            if isbig(a) != isbig(b):
                return False
            return self.numeq(a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            x, y = (a, b) if isinstance(a, Opq) else (b, a)
            if isinstance(y, Opq):
                if x.t == y.t:
                    return True
                if x.k != y.k and "any" not in (x.k, y.k):
                    return False
                if x.k == y.k == "str":
                    r = strsame(x.t, y.t)
                    if r is not None:
                        return r
                return self.ctx.split(("eq",) + tuple(sorted((repr(x.t), repr(y.t)))), "%s === %s" % (x, y))
            if x.k == "str" and isinstance(y, str):
                r = strsame(x.t, y)
                if r is not None:
                    return r
                if y == "" and x.t[0] in ("addr", "pda", "addrof", "b64"):
                    return False
                return self.ctx.split(("eq", repr(x.t), repr(y)), "%s === %r" % (x, y))
            if x.k == "bool" and isinstance(y, bool):
                r = self.ctx.split(("truth", x.t), "%s is true" % x)
                return r == y
            if x.k == "any":
                return self.ctx.split(("eq", repr(x.t), repr(y)), "%s === %r" % (x, y))
            return False
        return False

    def numeq(self, a, b):
        if not isinstance(a, S) and not isinstance(b, S):
            return a == b
        p, q = poly2(a), poly2(b)
        if isinstance(p, float) or isinstance(q, float):
            return False
        return self.ctx.sign(padd(p, q, -1), "==")

    def looseq(self, a, b):
        n = lambda v: v is UNDEF or v is NULL or v is SHORT
        if n(a) or n(b):
            return n(a) and n(b)
        ta, tb = self.typeof(a), self.typeof(b)
        if ta == tb:
            return self.seq(a, b)
        if {ta, tb} <= {"number", "bigint"}:
            return self.numeq(a, b)
        if {ta, tb} <= {"number", "string", "boolean", "bigint"} and not isinstance(a, Opq) and not isinstance(b, Opq):
            return self.numeq(self.num(a), self.num(b))
        if "object" in (ta, tb) and not isinstance(a, Opq) and not isinstance(b, Opq):
            prim = lambda v, t: self.tostr(v) if t == "object" and isinstance(v, (Arr, Obj, Bytes)) else v
            if isinstance(prim(a, ta), (str, bool, int, float, S)) and isinstance(prim(b, tb), (str, bool, int, float, S)):
                return self.looseq(prim(a, ta), prim(b, tb))
            raise Unsupported("== of %s and %s" % (ta, tb))
        raise Unsupported("== of %s and %s" % (ta, tb))

    def tostr(self, v):
        if isinstance(v, str):
            return v
        if v is UNDEF or v is SHORT:
            return "undefined"
        if v is NULL:
            return "null"
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, Big):
            return str(int(v))
        if isinstance(v, (int, float)):
            if isinstance(v, float):
                if v != v:
                    return "NaN"
                if v == INF:
                    return "Infinity"
                if v == -INF:
                    return "-Infinity"
                if v.is_integer() and abs(v) < 1e21:
                    return str(int(v))
            return repr(v)
        if isinstance(v, S):
            return Opq("str", ("dec", v.p))
        if isinstance(v, Opq):
            return v if v.k == "str" else Opq("str", ("str", v.t))
        if isinstance(v, Arr):
            return self.cat(sum([[self.tostr(x), ","] for x in v.a], [])[:-1])
        if isinstance(v, ABuf):
            return "[object ArrayBuffer]"
        if isinstance(v, Bytes):
            if isinstance(v, Buf):
                return self.models.method(self, v, "toString").f(self, v, [])
            return self.cat(sum([[self.tostr(self.models.byte(self, c)), ","] for c in v.c], [])[:-1])
        if isinstance(v, HObj) and "toString" in v.hm:
            return v.hm["toString"](self, v, [])
        if isinstance(v, Obj) and (isinstance(v.p.get("toString"), (Fn, Host)) or v.proto is not None and self.inherited(v, "toString", ("method",))):
            return self.tostr(self.call(self.get(v, "toString"), [], v))
        if isinstance(v, Obj):
            if v.cls and "message" in v.p:
                return self.cat([v.p.get("name", "Error"), ": ", self.tostr(v.p["message"])])
            return "[object Object]"
        return "[object]"

    def pkey(self, v):
        if isinstance(v, Opq):
            if v.k == "str" and all(isinstance(x, str) or x[0] in ("addr", "pda") for x in (v.t[1:] if v.t[0] == "cat" else (v.t,))):
                k = "\0" + repr(v.t)
                for other, o in list(self.okeys.items()):
                    if other != k and self.seq(o, v):
                        return other
                self.okeys[k] = v
                return k
            raise Unsupported("property key %s" % v)
        if isinstance(v, S):
            raise Unsupported("property key is not known: %s" % self.ctx.pshow(v.p))
        return self.tostr(v)

    def instanceof(self, a, b):
        if isinstance(b, Host):
            n = b.name
            if n == "Uint8Array":
                return isinstance(a, Bytes)
            if n == "Array":
                return isinstance(a, Arr)
            if n == "Map":
                return isinstance(a, MapV) and not a.is_set
            if n == "Promise":
                return isinstance(a, Promise)
            if n == "Object":
                return isinstance(a, (Obj, Arr, Bytes, MapV))
            if n == "Error":
                return isinstance(a, Obj) and a.cls is not None and "message" in a.p
            return isinstance(a, Obj) and a.cls == n
        if isinstance(b, Class):
            c = a.proto if isinstance(a, Obj) else None
            while isinstance(c, Class):
                if c is b:
                    return True
                c = c.base
            return False
        raise Unsupported("instanceof")

    # ---------------------------------------------------------- properties
    def keys(self, v):
        if isinstance(v, Obj):
            ks = [k for k in v.p if not k.startswith(("@@", "#"))]
            ints = sorted((k for k in ks if k.isdigit() and str(int(k)) == k), key=int)
            return ints + [k for k in ks if k not in ints] if ints else ks
        if isinstance(v, Arr):
            return [str(i) for i in range(len(v.a))]
        if isinstance(v, Bytes):
            return [str(i) for i in range(len(v.c))]
        if isinstance(v, str):
            return [str(i) for i in range(len(v))]
        if isinstance(v, Opq):
            raise Unsupported("keys of %s" % v)
        return []

    def has(self, o, k):
        if isinstance(o, Obj):
            if k in o.p:
                return True
            return self.inherited(o, k) is not None
        if isinstance(o, (Arr, Bytes)):
            return k in self.keys(o) or k == "length" or self.models.method(self, o, k) is not None
        if isinstance(o, (Fn, Host, Class)):
            return k in o.p
        if isinstance(o, Codec):
            return self.models.method(self, o, k) is not None
        return False

    def inherited(self, o, k, kinds=("method", "get")):
        c = o.proto
        while isinstance(c, Class):
            for kind, n, f in c.m:
                if n == k and kind in kinds:
                    return (kind, f, c)
            c = c.base
        return None

    def get(self, o, k):
        if o is UNDEF or o is NULL or o is SHORT:
            self.throw("TypeError", "Cannot read properties of %s (reading '%s')" % ("null" if o is NULL else "undefined", k))
        if isinstance(o, Obj):
            if k in o.p:
                v = o.p[k]
                return (self.call(v.f, [], o) if v.f else UNDEF) if isinstance(v, Getter) else v
            h = self.inherited(o, k)
            if h is not None:
                f = Fn(h[1], h[2].env, self, cls=h[2])
                return self.call(f, [], o) if h[0] == "get" else f
            if k == "constructor":
                c = o.proto if o.proto is not None else self.globals.v.get(o.cls or "Object")
                return (c.x if isinstance(c, Cell) else c) or UNDEF
            r = self.models.method(self, o, k)
            return UNDEF if r is None else r
        if isinstance(o, (Fn, Host, Class)):
            b = o
            while isinstance(b, (Fn, Host, Class)):
                if k in b.p:
                    v = b.p[k]
                    return self.call(v.f, [], o) if isinstance(v, Getter) else v
                b = b.base if isinstance(b, Class) else None
            if isinstance(o, Class):
                if k == "name":
                    return o.name
            if k == "name" and isinstance(o, Host):
                return o.name
            r = self.models.method(self, o, k)
            return UNDEF if r is None else r
        if isinstance(o, Arr):
            if k == "length":
                return len(o.a)
            if k.isdigit():
                return o.a[int(k)] if int(k) < len(o.a) else UNDEF
        elif isinstance(o, Bytes):
            if k == "byteLength" or k == "length" and not isinstance(o, ABuf):
                return o.n
            if isinstance(o, ABuf):
                if k == "slice":
                    return self.models.meth(BY, o, k)
                return UNDEF
            if k == "byteOffset":
                return o.o
            if k == "buffer":
                b = ABuf(())
                b.B, b.n = o.B, len(o.B)
                return b
            if k.isdigit():
                return self.models.byte(self, o.at(int(k))) if int(k) < o.n else UNDEF
        elif isinstance(o, str):
            if k == "length":
                return len(o)
            if k.isdigit():
                return o[int(k)] if int(k) < len(o) else UNDEF
        r = self.models.method(self, o, k)
        return UNDEF if r is None else r

    def put(self, o, k, v):
        if o is UNDEF or o is NULL:
            self.throw("TypeError", "Cannot set properties of undefined")
        if isinstance(o, Obj):
            if o.frozen:
                self.throw("TypeError", "Cannot assign to read only property")
            if isinstance(o.p.get(k), Getter):
                if o.p[k].s is None:
                    self.throw("TypeError", "Cannot set property %s which has only a getter" % k)
                self.call(o.p[k].s, [v], o)
                return
            if k not in o.p and o.proto is not None:
                h = self.inherited(o, k, ("set",))
                if h is not None:
                    self.call(Fn(h[1], h[2].env, self, cls=h[2]), [v], o)
                    return
                if self.inherited(o, k, ("get",)) is not None:
                    self.throw("TypeError", "Cannot set property %s which has only a getter" % k)
            o.p[k] = v
        elif isinstance(o, Arr):
            if o.frozen:
                self.throw("TypeError", "Cannot assign to read only property")
            if k == "length":
                n = int(v)
                o.a[:] = o.a[:n] + [UNDEF] * (n - len(o.a))
                return
            if not k.isdigit():
                raise Unsupported("array property " + k)
            i = int(k)
            if i > 100000:
                raise Unsupported("array index")
            while len(o.a) <= i:
                o.a.append(UNDEF)
            o.a[i] = v
        elif isinstance(o, Bytes):
            if isinstance(o, ABuf) or not k.isdigit():
                raise Unsupported("property of bytes " + k)
            if int(k) < o.n:
                o.write(int(k), [self.models.tobyte(self, v)])
        elif isinstance(o, (Fn, Host, Class)):
            o.p[k] = v
        else:
            raise Unsupported("property assignment on %s" % type(o).__name__)

    def iterate(self, v, live=False):
        if isinstance(v, Arr):
            return v.a if live else list(v.a)
        if isinstance(v, Bytes) and not isinstance(v, ABuf):
            return [self.models.byte(self, c) for c in v.c]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, MapV):
            return list(v.k) if v.is_set else [Arr([a, b]) for a, b in zip(v.k, v.v)]
        it, out = self.iterator(v), []
        while True:
            x = it.step()
            if x is None:
                return out
            out.append(x[0])
            if len(out) > 20000:
                raise Unsupported("loop bound")

    def iterator(self, v, aio=False):
        """the iterator of an iterable"""
        if isinstance(v, Iter):
            return v
        if isinstance(v, Arr):
            def live():
                i = 0
                while i < len(v.a):
                    yield v.a[i]
                    i += 1
            return Iter(live())
        if isinstance(v, (Bytes, str, MapV)) and not isinstance(v, ABuf):
            return Iter(iter(self.iterate(v)))
        if isinstance(v, Opq):
            raise Unsupported("iterating over %s" % v)
        if isinstance(v, Obj):
            f = UNDEF
            for k in ("@@asyncIterator",) * aio + ("@@iterator",):
                f = self.get(v, k)
                if f is not UNDEF:
                    break
            if f is not UNDEF:
                o = self.call(f, [], v)
                if isinstance(o, Iter):
                    return o

                def steps():
                    n = self.get(o, "next")
                    while True:
                        r = self.settle(self.call(n, [], o)) if aio else self.call(n, [], o)
                        if self.truth(self.get(r, "done")):
                            return self.get(r, "value")
                        yield self.get(r, "value")

                def close():
                    r = self.get(o, "return")
                    if r is not UNDEF:
                        self.call(r, [], o)
                return Iter(steps(), close)
        self.throw("TypeError", "object is not iterable")


class Abort(BaseException):
    """a generator that is not resumed"""


class Coroutine:
    def __init__(self, m, f):
        self.m, self.f, self.t = m, f, None
        self.here, self.there = threading.Semaphore(0), threading.Semaphore(0)
        self.sent, self.out, self.ended = UNDEF, None, False

    def run(self):
        self.there.acquire()
        try:
            if self.aborted:
                raise Abort()
            self.out = ("done", self.f())
        except BaseException as x:
            self.out = ("err", x)
        self.ended = True
        self.here.release()

    aborted = False

    def resume(self):
        m = self.m
        if self.t is None:
            old = threading.stack_size(512 << 20)
            self.t = threading.Thread(target=self.run, daemon=True)
            self.t.start()
            threading.stack_size(old)
        prev, depth, m.current = m.current, m.depth, self
        self.there.release()
        self.here.acquire()
        m.current, m.depth = prev, depth
        return self.out

    def give(self, v):
        self.out = ("yield", v)
        self.here.release()
        self.there.acquire()
        if self.aborted:
            raise Abort()

    def values(self):
        while not self.ended:
            k, v = self.resume()
            if k == "err":
                raise v
            if k == "done":
                return v
            yield v

    def drop(self):
        """the path is over: end the thread"""
        self.aborted = True
        while self.t is not None and not self.ended:
            self.resume()

    def abort(self):
        """return(): the body's finally blocks run"""
        if self.t is None or self.ended:
            self.ended = True
            return
        self.aborted = True
        k, v = self.resume()
        if k == "err" and not isinstance(v, Abort):
            raise v
        if k == "yield":
            raise Unsupported("yield in a finally block")


SHORT = type("Short", (), {"__repr__": lambda s: "undefined"})()      # result of a short-circuited optional chain


BY = {}                     # methods of ArrayBuffer (filled in by jsmodels)
EV = {k[2:]: getattr(Machine, k) for k in dir(Machine) if k.startswith("e_")}


def poly2(v):
    if isinstance(v, float) and (v != v or math.isinf(v)):
        return v
    return poly(Fraction(v) if isinstance(v, float) else v)


def to32(x):
    if isinstance(x, float):
        if x != x or math.isinf(x):
            return 0
        x = int(x)
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def tonum(s):
    s = s.strip()
    if s == "":
        return 0
    try:
        if s[:2].lower() in ("0x", "0b", "0o"):
            return int(s, 0)
        if not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?", s, re.I):
            return {"Infinity": INF, "+Infinity": INF, "-Infinity": -INF}.get(s, float("nan"))
        f = float(s)
        return int(f) if f.is_integer() and abs(f) <= 2 ** 53 else f
    except ValueError:
        return float("nan")


def names(st):
    out = []

    def pat(p):
        if p["t"] == "id":
            out.append(p["n"])
        elif p["t"] in ("apat", "opat"):
            for e in p["e"]:
                if e:
                    pat(e["p"])
    if st["t"] == "var":
        for d in st["d"]:
            pat(d["p"])
    elif st["t"] == "fn":
        out.append(st["name"])
    elif st["t"] in ("class", "enum"):
        out.append(st["n"])
    return out


def paths(run, limit=512):
    """run(ctx) on every path -> list of results"""
    out, todo = [], [[]]
    while todo:
        if len(out) > limit:
            raise Unsupported("more than %d cases" % limit)
        d = todo.pop()
        ctx = Ctx(d)
        out.append(run(ctx))
        # untaken alternatives of the decisions made beyond the prefix
        for i in range(len(d), len(ctx.dec)):
            if ctx.dec[i]:
                todo.append(ctx.dec[:i] + [False])
    return out
