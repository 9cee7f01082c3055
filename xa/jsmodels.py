"""Models of the JavaScript library, @solana/kit and @solana-program/token used by js.py."""
import re
from .js import *
from .js import SHORT, poly, poly2, padd, pconst, isbig, isnum

U = {"U8": (1, False), "U16": (2, False), "U32": (4, False), "U64": (8, False), "U128": (16, False), "I8": (1, True), "I16": (2, True), "I32": (4, True), "I64": (8, True), "I128": (16, True)}
ROLES = {"READONLY": 0, "WRITABLE": 1, "READONLY_SIGNER": 2, "WRITABLE_SIGNER": 3}
RPC_MAX = 100


def arg(a, i):
    return a[i] if i < len(a) else UNDEF


def near(m, p):
    """the number an integer is read as: itself, unless it is too large"""
    if not m.ctx.sign(padd(p, pconst(2 ** 53)), "<") and not m.ctx.sign(padd(pconst(2 ** 53), p, -1), "<"):
        return m.mk(False, p)
    return m.rounded(p)


def parsefloat(m, th, a):
    import re
    s = m.tostr(arg(a, 0))
    if not isinstance(s, str):
        return m.num(s)
    x = re.match(r"\s*([+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|Infinity))", s)
    return tonum(x.group(1)) if x else float("nan")


def fresh(m):
    m.symbols = getattr(m, "symbols", 0) + 1
    return m.symbols


def clone(v):
    if isinstance(v, Arr):
        return Arr([clone(x) for x in v.a])
    if isinstance(v, Bytes):
        return Bytes(v.c)
    if isinstance(v, MapV):
        r = MapV(v.is_set)
        r.k, r.v = [clone(x) for x in v.k], [clone(x) for x in v.v]
        return r
    if isinstance(v, Obj):
        if v.proto is not None or any(isinstance(x, (Fn, Host, Getter)) for x in v.p.values()):
            raise Unsupported("clone of an object with functions")
        return Obj({k: clone(x) for k, x in v.p.items()}, cls=v.cls)
    if isinstance(v, (Fn, Host, Class, Promise, Iter, Codec)):
        raise Unsupported("clone of a function")
    return v


def js_stringify(m, th, a):
    by = arg(a, 1)
    if len(a) > 2 and a[2] is not UNDEF and a[2] is not NULL:
        return Opq("str", ("pretty", m.tostr(js_stringify(m, th, a[:2]))))

    def go(k, v, holder):
        """text parts, or None"""
        if isinstance(v, Obj):
            f = m.get(v, "toJSON")
            if isinstance(f, (Fn, Host)):
                v = m.call(f, [k], v)
        if isinstance(by, (Fn, Host)):
            v = m.call(by, [k, v], holder)
        if v is UNDEF or isinstance(v, (Fn, Host, Class)):
            return None
        if v is NULL:
            return ["null"]
        if isbig(v):
            m.throw("TypeError", "Do not know how to serialize a BigInt")
        if isinstance(v, bool):
            return ["true" if v else "false"]
        if isinstance(v, float) and (v != v or math.isinf(v)):
            return ["null"]
        if isnum(v):
            return [m.tostr(v)]
        if isinstance(v, str):
            import json
            return [json.dumps(v, ensure_ascii=False)]
        if isinstance(v, Opq):
            if v.k == "str" and v.t[0] in ("addr", "pda", "addrof", "b58", "b64", "dec"):
                return ['"', v, '"']
            if v.k == "str":
                return [Opq("str", ("json", v.t))]
            raise Unsupported("JSON.stringify of an unknown")
        if isinstance(v, Arr):
            out = ["["]
            for i, x in enumerate(v.a):
                out += ([","] if i else []) + (go(str(i), x, v) or ["null"])
            return out + ["]"]
        if isinstance(v, MapV):
            return ["{}"]
        if isinstance(v, Buf):
            raise Unsupported("JSON.stringify of a Buffer")
        if not isinstance(v, (Obj, Bytes)):
            raise Unsupported("JSON.stringify of %s" % type(v).__name__)
        out, n = ["{"], 0
        for x in m.keys(v):
            t = go(m.keyval(x), m.get(v, x), v)
            if t is not None:
                out += ([","] if n else []) + go_key(m.keyval(x)) + [":"] + t
                n += 1
        return out + ["}"]

    def go_key(k):
        import json
        return [json.dumps(k, ensure_ascii=False)] if isinstance(k, str) else ['"', k, '"']
    r = go("", arg(a, 0), Obj({"": arg(a, 0)}))
    return UNDEF if r is None else m.cat(r)


def js_parse(m, th, a):
    import json
    s = m.tostr(arg(a, 0))
    if isinstance(s, Opq) and s.t[0] == "file" and len(a) == 1:
        return m.models.parse_file(m, s.t[1])
    if not isinstance(s, str) or len(a) > 1:
        raise Unsupported("JSON.parse of an unknown")
    try:
        v = json.loads(s, parse_int=lambda t: int(t) if abs(int(t)) < 2 ** 53 else float(t))
    except ValueError:
        m.throw("SyntaxError", "Unexpected token in JSON")

    def go(v):
        return NULL if v is None else Arr([go(x) for x in v]) if isinstance(v, list) else Obj({k: go(x) for k, x in v.items()}) if isinstance(v, dict) else v
    return go(v)


def exact(m, v):
    """a value as a tuple that is equal for equal values only"""
    if isinstance(v, (Arr, Obj, MapV, Fn, Host, Class, Promise)):
        raise Unsupported("method of an unknown with a compound argument")
    return repr(v)


def radix(m, v, r):
    if isinstance(v, S) or not isinstance(r, int):
        return Opq("str", ("radix", v.p if isinstance(v, S) else repr(v), repr(r)))
    if isinstance(v, float) and v != int(v):
        return Opq("str", ("radix", repr(v), r))
    n, out = abs(int(v)), ""
    while n or not out:
        out = "0123456789abcdefghijklmnopqrstuvwxyz"[n % r] + out
        n //= r
    return ("-" if int(v) < 0 else "") + out


class Models:
    """chain: f(address) -> None (no account) or dict(data=[cells], owner=..., lamports=...)"""
    def __init__(self, chain=None, fail=None):
        self.chain, self.fail = chain, fail
        self.requests = []
        self.blobs = {}

    # ------------------------------------------------------------ bytes
    def byte(self, m, c):
        return c if isinstance(c, int) else self.uint(m, [c], False, False)

    def tobyte(self, m, v):
        """ToUint8"""
        v = m.num(v)
        if isinstance(v, S):
            lo, hi = m.ctx.interval(v.p)
            if 0 <= lo and hi <= 255 and all(m.ctx.kind[i] == "int" for mono, c in v.p for i in mono):
                return self.split(m, v.p, 1, False)[0]
            return ("wrap8", v.p)
        if isinstance(v, float):
            return 0 if v != v or math.isinf(v) else int(v) & 255
        return int(v) & 255

    def uint(self, m, cells, signed, big):
        n = len(cells)
        if all(isinstance(c, int) for c in cells):
            v = int.from_bytes(bytes(cells), "little", signed=signed)
            return Big(v) if big else v
        if all(isinstance(c, int) for c in cells[1:]) and not any(cells[1:]) and n > 1:
            return self.conv(m, self.uint(m, cells[:1], False, big), big)
        c0 = cells[0]
        if isinstance(c0, tuple) and c0[0] == "le":
            p = c0[1]
            if all(isinstance(c, tuple) and c[0] == "le" and c[1] == p and c[2] == i for i, c in enumerate(cells)):
                lo, hi = m.ctx.interval(p)
                if (-(1 << (8 * n - 1)) <= lo and hi < 1 << (8 * n - 1)) if signed else (0 <= lo and hi < 1 << (8 * n)):
                    return m.mk(big, p)
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        return m.ctx.var(("uint", tuple(cells), signed), lo, hi, big)

    def conv(self, m, v, big):
        return S(big, v.p) if isinstance(v, S) else Big(v) if big else int(v)

    def split(self, m, p, n, signed):
        """bytes of an integer known to fit"""
        if not p or (len(p) == 1 and not p[0][0]):
            return list(int(p[0][1] if p else 0).to_bytes(n, "little", signed=signed))
        if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
            t = m.ctx.atoms[p[0][0][0]]
            if t[0] == "uint" and len(t[1]) == n and t[2] == signed:
                return list(t[1])
            if t[0] == "uint" and not t[2] and len(t[1]) < n:
                return list(t[1]) + [0] * (n - len(t[1]))
        return [("le", p, i) for i in range(n)]

    def encint(self, m, v, n, signed, be=False):
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if v is UNDEF or v is NULL or isinstance(v, (Obj, Arr, Bytes)):
            if n >= 8 or isinstance(v, (Obj, Arr, Bytes)):
                m.throw("TypeError", "Cannot convert to a BigInt")
            return [0] * n
        if isinstance(v, str):
            if n >= 8 and v.strip().lstrip("-").isdigit():
                v = Big(int(v))
            else:
                raise Unsupported("string written as a number")
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Opq):
            raise Unsupported("unknown written as a number")
        if m.binop("<", v, lo) or m.binop(">", v, hi):
            m.throw("SolanaError", "number out of range")
        if isinstance(v, S):
            if not all(m.ctx.kind[i] == "int" for mono, c in v.p for i in mono):
                if n >= 8:
                    m.throw("RangeError", "not an integer")
                c = [("trunc", v.p, i) for i in range(n)]
            else:
                c = self.split(m, v.p, n, signed)
        else:
            if isinstance(v, float) and (v != v or v != int(v)):
                if n >= 8:
                    m.throw("RangeError", "not an integer")
                v = 0 if v != v else int(v)
            c = list(int(v).to_bytes(n, "little", signed=signed))
        return c[::-1] if be else c

    # addresses are strings
    def encaddr(self, m, v):
        if isinstance(v, str):
            b = b58dec(v)
            if b is None or len(b) != 32:
                m.throw("SolanaError", "not an address")
            return list(b)
        if isinstance(v, Opq) and v.k == "str":
            if v.t[0] == "addrof":
                return list(v.t[1])
            if v.t[0] in ("addr", "pda"):
                return [("ab", v.t, i) for i in range(32)]
            return [("ab", ("b58", v.t), i) for i in range(32)]
        m.throw("TypeError", "not an address")

    def decaddr(self, m, c):
        if all(isinstance(x, int) for x in c):
            return b58enc(bytes(c))
        if isinstance(c[0], tuple) and c[0][0] == "ab" and c[0][1][0] in ("addr", "pda") and all(x == ("ab", c[0][1], i) for i, x in enumerate(c)):
            return Opq("str", c[0][1])
        return Opq("str", ("addrof", tuple(c)))

    def cells(self, m, v, what="bytes"):
        if isinstance(v, Bytes):
            return v.c
        if isinstance(v, Arr):
            return [self.tobyte(m, x) for x in v.a]
        if isinstance(v, str):
            return list(v.encode())
        if isinstance(v, Opq) and v.k == "str":
            raise Unsupported("bytes of the string %s" % v)
        m.throw("TypeError", "%s expected" % what)

    # ------------------------------------------------------------ codecs
    def need(self, m, b, o, n):
        if len(b) - o < n or o < 0:
            m.throw("SolanaError", "codec expected %d bytes, got %d" % (n, max(0, len(b) - o)))

    def intcodec(self, name, cfg, parts):
        n, signed = U[name]

        def mk(m):
            be = isinstance(cfg, Obj) and cfg.p.get("endian") == 1 and n > 1
            enc = (lambda m, v: self.encint(m, v, n, signed, be)) if "e" in parts else None

            def dec(m, b, o):
                self.need(m, b, o, n)
                c = b[o:o + n]
                return self.uint(m, c[::-1] if be else c, signed, n >= 8), o + n
            return Codec(enc, dec if "d" in parts else None, n, name)
        return mk

    def external(self, m, mod, name):
        if mod in ("@solana/kit", "@solana/addresses", "@solana/codecs", "@solana/codecs-core", "@solana/codecs-numbers", "@solana/codecs-strings", "@solana/codecs-data-structures",
                   "@solana/accounts", "@solana/instructions", "@solana/signers", "@solana/programs", "@solana/errors", "@solana/rpc-types"):
            return self.kit(m, name)
        if mod == "@solana-program/token":
            return self.token(m, name)
        if mod in ("buffer", "node:buffer") and name == "Buffer":
            return m.read(m.globals, "Buffer")
        raise Unsupported("import %s from %s" % (name, mod))

    def kit(self, m, name):
        import re
        H = lambda f: Host(name, f)
        g = re.fullmatch(r"get(U8|U16|U32|U64|U128|I8|I16|I32|I64|I128)(Encoder|Decoder|Codec)", name)
        if g:
            parts = {"Encoder": "e", "Decoder": "d", "Codec": "ed"}[g[2]]
            return H(lambda m, th, a: self.intcodec(g[1], arg(a, 0), parts)(m))
        g = re.fullmatch(r"get(Address|PublicKey)(Encoder|Decoder|Codec)", name)
        if g:
            def deca(m, b, o):
                self.need(m, b, o, 32)
                return self.decaddr(m, b[o:o + 32]), o + 32
            return H(lambda m, th, a: Codec(self.encaddr if g[2] != "Decoder" else None, deca if g[2] != "Encoder" else None, 32, "address"))
        g = re.fullmatch(r"getBytes(Encoder|Decoder|Codec)", name)
        if g:
            return H(lambda m, th, a: Codec((lambda m, v: list(self.cells(m, v))) if g[1] != "Decoder" else None, (lambda m, b, o: (Bytes(b[o:]), len(b))) if g[1] != "Encoder" else None, None, "bytes"))
        g = re.fullmatch(r"getBoolean(Encoder|Decoder|Codec)", name)
        if g:
            def encb(m, v):
                if isinstance(v, Opq):
                    if v.t[0] == "isone":
                        return [v.t[1]]
                    return [("boolbyte", v.t)]
                return [1 if m.truth(v) else 0]

            def decb(m, b, o):
                self.need(m, b, o, 1)
                c = b[o]
                if isinstance(c, int):
                    return c == 1, o + 1
                if c[0] == "boolbyte":
                    return Opq("bool", c[1]), o + 1
                return Opq("bool", ("isone", c)), o + 1
            return H(lambda m, th, a: Codec(encb if g[1] != "Decoder" else None, decb if g[1] != "Encoder" else None, 1, "bool"))
        g = re.fullmatch(r"getUnit(Encoder|Decoder|Codec)", name)
        if g:
            return H(lambda m, th, a: Codec(lambda m, v: [], lambda m, b, o: (UNDEF, o), 0, "unit"))
        g = re.fullmatch(r"getStruct(Encoder|Decoder|Codec)", name)
        if g:
            return H(lambda m, th, a: self.struct(m, arg(a, 0)))
        g = re.fullmatch(r"getTuple(Encoder|Decoder|Codec)", name)
        if g:
            return H(lambda m, th, a: self.tuple_(m, arg(a, 0)))
        g = re.fullmatch(r"get(Enum|ScalarEnum)(Encoder|Decoder|Codec)", name)
        if g:
            return H(lambda m, th, a: self.enum(m, arg(a, 0), arg(a, 1)))
        g = re.fullmatch(r"get(DiscriminatedUnion|DataEnum)(Encoder|Decoder|Codec)", name)
        if g:
            return H(lambda m, th, a: self.union(m, arg(a, 0), arg(a, 1)))
        g = re.fullmatch(r"get(Base64|Base58|Utf8|Base16)(Encoder|Decoder|Codec)", name)
        if g:
            return H(lambda m, th, a: self.strcodec(m, g[1]))
        g = re.fullmatch(r"fix(Encoder|Decoder|Codec)Size", name)
        if g:
            return H(lambda m, th, a: self.fixsize(m, a[0], int(a[1])))
        g = re.fullmatch(r"transform(Encoder|Decoder|Codec)", name)
        if g:
            def tr(m, th, a):
                c, f = a[0], a[1]
                enc = dec = None
                fe, fd = (f, arg(a, 2)) if g[1] == "Codec" else (f, UNDEF) if g[1] == "Encoder" else (UNDEF, f)
                if c.enc:
                    enc = (lambda m, v: c.enc(m, m.call(fe, [v]))) if fe is not UNDEF else c.enc
                if c.dec:
                    def dec(m, b, o):
                        v, o2 = c.dec(m, b, o)
                        return (m.call(fd, [v, Bytes(b), o]) if fd is not UNDEF else v), o2
                return Codec(enc, dec, c.size, "transform " + c.what)
            return H(tr)
        if name in ("combineCodec", "createCodec"):
            def comb(m, th, a):
                e, d = a
                if e.size != d.size:
                    m.throw("SolanaError", "encoder and decoder sizes differ")
                return Codec(e.enc, d.dec, e.size, e.what)
            return H(comb)
        if name == "containsBytes":
            def cb(m, th, a):
                d, b, o = self.cells(m, a[0]), self.cells(m, a[1]), int(arg(a, 2)) if arg(a, 2) is not UNDEF else 0
                if len(d) < o + len(b):
                    return False
                for x, y in zip(d[o:o + len(b)], b):
                    if x == y:
                        continue
                    if isinstance(x, int) and isinstance(y, int):
                        return False
                    if not m.numeq(self.byte(m, x), self.byte(m, y)):
                        return False
                return True
            return H(cb)
        if name in ("AccountRole",):
            o = Obj({k: v for k, v in ROLES.items()})
            o.p.update({str(v): k for k, v in ROLES.items()})
            return o
        if name == "Endian":
            return Obj({"Little": 0, "Big": 1, "0": "Little", "1": "Big"})
        if name in ("upgradeRoleToSigner", "upgradeRoleToWritable", "downgradeRoleToReadonly", "downgradeRoleToNonSigner", "isSignerRole", "isWritableRole"):
            f = {"upgradeRoleToSigner": lambda r: r | 2, "upgradeRoleToWritable": lambda r: r | 1, "downgradeRoleToReadonly": lambda r: r & 2, "downgradeRoleToNonSigner": lambda r: r & 1,
                 "isSignerRole": lambda r: r >= 2, "isWritableRole": lambda r: bool(r & 1)}[name]
            return H(lambda m, th, a: f(a[0]))
        if name == "mergeRoles":
            return H(lambda m, th, a: a[0] | a[1])
        if name == "isTransactionSigner":
            return H(lambda m, th, a: isinstance(a[0], Obj) and any(isinstance(a[0].p.get(k), (Fn, Host)) for k in ("signTransactions", "modifyAndSignTransactions", "signAndSendTransactions")))
        if name == "isProgramDerivedAddress":
            return H(lambda m, th, a: isinstance(a[0], Arr) and len(a[0].a) == 2 and m.typeof(a[0].a[1]) == "number" and m.typeof(a[0].a[0]) == "string")
        if name in ("isAddress",):
            return H(lambda m, th, a: self.isaddr(a[0]))
        if name in ("address", "assertIsAddress"):
            def ad(m, th, a):
                if not self.isaddr(a[0]):
                    m.throw("SolanaError", "not an address")
                return a[0] if name == "address" else UNDEF
            return H(ad)
        if name in ("lamports", "unwrapOption", "some"):
            raise Unsupported("kit " + name)
        if name == "getProgramDerivedAddress":
            return H(lambda m, th, a: self.promised(lambda: self.pda(m, m.get(a[0], "programAddress"), m.iterate(m.get(a[0], "seeds")))))
        if name == "isProgramError":
            def ipe(m, th, a):
                self.requests.append(("isProgramError", a))
                return Opq("bool", ("isProgramError",))
            return H(ipe)
        if name in ("fetchEncodedAccount", "fetchEncodedAccounts"):
            return H(lambda m, th, a: self.promised(lambda: self.encoded(m, name, a)))
        if name == "parseBase64RpcAccount":
            return H(lambda m, th, a: self.parsed(m, a[0], a[1]))
        if name == "decodeAccount":
            return H(lambda m, th, a: self.decode_account(m, a[0], a[1]))
        if name in ("assertAccountExists", "assertAccountsExist"):
            def ex(m, th, a):
                for x in (m.iterate(a[0]) if name.endswith("sExist") else [a[0]]):
                    if not m.truth(m.get(x, "exists")):
                        m.throw("SolanaError", "account not found")
                return UNDEF
            return H(ex)
        if name in ("assertAccountDecoded", "assertAccountsDecoded"):
            def ade(m, th, a):
                for x in (m.iterate(a[0]) if name.endswith("sDecoded") else [a[0]]):
                    if isinstance(m.get(x, "data"), Bytes):
                        m.throw("SolanaError", "expected a decoded account")
                return UNDEF
            return H(ade)
        raise Unsupported("the kit function %s is not modelled" % name)

    def isaddr(self, v):
        if isinstance(v, str):
            b = b58dec(v)
            return b is not None and len(b) == 32
        return isinstance(v, Opq) and v.k == "str" and v.t[0] in ("addr", "pda", "addrof")

    def promised(self, f):
        try:
            return Promise(True, f())
        except JSThrow as e:
            return Promise(False, e.v)

    def struct(self, m, fields):
        fs = [(f.a[0], f.a[1]) for f in m.iterate(fields)]
        size = sum(c.size for k, c in fs) if all(c.size is not None for k, c in fs) else None

        def enc(m, v):
            out = []
            for k, c in fs:
                out += c.enc(m, m.get(v, k))
            return out

        def dec(m, b, o):
            r = Obj()
            for k, c in fs:
                r.p[k], o = c.dec(m, b, o)
            return r, o
        return Codec(enc, dec, size, "struct")

    def tuple_(self, m, items):
        cs = m.iterate(items)

        def enc(m, v):
            xs = m.iterate(v)
            if len(xs) != len(cs):
                m.throw("SolanaError", "wrong number of items")
            return sum([c.enc(m, x) for c, x in zip(cs, xs)], [])

        def dec(m, b, o):
            r = []
            for c in cs:
                x, o = c.dec(m, b, o)
                r.append(x)
            return Arr(r), o
        return Codec(enc, dec, sum(c.size for c in cs) if all(c.size is not None for c in cs) else None, "tuple")

    def prefix(self, m, cfg):
        c = m.get(cfg, "size") if isinstance(cfg, Obj) else UNDEF
        return self.intcodec("U8", UNDEF, "ed")(m) if c is UNDEF else c

    def enum(self, m, e, cfg):
        keys = [k for k in m.keys(e) if not (isinstance(e.p.get(str(e.p[k])), (int, float)) and not isinstance(e.p[k], (int, float)))]
        keys = [k for k in keys if not k.isdigit()]
        vals = [e.p[k] for k in keys]
        direct = isinstance(cfg, Obj) and cfg.p.get("useValuesAsDiscriminators") is True
        px = self.prefix(m, cfg)

        def index(m, v):
            for i in range(len(vals) - 1, -1, -1):
                if m.seq(v, vals[i]):
                    return i
            for i in range(len(keys) - 1, -1, -1):
                if m.seq(v, keys[i]):
                    return i
            m.throw("SolanaError", "invalid enum variant")

        def enc(m, v):
            i = index(m, v)
            return px.enc(m, vals[i] if direct else i)

        def dec(m, b, o):
            i, o = px.dec(m, b, o)
            if isinstance(i, S):
                raise Unsupported("enum of unknown discriminant")
            i = int(i)
            if direct:
                if i not in vals:
                    m.throw("SolanaError", "enum discriminator out of range")
                return i, o
            if not 0 <= i < len(vals):
                m.throw("SolanaError", "enum discriminator out of range")
            return vals[i], o
        return Codec(enc, dec, px.size, "enum")

    def union(self, m, variants, cfg):
        vs = [(v.a[0], v.a[1]) for v in m.iterate(variants)]
        k = m.get(cfg, "discriminator") if isinstance(cfg, Obj) else UNDEF
        k = "__kind" if k is UNDEF else k
        px = self.prefix(m, cfg)

        def enc(m, v):
            d = m.get(v, k)
            for i, (n, c) in enumerate(vs):
                if m.seq(d, n):
                    return px.enc(m, i) + c.enc(m, v)
            m.throw("SolanaError", "invalid discriminated union variant")

        def dec(m, b, o):
            if o >= len(b):
                m.throw("SolanaError", "cannot decode an empty byte array")
            i, o = px.dec(m, b, o)
            if isinstance(i, S):
                raise Unsupported("union of unknown discriminant")
            if not 0 <= int(i) < len(vs):
                m.throw("SolanaError", "discriminator out of range")
            n, c = vs[int(i)]
            x, o = c.dec(m, b, o)
            r = Obj({k: n})
            if isinstance(x, Obj):
                r.p.update(x.p)
            return r, o
        sizes = {c.size for n, c in vs}
        size = px.size + sizes.pop() if len(sizes) == 1 and None not in sizes and px.size is not None else None
        return Codec(enc, dec, size, "union")

    def strcodec(self, m, kind):
        tag = {"Base64": "b64", "Base58": "b58"}.get(kind)

        def enc(m, v):
            if isinstance(v, Opq) and v.k == "str":
                if v.t[0] == tag and v.t[1] in self.blobs:
                    return list(self.blobs[v.t[1]])
                if kind == "Base58" and v.t[0] in ("addr", "pda", "addrof"):
                    return self.encaddr(m, v)
                return [("decoded", kind, v.t, i) for i in range(4096)]
            if not isinstance(v, str):
                m.throw("TypeError", "string expected")
            if kind == "Utf8":
                return list(v.encode())
            if kind == "Base58":
                b = b58dec(v)
                if b is None:
                    m.throw("SolanaError", "not base58")
                return list(b)
            if kind == "Base64":
                import base64
                return list(base64.b64decode(v + "=" * (-len(v) % 4)))
            return list(bytes.fromhex(v))

        def dec(m, b, o):
            return self.b64(b[o:], tag or kind), len(b)
        return Codec(enc, dec, None, kind)

    def utf8(self, m, v, n):
        if v.t[0] == "chr":
            p = v.t[1]
            if m.ctx.sign(padd(p, pconst(128), -1), "<"):
                return self.split(m, p, 1, False)
            n = 2 if m.ctx.sign(padd(p, pconst(2048), -1), "<") else 3
        return [("utf8", v.t, i) for i in range(n)]

    def b64(self, cells, tag="b64"):
        """the encoded string of some bytes"""
        k = "#%d" % len(self.blobs)
        for i, c in self.blobs.items():
            if c == list(cells):
                k = i
        self.blobs[k] = list(cells)
        return Opq("str", (tag, k))

    def fixsize(self, m, c, n):
        def enc(m, v):
            x = c.enc(m, v)
            return x[:n] + [0] * (n - len(x))

        def dec(m, b, o):
            self.need(m, b, o, n)
            s = b[o:o + n]
            if c.size is not None:
                s = s[:c.size] + [0] * (c.size - len(s))
            return c.dec(m, s, 0)[0], o + n
        return Codec(enc if c.enc else None, dec if c.dec else None, n, "fixed %s" % c.what)

    # ------------------------------------------------------------ addresses
    def pda(self, m, program, seeds):
        cells = []
        if len(seeds) > 16:
            m.throw("SolanaError", "too many seeds")
        for s in seeds:
            c = self.cells(m, s, "seed")
            if len(c) > 32:
                m.throw("SolanaError", "seed too long")
            cells += c
        return self.derived(m, program, cells)

    def derived(self, m, program, cells):
        t = ("pda", self.akey(m, program), tuple(cells))
        r = Arr([Opq("str", t), m.ctx.var(("bump",) + t[1:], 0, 255, False)])
        r.frozen = True
        return r

    def akey(self, m, a):
        """identity of an address, whichever way it is held"""
        c = self.encaddr(m, a)
        x = self.decaddr(m, c)
        return x if isinstance(x, str) else x.t

    # ------------------------------------------------------------ chain
    def account(self, m, a):
        if not self.isaddr(a):
            m.throw("SolanaError", "Invalid param: not an address")
        return self.chain(a if isinstance(a, str) else a.t)

    def rpc(self, m):
        def send(f):
            o = Obj({"send": Host("send", lambda m, th, a: self.promised(f))})
            return o

        def wrap(v):
            return Obj({"context": Obj({"slot": Big(1)}), "value": v})

        def info(m, x, cfg, default):
            if x is None:
                return NULL
            e = m.get(cfg, "encoding") if isinstance(cfg, Obj) else UNDEF
            c = list(x["data"])
            sl = m.get(cfg, "dataSlice") if isinstance(cfg, Obj) else UNDEF
            if isinstance(sl, Obj):
                off, n = int(sl.p["offset"]), int(sl.p["length"])
                c = c[off:off + n]
            e = default if e is UNDEF else e
            if e == "base64":
                d = Arr([self.b64(c), "base64"])
            elif e == "base58":
                d = Arr([self.b64(c, "b58"), "base58"])
            elif e == "binary":
                d = self.b64(c, "b58")
            else:
                d = Opq("any", ("json", self.b64(c, e).t))
            return Obj({"data": d, "executable": False, "lamports": Big(x.get("lamports", 1)), "owner": x["owner"], "rentEpoch": Big(0), "space": Big(len(x["data"]))})

        def many(m, th, a):
            def f():
                keys = m.iterate(arg(a, 0))
                self.requests.append(("getMultipleAccounts", list(keys), arg(a, 1)))
                if self.fail:
                    raise JSThrow(Obj({"message": "rpc failed", "name": "Error"}, "RpcError"))
                if len(keys) > RPC_MAX:
                    m.throw("SolanaError", "Too many inputs provided; max %d" % RPC_MAX)
                return wrap(Arr([info(m, self.account(m, k), arg(a, 1), "base64") for k in keys]))
            return send(f)

        def one(m, th, a):
            def f():
                self.requests.append(("getAccountInfo", [arg(a, 0)], arg(a, 1)))
                if self.fail:
                    raise JSThrow(Obj({"message": "rpc failed", "name": "Error"}, "RpcError"))
                return wrap(info(m, self.account(m, arg(a, 0)), arg(a, 1), "binary"))
            return send(f)

        def supply(m, th, a):
            def f():
                self.requests.append(("getTokenSupply", [arg(a, 0)], arg(a, 1)))
                if self.fail:
                    raise JSThrow(Obj({"message": "rpc failed", "name": "Error"}, "RpcError"))
                x = self.account(m, arg(a, 0))
                if x is None or len(x["data"]) != 82:
                    m.throw("SolanaError", "not a token mint")
                v = self.uint(m, x["data"][36:44], False, True)
                d = self.uint(m, x["data"][44:45], False, False)
                return wrap(Obj({"amount": m.tostr(v), "decimals": d, "uiAmountString": Opq("str", ("ui", repr(v)))}))
            return send(f)

        def balance(m, th, a):
            def f():
                self.requests.append(("getTokenAccountBalance", [arg(a, 0)], arg(a, 1)))
                if self.fail:
                    raise JSThrow(Obj({"message": "rpc failed", "name": "Error"}, "RpcError"))
                x = self.account(m, arg(a, 0))
                if x is None or len(x["data"]) != 165:
                    m.throw("SolanaError", "not a token account")
                v = self.uint(m, x["data"][64:72], False, True)
                return wrap(Obj({"amount": m.tostr(v), "decimals": 6, "uiAmountString": Opq("str", ("ui", repr(v)))}))
            return send(f)
        return Obj({"getMultipleAccounts": Host("getMultipleAccounts", many), "getAccountInfo": Host("getAccountInfo", one), "getTokenSupply": Host("getTokenSupply", supply),
                    "getTokenAccountBalance": Host("getTokenAccountBalance", balance)}, cls="Rpc")

    def fetch_config(self, m, cfg):
        o = Obj()
        if isinstance(cfg, Obj):
            o.p.update(cfg.p)
        o.p["encoding"] = "base64"
        return o

    def parsed(self, m, a, v):
        if v is NULL:
            r = Obj({"address": a, "exists": False})
        else:
            r = Obj({"address": a, "data": Bytes(self.strcodec(m, "Base64").enc(m, m.get(m.get(v, "data"), "0"))), "executable": m.get(v, "executable"), "exists": True,
                     "lamports": m.get(v, "lamports"), "programAddress": m.get(v, "owner"), "space": m.get(v, "space")})
        r.frozen = True
        return r

    def encoded(self, m, name, a):
        rpc, x, cfg = a[0], arg(a, 1), arg(a, 2)
        cfg = self.fetch_config(m, cfg)
        if name == "fetchEncodedAccount":
            req = m.call(m.get(rpc, "getAccountInfo"), [x, cfg], rpc)
            v = m.settle(m.call(m.get(req, "send"), [], req))
            return self.parsed(m, x, m.get(v, "value"))
        req = m.call(m.get(rpc, "getMultipleAccounts"), [x, cfg], rpc)
        v = m.settle(m.call(m.get(req, "send"), [], req))
        keys = m.iterate(x)
        return Arr([self.parsed(m, k, y) for k, y in zip(keys, m.iterate(m.get(v, "value")))])

    def decode_account(self, m, acc, dec):
        if "exists" in m.keys(acc) and not m.truth(m.get(acc, "exists")):
            return acc
        r = Obj(acc.p)
        r.p["data"] = self.run_dec(m, dec, [m.get(acc, "data")])
        r.frozen = True
        return r

    def run_dec(self, m, c, a):
        b, o = self.cells(m, a[0]), int(arg(a, 1)) if arg(a, 1) is not UNDEF else 0
        if c.dec is None:
            m.throw("TypeError", "not a decoder")
        return c.dec(m, list(b), o)[0]

    # ------------------------------------------------------------ token library
    def token(self, m, name):
        H = lambda f: Host(name, f)
        if name in ("TOKEN_PROGRAM_ADDRESS",):
            return "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"
        if name == "ASSOCIATED_TOKEN_PROGRAM_ADDRESS":
            return "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"
        if name == "findAssociatedTokenPda":
            def f(m, th, a):
                c = []
                for k in ("owner", "tokenProgram", "mint"):
                    c += self.encaddr(m, m.get(a[0], k))
                return self.derived(m, "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL", c)
            return H(lambda m, th, a: self.promised(lambda: f(m, th, a)))
        if name in ("getTokenDecoder", "getTokenCodec", "getMintDecoder", "getMintCodec"):
            return H(lambda m, th, a: self.tok(m, "Token" in name))
        if name in ("decodeToken", "decodeMint"):
            return H(lambda m, th, a: self.decode_account(m, a[0], self.tok(m, name == "decodeToken")))
        if name in ("getTokenSize", "getMintSize"):
            return H(lambda m, th, a: 165 if "Token" in name else 82)
        if name in ("fetchToken", "fetchMint", "fetchMaybeToken", "fetchMaybeMint"):
            def f(m, th, a):
                r = self.decode_account(m, self.encoded(m, "fetchEncodedAccount", a), self.tok(m, "Token" in name))
                if "Maybe" not in name and not m.truth(m.get(r, "exists")):
                    m.throw("SolanaError", "account not found")
                return r
            return H(lambda m, th, a: self.promised(lambda: f(m, th, a)))
        raise Unsupported("the token library's %s is not modelled" % name)

    def tok(self, m, account):
        n = 165 if account else 82

        def dec(m, b, o):
            self.need(m, b, o, n)
            b = b[o:o + n]
            u = lambda i, k, big=True: self.uint(m, b[i:i + k], False, big)
            opt = lambda i, k: Opq("any", ("option", tuple(b[i:i + k])))
            if account:
                r = Obj({"mint": self.decaddr(m, b[0:32]), "owner": self.decaddr(m, b[32:64]), "amount": u(64, 8), "delegate": opt(72, 36), "state": u(108, 1, False),
                         "isNative": opt(109, 12), "delegatedAmount": u(121, 8), "closeAuthority": opt(129, 36)})
            else:
                r = Obj({"mintAuthority": opt(0, 36), "supply": u(36, 8), "decimals": u(44, 1, False), "isInitialized": Opq("bool", ("isone", b[45])), "freezeAuthority": opt(46, 36)})
            return r, o + n
        return Codec(None, dec, n, "token account" if account else "mint")

    # ------------------------------------------------------------ methods of values
    def method(self, m, o, k):
        if k == "@@iterator" and isinstance(o, (Arr, Bytes, str, MapV)) or k == "@@iterator" and isinstance(o, Iter) and not o.aio:
            return Host(k, lambda m, th, a: m.iterator(o))
        if isinstance(o, Iter):
            if k == "@@asyncIterator" and o.aio:
                return Host(k, lambda m, th, a: o)
            return self.meth(ITER, o, k)
        if isinstance(o, Regex):
            return {"source": o.src, "flags": o.flags, "global": o.all}[k] if k in ("source", "flags", "global") else self.meth(REGEX, o, k)
        if isinstance(o, Arr):
            return self.meth(ARR, o, k)
        if isinstance(o, Bytes):
            return self.meth(BYTES, o, k)
        if isinstance(o, str):
            return self.meth(STR, o, k)
        if isinstance(o, MapV):
            if k == "size":
                return len(o.k)
            return self.meth(MAP, o, k)
        if isinstance(o, Promise):
            return self.meth(PROM, o, k)
        if isinstance(o, Codec):
            return self.codec_method(m, o, k)
        if isinstance(o, (Fn, Host)):
            return self.meth(FN, o, k)
        if isinstance(o, (S, Big, int, float)) and not isinstance(o, bool):
            return self.meth(NUM, o, k)
        if isinstance(o, HObj) and k in o.hm:
            f = o.hm[k]
            return Host(k, lambda m, th, a: f(m, th, a))
        if isinstance(o, Obj):
            return self.meth(OBJ, o, k)
        if isinstance(o, Opq):
            if o.k == "str":
                if k == "length":
                    if o.t[0] in ("addr", "pda", "addrof"):
                        return m.ctx.var(("len", o.t), 32, 44, False)
                    return m.ctx.var(("len", o.t), 0, 2 ** 29, False)
                if k in ("toString", "valueOf"):
                    return Host(k, lambda m, th, a: o)
                if k == "trim" and o.t[0] in ("addr", "pda", "addrof", "b64", "b58", "dec"):
                    return Host(k, lambda m, th, a: o)
                if k in ("includes", "startsWith", "endsWith") and o.t[0] in ("dec", "addr", "pda", "addrof"):
                    return Host(k, lambda m, th, a: within(m, o, k, a))
                if k in ("match", "search") and o.t[0] in ("dec", "addr", "pda", "addrof"):
                    return Host(k, lambda m, th, a: re_on(m, need_re(arg(a, 0)), o, k))
                if k.isdigit():
                    return Opq("str", ("char", o.t, int(k)))
                if k in STR:
                    return Host(k, lambda m, th, a: Opq("any", ("method", k, o.t) + tuple(exact(m, x) for x in a)))
                return None
            return Opq("any", ("get", o.t, k))
        return None

    def meth(self, table, o, k):
        f = table.get(k)
        if f is None:
            return None
        return Host(k, lambda m, th, a: f(m, th, a))

    def codec_method(self, m, c, k):
        if k == "fixedSize":
            return UNDEF if c.size is None else c.size
        if k in ("maxSize",):
            return UNDEF if c.size is None else c.size
        if k == "encode" and c.enc:
            return Host(k, lambda m, th, a: Bytes(c.enc(m, arg(a, 0))))
        if k == "decode" and c.dec:
            return Host(k, lambda m, th, a: self.run_dec(m, c, a))
        if k == "read" and c.dec:
            def rd(m, th, a):
                v, o = c.dec(m, list(self.cells(m, a[0])), int(a[1]))
                return Arr([v, o])
            return Host(k, rd)
        if k == "write" and c.enc:
            def wr(m, th, a):
                x, o = c.enc(m, a[0]), int(a[2])
                if o + len(x) > a[1].n:
                    m.throw("RangeError", "offset is out of bounds")
                a[1].write(o, x)
                return o + len(x)
            return Host(k, wr)
        if k == "getSizeFromValue" and c.enc:
            return Host(k, lambda m, th, a: len(c.enc(m, a[0])))
        return None

    # ------------------------------------------------------------ globals
    def setup(self, m, env):
        g = m.globals.v

        def H(name, f, new=None, **props):
            h = Host(name, f)
            if new:
                h.new = new
            h.p.update(props)
            g[name] = Cell(h)
            return h
        F = lambda f: Host("fn", f)
        g["NaN"], g["Infinity"] = Cell(float("nan")), Cell(INF)

        def err(cls):
            def new(a):
                o = Obj({"message": "" if arg(a, 0) is UNDEF else m.tostr(arg(a, 0)), "name": cls}, cls)
                if isinstance(arg(a, 1), Obj) and "cause" in a[1].p:
                    o.p["cause"] = a[1].p["cause"]
                return o
            h = H(cls, lambda m, th, a: new(a), new)
        for c in ("Error", "TypeError", "RangeError", "SyntaxError", "ReferenceError", "AggregateError"):
            err(c)
        nop = F(lambda m, th, a: UNDEF)

        def log(m, th, a):
            m.logs.append(a)
            return UNDEF
        g["console"] = Cell(Obj({k: F(log) for k in ("log", "error", "warn", "info", "debug", "table", "trace")}))
        g["process"] = Cell(Obj({"env": Obj({"NODE_ENV": env} if env is not None else {}), "argv": Arr([]), "exit": nop}))
        g["globalThis"] = Cell(Obj())

        def bigint(m, th, a):
            v = arg(a, 0)
            if isinstance(v, S):
                if v.big:
                    return v
                if any(m.ctx.kind[i] != "int" for mono, c in v.p for i in mono):
                    if any(m.ctx.kind[i] == "frac" for mono, c in v.p for i in mono) or m.ctx.split(("notint", v.p), "%s is no integer" % m.ctx.pshow(v.p)):
                        m.throw("RangeError", "not an integer")
                return S(True, v.p)
            if isinstance(v, Big):
                return v
            if isinstance(v, bool):
                return Big(int(v))
            if isinstance(v, (int, float)):
                if v != v or v != int(v) if not (isinstance(v, float) and math.isinf(v)) else True:
                    m.throw("RangeError", "not an integer")
                return Big(int(v))
            if isinstance(v, str):
                try:
                    if "_" in v or re.match(r"\s*[+-]0[xob]", v, re.I):
                        raise ValueError
                    return Big(int(v.strip() or "0", 0 if v.strip()[:2].lower() in ("0x", "0b", "0o") else 10))
                except ValueError:
                    m.throw("SyntaxError", "Cannot convert to a BigInt")
            if isinstance(v, Opq) and v.k == "str" and v.t[0] == "dec":
                return S(True, v.t[1])
            if isinstance(v, Opq):
                raise Unsupported("BigInt of %s" % v)
            m.throw("TypeError", "Cannot convert to a BigInt")

        def asn(signed):
            def f(m, th, a):
                n, v = int(a[0]), a[1]
                if isinstance(v, S):
                    lo, hi = m.ctx.interval(v.p)
                    if (-(1 << (n - 1)) <= lo and hi < 1 << (n - 1)) if signed else (0 <= lo and hi < 1 << n):
                        return v
                    t = m.ctx.atoms[v.p[0][0][0]] if len(v.p) == 1 and v.p[0][1] == 1 and len(v.p[0][0]) == 1 else None
                    if t and t[0] == "uint" and 8 * len(t[1]) == n:
                        return self.uint(m, list(t[1]), signed, True)
                    return m.ctx.var(("as%s%d" % ("int" if signed else "uint", n), v.p), -(1 << (n - 1)) if signed else 0, (1 << (n - 1)) - 1 if signed else (1 << n) - 1)
                x = int(v) & ((1 << n) - 1)
                return Big(x - (1 << n) if signed and x >> (n - 1) else x)
            return F(f)
        H("BigInt", bigint, asIntN=asn(True), asUintN=asn(False))

        def number(m, th, a):
            v = arg(a, 0) if a else 0
            if isinstance(v, S):
                return m.rounded(v.p) if v.big else v
            if isinstance(v, Big):
                return int(v) if abs(int(v)) <= 2 ** 53 else float(int(v))
            if isinstance(v, Opq) and v.k == "str" and v.t[0] == "dec":
                return near(m, v.t[1])
            return m.num(v)

        def isint(m, th, a):
            v = arg(a, 0)
            if isinstance(v, S) and not v.big:
                if all(m.ctx.kind[i] == "int" for mono, c in v.p for i in mono):
                    return True
                if m.ctx.integral_frac(v.p):
                    return False
                return m.ctx.split(("int", v.p), "%s is an integer" % m.ctx.pshow(v.p))
            return isinstance(v, (int, float)) and not isinstance(v, (bool, Big)) and not (isinstance(v, float) and (v != v or math.isinf(v) or v != int(v)))

        def safeint(m, th, a):
            if not isint(m, th, a):
                return False
            return m.binop("<=", a[0], 2 ** 53 - 1) and m.binop(">=", a[0], -(2 ** 53 - 1))

        def finite(m, th, a):
            v = arg(a, 0)
            return isinstance(v, S) and not v.big or (isnum(v) and not (v != v or v in (INF, -INF)))

        def isnan(m, th, a):
            v = arg(a, 0)
            return isinstance(v, float) and v != v
        H("Number", number, isInteger=F(isint), isSafeInteger=F(safeint), isFinite=F(finite), isNaN=F(isnan), MAX_SAFE_INTEGER=2 ** 53 - 1, MIN_SAFE_INTEGER=-(2 ** 53 - 1), EPSILON=2 ** -52,
          parseInt=F(lambda m, th, a: parse_int(m, a)), parseFloat=F(parsefloat), NaN=float("nan"), POSITIVE_INFINITY=INF, NEGATIVE_INFINITY=-INF)
        H("isNaN", lambda m, th, a: isnan(m, th, [m.num(arg(a, 0))]))
        H("isFinite", lambda m, th, a: finite(m, th, [m.num(arg(a, 0))]))

        def parse_int(m, a):
            import re
            v = arg(a, 0)
            if isinstance(v, S):
                return rnd("trunc")(m, UNDEF, [v])
            if isinstance(v, Opq) and v.k == "str" and v.t[0] == "dec" and (arg(a, 1) is UNDEF or a[1] == 10):
                return near(m, v.t[1])
            if isinstance(v, Opq):
                raise Unsupported("parseInt of %s" % v)
            base = 10 if arg(a, 1) is UNDEF else int(a[1])
            g_ = re.match(r"\s*([+-]?[0-9a-zA-Z]+)", m.tostr(v))
            s = g_[1] if g_ else ""
            while s:
                try:
                    if "_" in s:
                        raise ValueError
                    return int(s, base)
                except ValueError:
                    s = s[:-1]
            return float("nan")
        H("parseInt", lambda m, th, a: parse_int(m, a))
        H("parseFloat", parsefloat)
        H("Boolean", lambda m, th, a: m.truth(arg(a, 0)))
        def fromcode(m, th, a):
            def one(v):
                v = m.num(v)
                if not isinstance(v, S):
                    return chr(int(v) & 0xffff)
                if any(m.ctx.kind[i] != "int" for mono, c in v.p for i in mono) or m.ctx.sign(v.p, "<") or not m.ctx.sign(padd(v.p, pconst(0x10000), -1), "<"):
                    raise Unsupported("character of an unknown code")
                return Opq("str", ("chr", v.p))
            return m.cat([one(x) for x in a]) if a else ""
        H("String", lambda m, th, a: m.tostr(arg(a, 0)) if a else "", fromCharCode=F(fromcode), fromCodePoint=F(fromcode))
        H("Symbol", lambda m, th, a: "@@%d:%s" % (fresh(m), arg(a, 0)), iterator="@@iterator", asyncIterator="@@asyncIterator")
        H("setTimeout", lambda m, th, a: (m.call(a[0], a[2:]), UNDEF)[1])
        H("clearTimeout", lambda m, th, a: UNDEF)
        H("queueMicrotask", lambda m, th, a: (m.call(a[0], []), UNDEF)[1])
        H("structuredClone", lambda m, th, a: clone(a[0]))

        def rnd(kind):
            def f(m, th, a):
                v = m.num(arg(a, 0))
                if isinstance(v, S):
                    if v.big:
                        m.throw("TypeError", "Cannot convert a BigInt value to a number")
                    if all(m.ctx.kind[i] == "int" for mono, c in v.p for i in mono):
                        return v
                    t = m.ratio(v.p)
                    if t and kind in ("floor", "trunc") and (kind == "trunc" or m.ctx.least(t[0]) >= 0):
                        return m.mk(False, m.quot(*t))
                    lo, hi = m.ctx.interval(v.p)
                    if lo != -INF and hi != INF and math.floor(lo) == math.floor(hi):
                        k = math.floor(lo)
                        if kind == "floor" or (kind == "trunc" and k >= 0):
                            return k
                        if kind in ("ceil", "trunc"):
                            return k + 1
                    l2, h2 = (lo if lo == -INF else math.floor(lo)), (hi if hi == INF else math.ceil(hi))
                    return m.ctx.var(("floor" if kind == "trunc" and m.ctx.least(v.p) >= 0 else kind, v.p), l2, h2, False)
                if isinstance(v, float) and (v != v or math.isinf(v)):
                    return v
                if kind == "round":
                    return math.floor(v + 0.5)
                return {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[kind](v)
            return f
        self.round = lambda m, kind, v: rnd(kind)(m, UNDEF, [v])

        def mm(big):
            def f(m, th, a):
                if not a:
                    return -INF if big else INF
                r = m.num(a[0])
                if isbig(r):
                    m.throw("TypeError", "Cannot convert a BigInt value to a number")
                for x in a[1:]:
                    x = m.num(x)
                    if isbig(x):
                        m.throw("TypeError", "Cannot convert a BigInt value to a number")
                    if isinstance(x, float) and x != x:
                        return x
                    if isinstance(r, float) and r != r:
                        return r
                    if m.binop(">" if big else "<", x, r):
                        r = x
                return r
            return F(f)

        def mathabs(m, th, a):
            v = m.num(arg(a, 0))
            if m.binop("<", v, 0):
                return m.arith("*", v, -1)
            return v
        g["Math"] = Cell(Obj({"floor": F(rnd("floor")), "ceil": F(rnd("ceil")), "trunc": F(rnd("trunc")), "round": F(rnd("round")), "max": mm(True), "min": mm(False), "abs": F(mathabs), "sign": F(lambda m, th, a: (lambda v: 0 if m.numeq(v, 0) else -1 if m.binop("<", v, 0) else 1)(m.num(arg(a, 0)))),
                              "pow": F(lambda m, th, a: m.arith("**", m.num(a[0]), m.num(a[1]))), "random": F(lambda m, th, a: m.ctx.var(("random", m.nodes), 0, 1, False, "real")), "PI": math.pi}))
        g["Date"] = Cell(Host("Date", lambda m, th, a: Opq("str", ("date",))))
        g["Date"].x.p["now"] = F(lambda m, th, a: m.ctx.var(("now",), 0, 2 ** 53, False))
        g["JSON"] = Cell(Obj({"stringify": F(js_stringify), "parse": F(js_parse)}))
        # Object
        def entries(m, th, a):
            return Arr([Arr([m.keyval(k), m.get(a[0], k)]) for k in m.keys(a[0])])

        def assign(m, th, a):
            for s in a[1:]:
                if s is UNDEF or s is NULL:
                    continue
                for k in m.keys(s):
                    m.put(a[0], k, m.get(s, k))
            return a[0]

        def freeze(m, th, a):
            if isinstance(a[0], (Obj, Arr)):
                a[0].frozen = True
            return a[0]

        def fromentries(m, th, a):
            o = Obj()
            for e in m.iterate(a[0]):
                o.p[m.pkey(m.get(e, "0"))] = m.get(e, "1")
            return o
        H("Object", lambda m, th, a: arg(a, 0), lambda a: Obj(), entries=F(entries), keys=F(lambda m, th, a: Arr([m.keyval(k) for k in m.keys(a[0])])), values=F(lambda m, th, a: Arr([m.get(a[0], k) for k in m.keys(a[0])])), assign=F(assign),
          freeze=F(freeze), isFrozen=F(lambda m, th, a: getattr(a[0], "frozen", True)), fromEntries=F(fromentries), create=F(lambda m, th, a: Obj()), hasOwn=F(lambda m, th, a: m.pkey(a[1]) in m.keys(a[0])),
          is_=F(lambda m, th, a: m.seq(a[0], a[1]) or all(isinstance(x, float) and x != x for x in a[:2])))
        g["Object"].x.p["is"] = g["Object"].x.p.pop("is_")

        # Array
        def length(m, v):
            n = m.num(v)
            if isinstance(n, S):
                n = rnd("trunc")(m, UNDEF, [n])
                if isinstance(n, S):
                    if m.ctx.interval(n.p)[1] <= 0:
                        return 0
                    raise Unsupported("array of unknown length")
            if isinstance(n, float):
                if n != n:
                    return 0
                if math.isinf(n):
                    if n < 0:
                        return 0
                    m.throw("RangeError", "Invalid array length")
                n = int(n)
            if n > 2 ** 32 - 1:
                m.throw("RangeError", "Invalid array length")
            if n > 70000:
                raise Unsupported("array of length %d" % n)
            return max(0, n)

        def items(m, v):
            if isinstance(v, Obj):
                n = length(m, m.get(v, "length"))
                return [m.get(v, str(i)) for i in range(n)]
            return m.iterate(v)

        def afrom(m, th, a):
            xs = items(m, a[0])
            f = arg(a, 1)
            return Arr(xs if f is UNDEF else [m.call(f, [x, i]) for i, x in enumerate(xs)])

        def anew(a):
            if len(a) == 1 and isnum(a[0]):
                if isinstance(a[0], float) or a[0] < 0:
                    m.throw("RangeError", "Invalid array length")
                return Arr([UNDEF] * length(m, a[0]))
            return Arr(a)

        def afromasync(m, th, a):
            def f():
                xs = [m.settle(x) for x in items(m, a[0])]
                return Arr(xs if arg(a, 1) is UNDEF else [m.settle(m.call(a[1], [x, i])) for i, x in enumerate(xs)])
            return self.promised(f)
        H("Array", lambda m, th, a: anew(a), anew, isArray=F(lambda m, th, a: isinstance(arg(a, 0), Arr)), of=F(lambda m, th, a: Arr(a)), fromAsync=F(afromasync))
        g["Array"].x.p["from"] = F(afrom)

        # bytes
        def window(v, a, cls):
            off = 0 if arg(a, 1) is UNDEF else int(a[1])
            n = v.n - off if arg(a, 2) is UNDEF else int(a[2])
            if off < 0 or n < 0 or off + n > v.n:
                m.throw("RangeError", "invalid typed array length")
            return v.view(off, n, cls)

        def abnew(a):
            return ABuf([0] * length(m, arg(a, 0)))
        H("ArrayBuffer", lambda m, th, a: m.throw("TypeError", "requires new"), abnew, isView=F(lambda m, th, a: isinstance(arg(a, 0), Bytes) and not isinstance(a[0], ABuf)))

        def u8new(a):
            v = arg(a, 0)
            if v is UNDEF:
                return Bytes([])
            if isnum(v):
                return Bytes([0] * length(m, v))
            if isinstance(v, ABuf):
                return window(v, a, Bytes)
            if isinstance(v, Bytes):
                return Bytes(v.c)
            return Bytes([self.tobyte(m, x) for x in items(m, v)])

        def u8from(m, th, a):
            xs = items(m, a[0])
            if arg(a, 1) is not UNDEF:
                xs = [m.call(a[1], [x, i]) for i, x in enumerate(xs)]
            return Bytes([self.tobyte(m, x) for x in xs])
        H("Uint8Array", lambda m, th, a: m.throw("TypeError", "Constructor Uint8Array requires 'new'"), u8new, of=F(lambda m, th, a: Bytes([self.tobyte(m, x) for x in a])))
        g["Uint8Array"].x.p["from"] = F(u8from)

        def buffrom(m, th, a):
            v, e = a[0], arg(a, 1)
            if isinstance(v, (str, Opq)):
                if e == "base64":
                    return Buf(self.strcodec(m, "Base64").enc(m, v))
                if e in (UNDEF, "utf8", "utf-8") or e is UNDEF:
                    if isinstance(v, Opq):
                        return Buf(self.utf8(m, v, 4096))
                    return Buf(list(v.encode()))
                if e == "hex" and isinstance(v, str):
                    return Buf(list(bytes.fromhex(re.match(r"(?:[0-9a-fA-F]{2})*", v)[0])))
                return Buf([("decoded", repr(e), v.t if isinstance(v, Opq) else v, i) for i in range(4096)])
            if isinstance(v, ABuf):
                return window(v, a, Buf)
            return Buf([self.tobyte(m, x) if not isinstance(x, tuple) else x for x in (v.c if isinstance(v, Bytes) else m.iterate(v))])

        def bufconcat(m, th, a):
            c = []
            for x in m.iterate(a[0]):
                c += self.cells(m, x)
            return Buf(c)
        H("Buffer", buffrom, alloc=F(lambda m, th, a: Buf([0] * length(m, a[0]))), concat=F(bufconcat), isBuffer=F(lambda m, th, a: isinstance(arg(a, 0), Buf)))
        g["Buffer"].x.p["from"] = F(buffrom)
        H("atob", lambda m, th, a: Opq("str", ("atob", a[0].t if isinstance(a[0], Opq) else a[0])))

        def te(a):
            def enc(m, th, a):
                v = arg(a, 0)
                if isinstance(v, Opq):
                    return Bytes(self.utf8(m, v, 44))
                return Bytes(list(m.tostr(v).encode()) if v is not UNDEF else [])
            return Obj({"encode": Host("encode", enc)}, cls="TextEncoder")
        H("TextEncoder", lambda m, th, a: m.throw("TypeError", "requires new"), te)

        def dv(a):
            b = a[0]
            if not isinstance(b, ABuf):
                m.throw("TypeError", "First argument to DataView constructor must be an ArrayBuffer")
            b = window(b, a, ABuf)
            base = 0

            def rd(n, signed, big):
                def f(m, th, a):
                    o = base + int(a[0])
                    if o + n > len(b.c):
                        m.throw("RangeError", "Offset is outside the bounds of the DataView")
                    c = b.c[o:o + n]
                    return self.uint(m, c if n == 1 or m.truth(arg(a, 1)) else c[::-1], signed, big)
                return F(f)

            def wr(n, signed, big):
                def f(m, th, a):
                    o = base + int(a[0])
                    v = a[1]
                    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
                    if isinstance(v, S):
                        l, h = m.ctx.interval(v.p)
                        c = self.split(m, v.p, n, signed) if lo <= l and h <= hi else [("wrap", v.p, i) for i in range(n)]
                    else:
                        c = list((int(v) & ((1 << 8 * n) - 1)).to_bytes(n, "little"))
                    if o + n > len(b.c):
                        m.throw("RangeError", "Offset is outside the bounds of the DataView")
                    b.write(o, c if n == 1 or m.truth(arg(a, 2)) else c[::-1])
                    return UNDEF
                return F(f)
            whole = b.view(-b.o, len(b.B), ABuf)
            o = Obj({"byteOffset": b.o, "byteLength": b.n, "buffer": whole}, cls="DataView")
            for n, nm in ((1, "8"), (2, "16"), (4, "32")):
                for s, t in ((False, "Uint"), (True, "Int")):
                    o.p["get" + t + nm], o.p["set" + t + nm] = rd(n, s, False), wr(n, s, False)
            for s, t in ((False, "BigUint64"), (True, "BigInt64")):
                o.p["get" + t], o.p["set" + t] = rd(8, s, True), wr(8, s, True)
            return o
        def td(a):
            def dec(m, th, a):
                c = m.models.cells(m, a[0]) if a else []
                if all(isinstance(x, int) for x in c):
                    return bytes(c).decode("utf8", "replace")
                return Opq("str", ("decoded", tuple(c)))
            return Obj({"decode": Host("decode", dec)}, cls="TextDecoder")
        H("TextDecoder", lambda m, th, a: m.throw("TypeError", "requires new"), td)
        H("DataView", lambda m, th, a: UNDEF, dv)

        # collections
        def mapnew(is_set):
            def f(a):
                r = MapV(is_set)
                if arg(a, 0) is not UNDEF and arg(a, 0) is not NULL:
                    for x in m.iterate(a[0]):
                        if is_set:
                            map_set(m, r, x, x)
                        else:
                            map_set(m, r, m.get(x, "0"), m.get(x, "1"))
                return r
            return f
        H("Map", nop.f, mapnew(False))
        H("Set", nop.f, mapnew(True))
        H("WeakMap", nop.f, mapnew(False))

        # promises
        def pall(m, th, a):
            try:
                return Promise(True, Arr([m.settle(x) for x in m.iterate(a[0])]))
            except JSThrow as e:
                return Promise(False, e.v)

        def psettled(m, th, a):
            out = []
            for x in m.iterate(a[0]):
                try:
                    out.append(Obj({"status": "fulfilled", "value": m.settle(x)}))
                except JSThrow as e:
                    out.append(Obj({"status": "rejected", "reason": e.v}))
            return Promise(True, Arr(out))

        def pnew(a):
            res = []

            def ok(m, th, x):
                res.append((True, arg(x, 0)))
                return UNDEF

            def no(m, th, x):
                res.append((False, arg(x, 0)))
                return UNDEF
            try:
                m.call(a[0], [F(ok), F(no)])
            except JSThrow as e:
                res.append((False, e.v))
            if not res:
                raise Unsupported("a promise that is never settled")
            if not res[0][0]:
                return Promise(False, res[0][1])
            return self.promised(lambda: m.settle(res[0][1]))
        H("Promise", nop.f, pnew, all=F(pall), allSettled=F(psettled), race=F(lambda m, th, a: prace(m.iterate(a[0]))), any=F(lambda m, th, a: prace([x for x in m.iterate(a[0]) if not isinstance(x, Promise) or x.ok])), resolve=F(lambda m, th, a: self.promised(lambda: m.settle(arg(a, 0)))), reject=F(lambda m, th, a: Promise(False, arg(a, 0))))


def prace(xs):
    """several could win"""
    if len(xs) != 1:
        raise Unsupported("race between promises")
    return xs[0] if isinstance(xs[0], Promise) else Promise(True, xs[0])


def arr_with(m, th, a):
    r, i = Arr(th.a), int(a[0])
    if not -len(r.a) <= i < len(r.a):
        m.throw("RangeError", "Invalid index")
    r.a[i] = a[1]
    return r


def arr_tospliced(m, th, a):
    r = Arr(th.a)
    ARR["splice"](m, r, a)
    return r


def map_find(m, o, k):
    for i, x in enumerate(o.k):
        if m.seq(x, k):
            return i
    return -1


def map_set(m, o, k, v):
    i = map_find(m, o, k)
    if i < 0:
        o.k.append(k)
        o.v.append(v)
    else:
        o.v[i] = v
    return o


def cb(f):
    return lambda m, th, a: f(m, th, a)


def idx(m, v, n, d):
    """relative index argument"""
    v = arg_default(v, d)
    v = m.num(v)
    if isinstance(v, S):
        raise Unsupported("index is not known")
    if isinstance(v, float):
        v = n if v > 0 and math.isinf(v) else 0 if v != v or math.isinf(v) else int(v)
    return max(0, n + v) if v < 0 else min(v, n)


def arg_default(v, d):
    return d if v is UNDEF else v


def fn_map(m, th, a):
    return Arr([m.call(a[0], [x, i, th]) for i, x in enumerate(list(th.a))])


def fn_filter(m, th, a):
    return Arr([x for i, x in enumerate(list(th.a)) if m.truth(m.call(a[0], [x, i, th]))])


def fn_reduce(m, th, a, rev=False):
    xs = list(enumerate(th.a))
    if rev:
        xs.reverse()
    if len(a) > 1:
        acc = a[1]
    else:
        if not xs:
            m.throw("TypeError", "Reduce of empty array with no initial value")
        acc = xs.pop(0)[1]
    for i, x in xs:
        acc = m.call(a[0], [acc, x, i, th])
    return acc


def flatten(m, xs, d):
    out = []
    for x in xs:
        if isinstance(x, Arr) and d > 0:
            out += flatten(m, x.a, d - 1)
        else:
            out.append(x)
    return out


def mut(th, m):
    if th.frozen:
        m.throw("TypeError", "Cannot add property, object is not extensible")
    return th.a


def arr_splice(m, th, a):
    xs = mut(th, m)
    s = idx(m, arg(a, 0), len(xs), 0)
    n = len(xs) - s if len(a) < 2 else max(0, min(int(m.num(a[1])), len(xs) - s))
    out = xs[s:s + n]
    xs[s:s + n] = a[2:]
    return Arr(out)


def arr_sort(m, th, a, copy=False):
    import functools
    xs = list(th.a)
    f = arg(a, 0)

    def cmp(x, y):
        if f is UNDEF:
            x, y = m.tostr(x), m.tostr(y)
            if isinstance(x, Opq) or isinstance(y, Opq):
                raise Unsupported("sorting unknown strings")
            return (x > y) - (x < y)
        r = m.num(m.call(f, [x, y]))
        return -1 if m.binop("<", r, Big(0) if isbig(r) else 0) else 1 if m.binop(">", r, Big(0) if isbig(r) else 0) else 0
    xs.sort(key=functools.cmp_to_key(cmp))
    if copy:
        return Arr(xs)
    mut(th, m)[:] = xs
    return th


def arr_find(m, th, a, what, rev=False):
    xs = list(enumerate(th.a))
    for i, x in (reversed(xs) if rev else xs):
        if m.truth(m.call(a[0], [x, i, th])):
            return x if what == "v" else i
    return UNDEF if what == "v" else -1


def arr_indexof(m, th, a):
    for i, x in enumerate(th.a):
        if m.seq(x, arg(a, 0)):
            return i
    return -1


def ret(f):
    """statement-like helper returning undefined"""
    def g(m, th, a):
        f(m, th, a)
        return UNDEF
    return g


def push(m, th, a):
    xs = mut(th, m)
    xs.extend(a)
    return len(xs)


ARR = {
    "map": fn_map, "filter": fn_filter, "forEach": ret(fn_map), "reduce": fn_reduce, "reduceRight": lambda m, th, a: fn_reduce(m, th, a, True),
    "flatMap": lambda m, th, a: Arr(flatten(m, fn_map(m, th, a).a, 1)), "flat": lambda m, th, a: Arr(flatten(m, th.a, 1 if arg(a, 0) is UNDEF else a[0])),
    "push": push, "pop": lambda m, th, a: mut(th, m).pop() if th.a else UNDEF, "shift": lambda m, th, a: mut(th, m).pop(0) if th.a else UNDEF,
    "unshift": lambda m, th, a: (mut(th, m).__setitem__(slice(0, 0), a), len(th.a))[1], "splice": arr_splice,
    "slice": lambda m, th, a: Arr(th.a[idx(m, arg(a, 0), len(th.a), 0):idx(m, arg(a, 1), len(th.a), len(th.a))]),
    "concat": lambda m, th, a: Arr(th.a + flatten(m, a, 1)), "join": lambda m, th, a: m.cat(sum([[m.tostr("" if x is UNDEF or x is NULL else x), m.tostr(arg_default(arg(a, 0), ","))] for x in th.a], [])[:-1]),
    "find": lambda m, th, a: arr_find(m, th, a, "v"), "findIndex": lambda m, th, a: arr_find(m, th, a, "i"), "findLast": lambda m, th, a: arr_find(m, th, a, "v", True),
    "findLastIndex": lambda m, th, a: arr_find(m, th, a, "i", True), "some": lambda m, th, a: any(m.truth(m.call(a[0], [x, i, th])) for i, x in enumerate(list(th.a))),
    "every": lambda m, th, a: all(m.truth(m.call(a[0], [x, i, th])) for i, x in enumerate(list(th.a))), "indexOf": arr_indexof, "with": arr_with, "toSpliced": arr_tospliced, "lastIndexOf": lambda m, th, a: next((i for i in range(len(th.a) - 1, -1, -1) if m.seq(th.a[i], a[0])), -1), "includes": lambda m, th, a: arr_indexof(m, th, a) >= 0,
    "entries": lambda m, th, a: Iter(Arr([i, x]) for i, x in enumerate(th.a)), "keys": lambda m, th, a: Iter(iter(range(len(th.a)))), "values": lambda m, th, a: m.iterator(th),
    "fill": lambda m, th, a: (mut(th, m).__setitem__(slice(idx(m, arg(a, 1), len(th.a), 0), idx(m, arg(a, 2), len(th.a), len(th.a))),
                                                    [arg(a, 0)] * max(0, idx(m, arg(a, 2), len(th.a), len(th.a)) - idx(m, arg(a, 1), len(th.a), 0))), th)[1],
    "reverse": lambda m, th, a: (mut(th, m).reverse(), th)[1], "toReversed": lambda m, th, a: Arr(th.a[::-1]), "sort": arr_sort, "toSorted": lambda m, th, a: arr_sort(m, th, a, True),
    "at": lambda m, th, a: th.a[int(a[0])] if -len(th.a) <= int(a[0]) < len(th.a) else UNDEF, "toString": lambda m, th, a: m.tostr(th),
}


def by_set(m, th, a):
    c = m.models.cells(m, a[0])
    o = 0 if arg(a, 1) is UNDEF else int(a[1])
    if o + len(c) > len(th.c):
        m.throw("RangeError", "offset is out of bounds")
    th.write(o, c)
    return UNDEF


def lst(m, th):
    return Arr([m.models.byte(m, c) for c in th.c])


def buf_read(n, signed, big, be=False):
    def f(m, th, a):
        o = 0 if arg(a, 0) is UNDEF else int(a[0])
        if o + n > len(th.c):
            m.throw("RangeError", "out of range")
        c = th.c[o:o + n]
        return m.models.uint(m, c[::-1] if be else c, signed, big)
    return f


def buf_write(n, signed, big, be=False):
    def f(m, th, a):
        o = 0 if arg(a, 1) is UNDEF else int(a[1])
        if big != isbig(a[0]):
            m.throw("TypeError", "wrong kind of number")
        c = m.models.encint(m, a[0], n, signed, be)
        if o + n > len(th.c):
            m.throw("RangeError", "out of range")
        th.write(o, c)
        return o + n
    return f


def by_tostring(m, th, a):
    e = arg(a, 0)
    if isinstance(th, Buf) and e == "base64":
        return m.models.b64(th.c)
    if all(isinstance(c, int) for c in th.c):
        b = bytes(th.c)
        if isinstance(th, Buf):
            return b.hex() if e == "hex" else b.decode("utf8", "replace")
        return ",".join(str(x) for x in b)
    return Opq("str", ("bytes", repr(e), tuple(th.c)))


def by_find(m, th, a):
    return arr_indexof(m, lst(m, th), a)


def by_slice(m, th, a):
    if isinstance(th, Buf):
        return by_sub(m, th, a)
    return type(th)(th.c[idx(m, arg(a, 0), th.n, 0):idx(m, arg(a, 1), th.n, th.n)])


def by_sub(m, th, a):
    i, j = idx(m, arg(a, 0), th.n, 0), idx(m, arg(a, 1), th.n, th.n)
    return th.view(i, max(0, j - i))


def by_fill(m, th, a):
    i, j = idx(m, arg(a, 1), th.n, 0), idx(m, arg(a, 2), th.n, th.n)
    th.write(i, [m.models.tobyte(m, arg(a, 0))] * max(0, j - i))
    return th


def by_equals(m, th, a):
    o = m.models.cells(m, a[0])
    return len(o) == len(th.c) and all(x == y or m.numeq(m.models.byte(m, x), m.models.byte(m, y)) for x, y in zip(th.c, o))


BYTES = {
    "slice": by_slice, "subarray": by_sub, "reverse": lambda m, th, a: (th.write(0, th.c[::-1]), th)[1], "toReversed": lambda m, th, a: Bytes(th.c[::-1]), "set": by_set, "map": lambda m, th, a: Bytes([m.models.tobyte(m, x) for x in fn_map(m, lst(m, th), a).a]), "forEach": lambda m, th, a: ret(fn_map)(m, lst(m, th), a),
    "every": lambda m, th, a: ARR["every"](m, lst(m, th), a), "some": lambda m, th, a: ARR["some"](m, lst(m, th), a), "reduce": lambda m, th, a: fn_reduce(m, lst(m, th), a),
    "find": lambda m, th, a: arr_find(m, lst(m, th), a, "v"), "findIndex": lambda m, th, a: arr_find(m, lst(m, th), a, "i"), "indexOf": by_find, "includes": lambda m, th, a: by_find(m, th, a) >= 0,
    "at": lambda m, th, a: ARR["at"](m, lst(m, th), a), "fill": by_fill, "toString": by_tostring, "equals": by_equals,
    "join": lambda m, th, a: ARR["join"](m, lst(m, th), a), "entries": lambda m, th, a: ARR["entries"](m, lst(m, th), a), "values": lambda m, th, a: m.iterator(lst(m, th)), "keys": lambda m, th, a: Iter(iter(range(len(th.c)))), "filter": lambda m, th, a: Bytes([m.models.tobyte(m, x) for x in fn_filter(m, lst(m, th), a).a]),
    "readUInt8": buf_read(1, False, False), "readUint8": buf_read(1, False, False), "readUInt32LE": buf_read(4, False, False), "readUint32LE": buf_read(4, False, False), "readBigUInt64LE": buf_read(8, False, True),
    "readBigUint64LE": buf_read(8, False, True), "readBigInt64LE": buf_read(8, True, True), "readBigUInt64BE": buf_read(8, False, True, True), "readBigInt64BE": buf_read(8, True, True, True), "readInt8": buf_read(1, True, False),
    "writeUInt8": buf_write(1, False, False), "writeUint8": buf_write(1, False, False), "writeBigUInt64LE": buf_write(8, False, True), "writeBigUint64LE": buf_write(8, False, True), "writeBigInt64LE": buf_write(8, True, True),
    "writeBigUInt64BE": buf_write(8, False, True, True), "writeBigInt64BE": buf_write(8, True, True, True), "writeUInt32LE": buf_write(4, False, False), "writeUInt16LE": buf_write(2, False, False),
}


BY["slice"] = by_slice


def s_pad(left):
    def f(m, th, a):
        n, p = int(a[0]), arg_default(arg(a, 1), " ")
        pad = (p * n)[:max(0, n - len(th))]
        return pad + th if left else th + pad
    return f


def need_str(f):
    def g(m, th, a):
        if any(isinstance(x, (Opq, S)) for x in a):
            raise Unsupported("string method on an unknown")
        return f(m, th, a)
    return g


def re_split(r, s):
    if r.on("").search(""):
        raise Unsupported("splitting at empty matches")
    return [UNDEF if x is None else x for x in r.on(s).split(s)]


def need_re(x):
    if not isinstance(x, Regex):
        raise Unsupported("string used as a regular expression")
    return x


def s_replace(m, th, a, every):
    if isinstance(a[0], Regex):
        return a[0].replace(m, th, a[1], every)
    if not isinstance(a[0], str):
        raise Unsupported("replace with an unknown")
    by = a[1] if isinstance(a[1], str) else m.tostr(m.call(a[1], [a[0]])) if a[0] in th else ""
    if "$" in by:
        raise Unsupported("replacement pattern")
    return th.replace(a[0], by, -1 if every else 1)


STR = {k: need_str(f) for k, f in {
    "toString": lambda m, th, a: th, "valueOf": lambda m, th, a: th, "toUpperCase": lambda m, th, a: th.upper(), "toLowerCase": lambda m, th, a: th.lower(), "trim": lambda m, th, a: th.strip(),
    "startsWith": lambda m, th, a: th.startswith(a[0], int(a[1]) if len(a) > 1 else 0), "endsWith": lambda m, th, a: th[:int(a[1]) if len(a) > 1 else len(th)].endswith(a[0]), "includes": lambda m, th, a: a[0] in th[int(a[1]) if len(a) > 1 else 0:], "indexOf": lambda m, th, a: th.find(a[0], int(a[1]) if len(a) > 1 else 0), "lastIndexOf": lambda m, th, a: th.rfind(a[0]),
    "slice": lambda m, th, a: th[idx(m, arg(a, 0), len(th), 0):idx(m, arg(a, 1), len(th), len(th))], "substring": lambda m, th, a: (lambda i, j: th[min(i, j):max(i, j)])(*(min(max(int(x), 0), len(th)) for x in (a[0], a[1] if len(a) > 1 else len(th)))),
    "split": lambda m, th, a: unsup("split with a limit") if len(a) > 1 else Arr(re_split(a[0], th) if isinstance(a[0], Regex) else list(th) if a[0] == "" else th.split(a[0])), "padStart": s_pad(True), "padEnd": s_pad(False), "repeat": lambda m, th, a: th * int(a[0]),
    "charCodeAt": lambda m, th, a: ord(th[int(a[0]) if a else 0]) if (int(a[0]) if a else 0) < len(th) else float("nan"), "codePointAt": lambda m, th, a: ord(th[int(a[0])]), "charAt": lambda m, th, a: th[int(a[0])],
    "concat": lambda m, th, a: th + "".join(a), "at": lambda m, th, a: th[int(a[0])], "replace": lambda m, th, a: s_replace(m, th, a, False), "replaceAll": lambda m, th, a: s_replace(m, th, a, True),
    "match": lambda m, th, a: (lambda r: r.result(r.on(th).search(th)) if not r.all else (Arr([x.group(0) for x in r.on(th).finditer(th)]) if r.on(th).search(th) else NULL))(need_re(a[0])),
    "matchAll": lambda m, th, a: (lambda r: Iter(r.result(x) for x in r.on(th).finditer(th)))(need_re(a[0])), "search": lambda m, th, a: (lambda x: x.start() if x else -1)(need_re(a[0]).on(th).search(th)),
    "localeCompare": lambda m, th, a: (th > a[0]) - (th < a[0]),
}.items()}

MAP = {
    "get": lambda m, th, a: th.v[map_find(m, th, a[0])] if map_find(m, th, a[0]) >= 0 else UNDEF, "set": lambda m, th, a: map_set(m, th, a[0], a[1]), "has": lambda m, th, a: map_find(m, th, a[0]) >= 0,
    "add": lambda m, th, a: map_set(m, th, a[0], a[0]), "delete": lambda m, th, a: map_del(m, th, a[0]), "clear": ret(lambda m, th, a: (th.k.clear(), th.v.clear())), "keys": lambda m, th, a: Iter(iter(th.k)), "values": lambda m, th, a: Iter(iter(th.v)),
    "entries": lambda m, th, a: Iter(Arr([x, y]) for x, y in zip(th.k, th.v)), "forEach": ret(lambda m, th, a: [m.call(a[0], [y, x, th]) for x, y in list(zip(th.k, th.v))]),
}


def it_next(m, th, a):
    def f():
        if m.coroutines and a:
            raise Unsupported("value sent to a generator")
        x = th.step()
        if x is None:
            r, th.result = th.result, UNDEF
            th.result = UNDEF
            return r, True
        return x[0], False

    def one():
        v, done = f()
        return Obj({"value": v, "done": done})
    return m.models.promised(one) if th.aio else one()


def it_return(m, th, a):
    def one():
        if not th.done:
            th.done = True
            if th.close:
                th.close()
        return Obj({"value": arg(a, 0), "done": True})
    return m.models.promised(one) if th.aio else one()


def it_gen(f):
    def g(m, th, a):
        if th.aio:
            return UNDEF

        def steps():
            i = 0
            while True:
                x = th.step()
                if x is None:
                    return
                yield from f(m, x[0], a, i)
                i += 1
        return Iter(steps(), th.close)
    return g


def it_take(m, th, a):
    n = int(a[0])

    def steps():
        for i in range(n):
            x = th.step()
            if x is None:
                return
            yield x[0]
        if th.close and not th.done:
            th.done = True
            th.close()
    return Iter(steps(), th.close)


ITER = {
    "next": it_next, "return": it_return, "toArray": lambda m, th, a: Arr(m.iterate(th)), "take": it_take,
    "map": it_gen(lambda m, x, a, i: [m.call(a[0], [x, i])]), "filter": it_gen(lambda m, x, a, i: [x] if m.truth(m.call(a[0], [x, i])) else []),
    "flatMap": it_gen(lambda m, x, a, i: m.iterate(m.call(a[0], [x, i]))), "drop": it_gen(lambda m, x, a, i: [x] if i >= int(a[0]) else []),
    "forEach": lambda m, th, a: ([m.call(a[0], [x, i]) for i, x in enumerate(m.iterate(th))], UNDEF)[1],
}
REGEX = {
    "test": lambda m, th, a: re_test(m, th, a),
    "exec": lambda m, th, a: re_on(m, th, a[0], "exec") if isinstance(arg(a, 0), Opq) and not th.all else th.result(th.on(m.tostr(arg(a, 0))).search(m.tostr(arg(a, 0)))) if not th.all else unsup("a global regular expression keeps state"),
    "toString": lambda m, th, a: repr(th),
}


def unsup(s):
    raise Unsupported(s)


def within(m, o, k, a):
    """does the text of a whole number or an address contain a[0]"""
    x = arg(a, 0)
    if not isinstance(x, str) or len(a) > 1:
        raise Unsupported("%s of an unknown" % k)
    if o.t[0] == "dec":
        if x == "-" and k != "endsWith":
            return m.ctx.sign(o.t[1], "<")
        if set(x) - set("-0123456789"):
            return False
    elif set(x) - set(B58):
        return False
    return x == "" or m.ctx.split((k, repr(o.t), x), "%s %s %r" % (o, k, x))


def re_test(m, th, a):
    v = m.tostr(arg(a, 0))
    if th.all:
        raise Unsupported("a global regular expression keeps state")
    if isinstance(v, Opq) and v.t[0] == "dec":
        p = v.t[1]
        if m.ctx.sign(p, "<"):
            xs = ["-" + d * n for n in range(1, 30) for d in "19"]
        else:
            xs = [d * n for n in range(1, 30) for d in "19"] + ["0"]
        lo, hi = m.ctx.interval(p)
        r = {th.re.search(x) is not None for x in xs if lo <= int(x) <= hi} or {th.re.search(x) is not None for x in xs}
        return r.pop() if len(r) == 1 else m.ctx.split(("re", repr(th), p), "%s matches %s" % (v, th))
    if isinstance(v, Opq) and v.t[0] in ("addr", "pda", "addrof"):
        xs = [b58enc(bytes([k] * 32)) for k in range(0, 256, 5)] + [b58enc(bytes(range(k, k + 32))) for k in range(0, 224, 7)]
        r = {th.re.search(x) is not None for x in xs}
        return r.pop() if len(r) == 1 else m.ctx.split(("re", repr(th), repr(v.t)), "%s matches %s" % (v, th))
    return th.on(v).search(v) is not None


def re_on(m, r, v, k):
    """match, exec and search of a text the value of which is unknown"""
    if v.t[0] not in ("dec", "addr", "pda", "addrof") or r.all:
        raise Unsupported("%s of %s with %r" % (k, v, r))
    if not re_test(m, r, [v]):
        return -1 if k == "search" else NULL
    xs = [s + d * n for s in ("", "-") for n in range(1, 30) for d in "19"] if v.t[0] == "dec" else [b58enc(bytes([k] * 32)) for k in range(0, 256, 5)]
    ms = [(x, r.re.search(x)) for x in xs]
    if any(y and (y.group(0) != x or any(g not in (None, x) for g in y.groups())) for x, y in ms):
        raise Unsupported("parts of %s matching %r" % (v, r))
    if k == "search":
        return 0
    gs = {tuple(g is None for g in y.groups()) for x, y in ms if y}
    if len(gs) != 1:
        raise Unsupported("groups of %r" % r)
    return Arr([v] + [UNDEF if g else v for g in gs.pop()])


def map_del(m, o, k):
    i = map_find(m, o, k)
    if i < 0:
        return False
    del o.k[i], o.v[i]
    return True


def p_then(m, th, a):
    f = arg(a, 0) if th.ok else arg(a, 1)
    if not isinstance(f, (Fn, Host)):
        return th
    th.seen = True
    return m.models.promised(lambda: m.settle(m.call(f, [m.settle(th) if th.ok else th.v])))


def p_finally(m, th, a):
    try:
        m.settle(m.call(a[0], []))
    except JSThrow as e:
        return Promise(False, e.v)
    return th


PROM = {"then": p_then, "catch": lambda m, th, a: p_then(m, th, [UNDEF, arg(a, 0)]), "finally": p_finally}


def fn_bind(m, th, a):
    this, pre = arg(a, 0), a[1:]
    return Host("bound", lambda m, t2, b: m.call(th, pre + b, this))


FN = {"call": lambda m, th, a: m.call(th, a[1:], arg(a, 0)), "apply": lambda m, th, a: m.call(th, m.iterate(a[1]) if len(a) > 1 else [], arg(a, 0)), "bind": fn_bind}
NUM = {"toString": lambda m, th, a: m.tostr(th) if arg(a, 0) in (UNDEF, 10) or arg(a, 0) is UNDEF else radix(m, th, a[0]), "toFixed": lambda m, th, a: Opq("str", ("fixed", poly2(th) if isinstance(th, S) else repr(th), repr(arg(a, 0)))), "valueOf": lambda m, th, a: th,
       "toLocaleString": lambda m, th, a: Opq("str", ("locale", repr(th)))}
OBJ = {"toString": lambda m, th, a: m.tostr(th), "hasOwnProperty": lambda m, th, a: m.pkey(a[0]) in m.keys(th), "valueOf": lambda m, th, a: th}
