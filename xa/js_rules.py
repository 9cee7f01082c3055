"""Obligations of the TypeScript client: what each export of js-client/src/index.ts returns for
unknown arguments and unknown chain contents, compared with what the program does and accepts."""
from .js import *
from .js import poly, poly2, padd, pmul, pconst, isbig, isnum
from .jsmodels import Models, arg
from .client_rules import STATE_FIELDS, REC_FIELDS, EVENT, SET, TAGS, ERRORS
from .rules import INTERFACE

ROOT = REPO + "/js-client/src"
PROGRAM = "StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT"
ORCA_MINT = "orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE"
XORCA_MINT = "xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N"
TOKEN_PROGRAM = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"
ATA_PROGRAM = "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"
U64 = 2 ** 64 - 1
MESSAGES = ["Unknown instruction discriminator", "Incorrect program id", "Invalid account role", "Not enough account keys", "Incorrect owner", "Invalid seeds", "Invalid account address", "Invalid account data",
            "Arithmetic error", "Insufficient funds error", "State account already initialized", "Cool down period still active", "Event serialization failed",
            "Invalid cooldown period: must be non-negative", "Stake amount too small to mint any xORCA", "Unstake amount too small to receive any ORCA", "Insufficient escrow to cover withdraw amount",
            "Cooldown timestamp overflowed", "Insufficient vault backing (vault < escrow)", "Unauthorized deployer access"]
SIGNED = {"cool_down_period_s", "new_cool_down_period_s", "withdrawable_timestamp"}
ADDR = {"update_authority", "unstaker", "new_authority", "set_by", "mint", "owner", "delegate", "close_authority", "mint_authority", "freeze_authority"}
TOKEN_FIELDS = [("mint", 0, 32), ("owner", 32, 32), ("amount", 64, 8), ("delegate_flag", 72, 4), ("delegate", 76, 32), ("state", 108, 1), ("is_native_flag", 109, 4), ("native_amount", 113, 8),
                ("delegate_amount", 121, 8), ("close_authority_flag", 129, 4), ("close_authority", 133, 32)]
MINT_FIELDS = [("mint_authority_flag", 0, 4), ("mint_authority", 4, 32), ("supply", 36, 8), ("decimals", 44, 1), ("is_initialized", 45, 1), ("freeze_authority_flag", 46, 4), ("freeze_authority", 50, 32)]


def camel(s):
    a = s.split("_")
    return a[0] + "".join(x[:1].upper() + x[1:] for x in a[1:])


def pascal(s):
    return "".join(x[:1].upper() + x[1:] for x in s.split("_"))


class J:
    def __init__(self, tier):
        self.out, self.tier = [], tier
        self.fns, self.blocks, self.calls, self.unknown = set(), 0, 0, {}

    def ob(self, oid, ok, msg):
        self.out.append((oid, bool(ok), msg))

    def each(self, f, chain=None, fail=None, env="test"):
        """f(run) on every path"""
        def one(ctx):
            r = Run(self, ctx, chain, fail, env)
            try:
                f(r)
            finally:
                for c in r.m.coroutines:
                    c.drop()
            self.fns |= r.m.functions
            self.blocks += r.m.nodes
        paths(one, 3000)

    parallel = None


from .client_rules import C as _C
J.parallel = _C.parallel


class Run:
    def __init__(self, j, ctx, chain, fail, env):
        self.j, self.ctx = j, ctx
        self.models = Models(chain, fail)
        self.m = Machine(ROOT, ctx, self.models, env)
        self.m.file = ROOT + "/index.ts"
        self.mod = self.m.load(ROOT + "/index.ts")

    def x(self, name):
        try:
            return self.m.export(self.mod, name)
        except KeyError:
            raise Unsupported("the client no longer exports %s" % name)

    def call(self, name, *args):
        """-> (True, value) or (False, thrown)"""
        return self.do(lambda: self.m.call(self.x(name), list(args)))

    def do(self, f):
        self.j.calls += 1
        try:
            return True, self.m.settle(f())
        except JSThrow as e:
            return False, e.v

    def method(self, o, k, *a):
        return self.do(lambda: self.m.call(self.m.get(o, k), list(a), o))

    def cond(self):
        return "" if not self.ctx.log else " when " + ", ".join("%s%s" % ("" if r else "not ", w) for w, r in self.ctx.log[:4])

    def eq(self, v, p):
        """is the number v the polynomial p"""
        return (isbig(v) or isnum(v)) and not isinstance(poly2(v), float) and padd(poly2(v), p, -1) == ()

    def addr(self, name):
        return Opq("str", ("addr", name))

    def isaddr(self, v, want):
        """want: cells or address value"""
        try:
            w = want if isinstance(want, list) else self.models.encaddr(self.m, want)
            return self.models.encaddr(self.m, v) == w
        except JSThrow:
            return False

    def pda(self, program, *seeds):
        c = []
        for s in seeds:
            c += list(s.encode()) if isinstance(s, str) else s if isinstance(s, list) else self.models.encaddr(self.m, s)
        return self.models.derived(self.m, program, c)

    def is_pda(self, v, w):
        return isinstance(v, Arr) and len(v.a) == 2 and self.isaddr(v.a[0], w.a[0]) and self.eq(v.a[1], w.a[1].p)

    def bytes(self, v, want):
        return isinstance(v, Bytes) and v.c == want

    def field(self, o, k):
        return self.m.get(o, k) if isinstance(o, Obj) and k in o.p else UNDEF


def part(cells):
    """bytes given by a caller: a view of part of a larger buffer"""
    return Bytes([90 + i for i in range(7)] + list(cells) + [80 + i for i in range(9)]).view(7, len(cells))


def data(key, n):
    return [("b", key, i) for i in range(n)]


def value_ok(r, v, cells, name):
    """v is what the bytes hold for the field"""
    n = len(cells)
    if name in ADDR:
        return r.isaddr(v, cells)
    if n not in (1, 2, 4, 8, 16) or name.startswith("padding"):
        return r.bytes(v, cells)
    if name == "is_initialized":
        return isinstance(v, bool) and v == (cells[0] == 1) if isinstance(cells[0], int) else isinstance(v, Opq) and v.t == ("isone", cells[0])
    if isbig(v) != (n == 8):
        return False
    w = r.models.uint(r.m, cells, name in SIGNED, n == 8)
    return r.eq(v, poly(w))


def fields_ok(j, r, oid, o, fields, cells, what, skip=()):
    for name, off, n in fields:
        if name in skip:
            continue
        j.ob(oid, value_ok(r, r.field(o, camel(name)), cells[off:off + n], name), "%s: %s is not what the program keeps at byte %d%s" % (what, camel(name), off, r.cond()))
    extra = set(o.p) - {camel(f[0]) for f in fields} if isinstance(o, Obj) else set()
    j.ob(oid, isinstance(o, Obj) and not (extra - {"__kind"}), "%s: unknown fields %s" % (what, sorted(extra)))


def make_value(r, fields, cells, skip=()):
    """the value whose fields the bytes hold"""
    o = Obj()
    for name, off, n in fields:
        if name in skip:
            continue
        c = cells[off:off + n]
        if name in ADDR:
            v = r.models.decaddr(r.m, c)
        elif n not in (1, 2, 4, 8, 16) or name.startswith("padding"):
            v = Bytes(c)
        elif name == "is_initialized":
            v = Opq("bool", ("isone", c[0]))
        else:
            v = r.models.uint(r.m, c, name in SIGNED, n == 8)
        o.p[camel(name)] = v
    return o


# ------------------------------------------------------------------ conversion
def conversion(j, tier):
    for oid, fn, up in (("js.conv.stake", "convertOrcaToXorca", True), ("js.conv.unstake", "convertXorcaToOrca", False)):
        for s_lo, s_hi, n_lo, n_hi in ((0, 0, 0, U64), (1, U64, 0, 0), (1, U64, 1, U64)):
            def f(r):
                c = r.ctx
                a, n, s = c.var(("in", "amount"), 0, U64), c.var(("in", "nonEscrowedOrca"), n_lo, n_hi) if n_hi else Big(0), c.var(("in", "xorcaSupply"), s_lo, s_hi) if s_hi else Big(0)
                ok, v = r.call(fn, a, n, s)
                live = s_lo == 1 and n_lo == 1
                if not live:
                    if up:
                        j.ob(oid + ".empty", ok and isbig(v) and r.eq(v, poly(a)), "%s does not convert one to one on an empty pool%s" % (fn, r.cond()))
                    else:
                        j.ob(oid + ".empty", not ok, "%s does not throw although the supply or the pool is zero%s" % (fn, r.cond()))
                    return
                j.ob(oid + ".total", ok, "%s throws for a live pool%s" % (fn, r.cond()))
                h = pconst(100)
                N, D = (padd(s.p, h), padd(n.p, h)) if up else (padd(n.p, h), padd(s.p, h))
                want = r.m.quot(pmul(a.p, N), D)
                got = poly2(v) if ok and isbig(v) else None
                j.ob(oid + ".rate", got is not None and padd(got, want, -1) == (), "%s returns %s, not floor(amount * (%s) / (%s))%s" % (fn, c.pshow(got) if isinstance(got, tuple) else v, c.pshow(N), c.pshow(D), r.cond()))
            j.each(f)

    def consts(r):
        for k in ("VIRTUAL_XORCA_SUPPLY", "VIRTUAL_NON_ESCROWED_ORCA_AMOUNT"):
            v = r.x(k)
            j.ob("js.conv.offset", isinstance(v, Big) and int(v) == 100, "%s is %r, the program's offset is 100" % (k, v))
    j.each(consts)


# ------------------------------------------------------------------ addresses
def addresses(j, tier):
    def f(r):
        what = "findStateAddress"
        ok, v = r.call(what)
        j.ob("js.addr.state", ok and r.is_pda(v, r.pda(PROGRAM, "state")), "%s does not return the program's state address and its bump" % what)
        what = "findPendingWithdrawAddress"
        who = r.addr("unstaker")
        i = r.ctx.var(("in", "withdrawIndex"), 0, 255, False)
        ok, v = r.call(what, who, i)
        want = r.pda(PROGRAM, "pending_withdraw", who, r.models.split(r.m, i.p, 1, False))
        j.ob("js.addr.rec", ok and r.is_pda(v, want), "%s does not return the record address the program requires for every staker and index%s" % (what, r.cond()))
        what = "findVaultAddress"
        s, t, o = r.addr("state"), r.addr("tokenProgram"), r.addr("orcaMint")
        ok, v = r.call(what, s, t, o)
        j.ob("js.addr.vault", ok and r.is_pda(v, r.pda(ATA_PROGRAM, s, t, o)), "%s does not return the associated token account of its arguments%s" % (what, r.cond()))
        j.ob("js.addr.program", r.x("XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS") == PROGRAM, "XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS is not the program's address")
    j.each(f)
    for k in range(256):
        def g(r):
            who = r.addr("unstaker")
            ok, v = r.call("findPendingWithdrawAddress", who, k)
            j.ob("js.addr.rec", ok and r.is_pda(v, r.pda(PROGRAM, "pending_withdraw", who, [k])), "findPendingWithdrawAddress does not return the record address of index %d" % k)
        j.each(g)

    def h(r):
        for n, (tag, _, _) in INTERFACE.items():
            v = r.x("%s_DISCRIMINATOR" % n.upper())
            j.ob("js.const.tag", isnum(v) and v == tag, "%s_DISCRIMINATOR is not the program's tag %d" % (n.upper(), tag))
            ok, v = r.call("get%sDiscriminatorBytes" % pascal(n))
            j.ob("js.const.tag", ok and r.bytes(v, [tag]), "get%sDiscriminatorBytes does not return the program's tag %d" % (pascal(n), tag))
        for n, tag, size in (("State", 1, 2048), ("PendingWithdraw", 2, 1024)):
            ok, v = r.call("get%sDiscriminatorBytes" % n)
            j.ob("js.const.discriminator", ok and r.bytes(v, [tag]), "get%sDiscriminatorBytes does not return the program's discriminator %d" % (n, tag))
            ok, v = r.call("get%sSize" % n)
            j.ob("js.const.size", ok and v == size, "get%sSize is not the program's account size %d" % (n, size))
        e = r.x("AccountDiscriminator")
        for i, n in enumerate(TAGS):
            j.ob("js.const.discriminator", r.field(e, n) == i if isnum(r.field(e, n)) else False, "AccountDiscriminator.%s is not %d" % (n, i))
    j.each(h)


# ------------------------------------------------------------------ instructions
def arg_spec(ix):
    """[(label, builder(run) -> (input fields, payload or None when it must be refused))]"""
    tag, _, args = INTERFACE[ix]
    if ix == "set":
        def mk(kind, name, bad=False):
            def f(r):
                if name == "new_authority":
                    v = r.addr("newAuthority")
                    return {"instructionData": Obj({"__kind": kind, camel(name): v})}, lambda: [tag, 1] + r.models.encaddr(r.m, v)
                v = r.ctx.var(("in", camel(name)), -2 ** 70, 2 ** 70)
                return {"instructionData": Obj({"__kind": kind, camel(name): v})}, lambda: payload(r, [tag, 0], [(v, 8, True)])
            return f
        return [mk(*SET0) for SET0 in ((SET[0][0], SET[0][1][0][0]), (SET[1][0], SET[1][1][0][0]))]
    out = []
    for big in (True, False):
        def f(r, big=big):
            o, pay = {}, []
            for name, n in args:
                if n == 1:
                    v = r.ctx.var(("in", camel(name)), -300, 600, False)
                elif big:
                    v = r.ctx.var(("in", camel(name)), -2 ** 70, 2 ** 70)
                else:
                    v = r.ctx.var(("in", camel(name)), -2 ** 53 + 1, 2 ** 53 - 1, False)
                o[camel(name)] = v
                pay.append((v, n, name in SIGNED))
            return o, lambda: payload(r, [tag], pay)
        out.append(f)
    return out


def payload(r, head, args):
    parts = [fit(r, *a) for a in args]
    return None if None in parts else head + sum(parts, [])


def fit(r, v, n, signed):
    """bytes of v if its range is known to fit, None if known not to, error if undecided"""
    lo, hi = r.ctx.interval(v.p)
    a, b = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if a <= lo and hi <= b:
        return [("le", v.p, i) for i in range(n)]
    if hi < a or lo > b:
        return None
    return [("unchecked", v.p)]


def plain_args(ix):
    """representable arguments"""
    tag, _, args = INTERFACE[ix]
    if ix == "set":
        def f(r):
            v = r.ctx.var(("in", "cool"), -2 ** 63, 2 ** 63 - 1)
            return {"instructionData": Obj({"__kind": SET[0][0], camel(SET[0][1][0][0]): v})}, lambda: payload(r, [tag, 0], [(v, 8, True)])
        return f

    def f(r):
        o, pay = {}, []
        for name, n in args:
            lo, hi = (-2 ** 63, 2 ** 63 - 1) if name in SIGNED else (0, 2 ** (8 * n) - 1)
            v = o[camel(name)] = r.ctx.var(("in", camel(name)), lo, hi, n == 8)
            pay.append((v, n, name in SIGNED))
        return o, lambda: payload(r, [tag], pay)
    return f


def build(r, ix, spec, variant, when=""):
    """one call of an instruction builder, judged"""
    tag, accs, args = INTERFACE[ix]
    j, fn, oid = r.j, "get%sInstruction" % pascal(ix), "js.ix." + ix
    ins, pay = spec(r)
    keys, signers = {}, {}
    o = Obj()
    one = Obj({"address": r.addr("user"), "signTransactions": Host("signTransactions", lambda m, th, a: UNDEF)})
    for i, (name, (sg, wr)) in enumerate(accs):
        k = keys[name] = r.addr("shared") if variant == "alias" else r.addr(name)
        if sg:
            if variant == "alias":
                keys[name], signers[name] = r.addr("user"), one
            else:
                signers[name] = Obj({"address": k, "signTransactions": Host("signTransactions", lambda m, th, a: UNDEF)})
            o.p[camel(name)] = signers[name]
        elif variant == "pdas":
            o.p[camel(name)] = Arr([k, 255])
        else:
            o.p[camel(name)] = k
    o.p.update(ins)
    cfg = []
    prog = PROGRAM
    if variant == "override":
        prog = r.addr("programOverride")
        cfg = [Obj({"programAddress": prog})]
    elif variant == "pdas":
        cfg = [Obj()]
    ok, v = r.call(fn, o, *cfg)
    want = pay()
    if want is None:
        j.ob(oid + ".range", not ok, "%s does not refuse an argument the program cannot represent%s%s" % (fn, when, r.cond()))
        return
    j.ob(oid + ".total", ok, "%s throws for representable arguments%s: %s%s" % (fn, when, v, r.cond()))
    if not ok:
        return
    j.ob(oid + ".program", r.isaddr(r.field(v, "programAddress"), prog), "%s does not address %s%s" % (fn, "the program given in its configuration" if cfg else "the staking program", when))
    ms = r.field(v, "accounts")
    n = len(ms.a) if isinstance(ms, Arr) else -1
    j.ob(oid + ".count", n == len(accs), "%s lists %d accounts, the program takes %d%s" % (fn, n, len(accs), when))
    for i, (name, (sg, wr)) in enumerate(accs):
        x = ms.a[i] if 0 <= i < n else UNDEF
        j.ob(oid + ".order", r.isaddr(r.field(x, "address"), keys[name]), "%s: account %d is not %s%s" % (fn, i, camel(name), when))
        role = r.field(x, "role")
        role = role if isinstance(role, int) else -1
        j.ob(oid + ".signer", role in (2, 3) if sg else role in (0, 1), "%s: %s has the wrong signer flag%s" % (fn, camel(name), when))
        j.ob(oid + ".writable", role in (1, 3) if wr else role in (0, 2), "%s: %s has the wrong writable flag%s" % (fn, camel(name), when))
        if sg:
            j.ob(oid + ".signer", r.field(x, "signer") is signers[name], "%s: %s does not carry its signer%s" % (fn, camel(name), when))
    got = r.field(v, "data")
    j.ob(oid + ".data", r.bytes(got, want), "%s: payload is not the tag followed by the arguments as the program decodes them%s%s" % (fn, when, r.cond()))


def instructions(j, tier, only=None):
    # one after the other for the same pool
    for a in INTERFACE:
        for b in INTERFACE:
            def both(r):
                for ix in (a, b, a):
                    build(r, ix, plain_args(ix), "plain", " after another instruction was built")
            j.each(both)
    for ix, (tag, accs, args) in INTERFACE.items():
        P = pascal(ix)
        for spec in arg_spec(ix):
            for variant in ("plain", "override", "pdas", "alias"):
                j.each(lambda r: build(r, ix, spec, variant))
        # payload codec and parsing
        cases = [(ix, [tag], args)] if ix != "set" else [("set", [tag, k], [(SET[k][1][0][0], SET[k][1][0][1])]) for k in range(2)]
        for _, head, flds in cases:
            n = sum(x for _, x in flds)
            cells = head + data("payload", n)
            offs, o_ = [], len(head)
            for name, k in flds:
                offs.append((name, o_, k))
                o_ += k

            def content(r, v, what, oid2):
                j.ob(oid2, isnum(r.field(v, "discriminator")) and r.field(v, "discriminator") == tag, "%s: discriminator is not the tag" % what)
                if ix == "set":
                    v = r.field(v, "instructionData")
                    j.ob(oid2, r.field(v, "__kind") == SET[head[1]][0], "%s: request %d is not %s" % (what, head[1], SET[head[1]][0]))
                for name, off, k in offs:
                    j.ob(oid2, value_ok(r, r.field(v, camel(name)), cells[off:off + k], name), "%s: %s is not what the program decodes at byte %d%s" % (what, camel(name), off, r.cond()))

            def g(r):
                for kind in ("Decoder", "Codec"):
                    what = "get%sInstructionData%s" % (P, kind)
                    ok, c = r.call(what)
                    ok, v = r.method(c, "decode", part(cells))
                    j.ob("js.parse.%s.total" % ix, ok, "%s throws on a payload the program accepts" % what)
                    if ok:
                        content(r, v, what, "js.parse.%s.data" % ix)
                    for short in range(len(cells)):
                        ok, v = r.method(c, "decode", part(cells[:short]))
                        j.ob("js.parse.%s.short" % ix, not ok, "%s accepts a payload of %d bytes" % (what, short))
                for kind in ("Encoder", "Codec"):
                    what = "get%sInstructionData%s" % (P, kind)
                    ok, c = r.call(what)
                    o = make_value(r, offs, cells)
                    if ix == "set":
                        o.p["__kind"] = SET[head[1]][0]
                        o = Obj({"instructionData": o})
                    ok, v = r.method(c, "encode", o)
                    j.ob("js.parse.%s.encode" % ix, ok and r.bytes(v, cells), "%s does not encode the tag and the arguments as the program decodes them" % what)
            j.each(g)

            def h(r):
                what = "parse%sInstruction" % P
                for n in range(len(accs) + 3):
                    ms = [Obj({"address": r.addr("acc%d" % i), "role": i % 4}) for i in range(n)]
                    prog = r.addr("program")
                    ok, v = r.call(what, Obj({"programAddress": prog, "accounts": Arr(ms), "data": part(cells)}))
                    if n < len(accs):
                        j.ob("js.parse.%s.count" % ix, not ok, "%s accepts %d accounts, the program needs %d" % (what, n, len(accs)))
                        continue
                    j.ob("js.parse.%s.total" % ix, ok, "%s throws on an instruction the program accepts" % what)
                    if not ok:
                        continue
                    j.ob("js.parse.%s.program" % ix, r.isaddr(r.field(v, "programAddress"), prog), "%s does not return the instruction's program" % what)
                    a = r.field(v, "accounts")
                    j.ob("js.parse.%s.count" % ix, isinstance(a, Obj) and set(a.p) == {camel(x[0]) for x in accs}, "%s does not name the program's accounts" % what)
                    for i, (name, _) in enumerate(accs):
                        j.ob("js.parse.%s.order" % ix, r.field(a, camel(name)) is ms[i], "%s: %s is not account %d" % (what, camel(name), i))
                    content(r, r.field(v, "data"), what, "js.parse.%s.data" % ix)
            j.each(h)

    # identification
    def ident(r):
        e = r.x("XorcaStakingProgramInstruction")
        tags = {t: pascal(n) for n, (t, _, _) in INTERFACE.items()}
        for n in (0, 1, 2, 10):
            for b in range(256 if n else 1):
                c = ([b] + data("rest", n - 1)) if n else []
                for form in (part(c), Obj({"data": part(c)})):
                    ok, v = r.call("identifyXorcaStakingProgramInstruction", form)
                    want = tags.get(b) if n else None
                    if want is None:
                        j.ob("js.ident.instruction", not ok, "identifyXorcaStakingProgramInstruction accepts tag %s" % (b if n else "of an empty payload"))
                    else:
                        j.ob("js.ident.instruction", ok and isnum(v) and v == r.field(e, want), "identifyXorcaStakingProgramInstruction does not identify tag %d as %s" % (b, want))
        vals = [r.field(e, x) for x in tags.values()]
        j.ob("js.ident.instruction", len({repr(x) for x in vals}) == len(vals), "XorcaStakingProgramInstruction gives two instructions one value")
    j.each(ident)


# ------------------------------------------------------------------ accounts
def accounts(j, tier):
    for P, key, fields, size, tag in (("State", "state", STATE_FIELDS, 2048, 1), ("PendingWithdraw", "record", REC_FIELDS, 1024, 2)):
        def dec(r):
            for kind in ("Decoder", "Codec"):
                what = "get%s%s" % (P, kind)
                ok, c = r.call(what)
                lens = range(size) if tier == "thorough" else sorted({0, 1, 2, 6, 7, 8, 16, 24, 40, 48, 56, 57, size // 2, size - 1} | {f[1] for f in fields})
                for n in lens:
                    ok, v = r.method(c, "decode", part(([tag] + data("x", size))[:n]))
                    j.ob("js.%s.short" % key, not ok, "%s accepts an account of %d bytes" % (what, n))
                for n in (size, size + 1, size + 100):
                    for t in range(256) if n == size else (tag,):
                        cells = [t] + [("b", "x", i) for i in range(1, n)]
                        ok, v = r.method(c, "decode", part(cells))
                        if t >= len(TAGS):
                            j.ob("js.%s.unknown" % key, not ok, "%s accepts discriminator %d" % (what, t))
                            continue
                        j.ob("js.%s.total" % key, ok, "%s throws on an account of the program: %s" % (what, v))
                        if ok and t == tag:
                            fields_ok(j, r, "js.%s.decode" % key, v, fields, cells, what)
                        elif ok:
                            d = r.field(v, "discriminator")
                            j.ob("js.%s.decode" % key, isnum(d) and d == t, "%s misreports discriminator %d" % (what, t))
        j.each(dec)

        def enc(r):
            cells = [tag] + [("b", "x", i) for i in range(1, size)]
            for kind in ("Encoder", "Codec"):
                what = "get%s%s" % (P, kind)
                ok, c = r.call(what)
                for pad in (True, False):
                    skip = ("discriminator",) if pad else ("discriminator", "padding1", "padding2")
                    o = make_value(r, fields, cells, skip)
                    want = list(cells)
                    if not pad:
                        for n, off, k in fields:
                            if n in skip[1:]:
                                want[off:off + k] = [0] * k
                    ok, v = r.method(c, "encode", o)
                    j.ob("js.%s.encode" % key, ok and r.bytes(v, want), "%s does not write the program's layout" % what)
        j.each(enc)

        # accounts by address
        def cells_of(k):
            return [tag] + [("b", k, i) for i in range(1, size)]

        def acc(r):
            for ex in (True, False):
                o = Obj({"address": r.addr("k"), "exists": ex})
                if ex:
                    o.p.update({"data": part(cells_of("k")), "executable": False, "lamports": Big(5), "programAddress": PROGRAM, "space": Big(size)})
                for has in (True, False):
                    if not has:
                        if not ex:
                            continue
                        del o.p["exists"]
                    ok, v = r.call("decode" + P, o)
                    what = "decode" + P
                    j.ob("js.fetch.%s.live" % key, ok, "%s throws on an account of the program" % what)
                    if not ok:
                        continue
                    j.ob("js.fetch.%s.address" % key, r.isaddr(r.field(v, "address"), o.p["address"]), "%s changes the address" % what)
                    if ex:
                        fields_ok(j, r, "js.fetch.%s.data" % key, r.field(v, "data"), fields, cells_of("k"), what)
                    else:
                        j.ob("js.fetch.%s.exists" % key, r.field(v, "exists") is False, "%s reports a missing account as existing" % what)
        j.each(acc)
        for order in [list(range(n)) for n in range(0, 5)] + [[0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1, 1]]:
            n = len(order)
            for pat in range(2 ** len(set(order))):
                here = [not pat >> i & 1 for i in order]

                def chain(k):
                    i = int(k[1][1:]) if k[0] == "addr" else -1
                    return dict(data=cells_of(k), owner=PROGRAM) if i in order and not pat >> i & 1 else None

                def many(r):
                    for fn, maybe, single in [("fetchAllMaybe" + P, True, False), ("fetchAll" + P, False, False)] + ([("fetchMaybe" + P, True, True), ("fetch" + P, False, True)] if n == 1 else []):
                        ks = [r.addr("k%d" % i) for i in order]
                        ok, v = r.call(fn, r.models.rpc(r.m), ks[0] if single else Arr(ks))
                        if not maybe and not all(here):
                            j.ob("js.fetch.%s.missing" % key, not ok, "%s succeeds although an account does not exist" % fn)
                            continue
                        j.ob("js.fetch.%s.live" % key, ok, "%s fails although the node answers and the accounts are genuine: %s" % (fn, v))
                        if not ok:
                            continue
                        el = [v] if single else v.a if isinstance(v, Arr) else []
                        j.ob("js.fetch.%s.count" % key, len(el) == n, "%s does not answer once per address" % fn)
                        for i, x in enumerate(el[:n]):
                            j.ob("js.fetch.%s.address" % key, r.isaddr(r.field(x, "address"), ks[i]), "%s pairs an account with the wrong address" % fn)
                            j.ob("js.fetch.%s.exists" % key, r.field(x, "exists") is here[i], "%s misreports whether an account exists" % fn)
                            if here[i]:
                                fields_ok(j, r, "js.fetch.%s.data" % key, r.field(x, "data"), fields, cells_of(("addr", "k%d" % order[i])), fn)
                j.each(many, chain)

        def bad(r):
            for fn in ("fetch" + P, "fetchMaybe" + P):
                ok, v = r.call(fn, r.models.rpc(r.m), r.addr("k0"))
                j.ob("js.fetch.%s.corrupt" % key, not ok, "%s accepts a truncated account" % fn)
        j.each(bad, lambda k: dict(data=cells_of(k)[:-1], owner=PROGRAM))

        def down(r):
            for fn, a in (("fetch" + P, r.addr("k0")), ("fetchMaybe" + P, r.addr("k0")), ("fetchAll" + P, Arr([r.addr("k0")])), ("fetchAllMaybe" + P, Arr([r.addr("k0")]))):
                ok, v = r.call(fn, r.models.rpc(r.m), a)
                j.ob("js.fetch.%s.fail" % key, not ok, "%s hides a failure of the node" % fn)
        j.each(down, lambda k: None, fail=True)

    def ident(r):
        e = r.x("XorcaStakingProgramAccount")
        tags = {1: "State", 2: "PendingWithdraw"}
        for n in (0, 1, 2, 1024, 2048):
            for b in range(256 if n else 1):
                c = ([b] + [("b", "rest", i) for i in range(1, n)]) if n else []
                for form in (part(c), Obj({"data": part(c)})):
                    ok, v = r.call("identifyXorcaStakingProgramAccount", form)
                    want = tags.get(b) if n else None
                    if want is None:
                        j.ob("js.ident.account", not ok, "identifyXorcaStakingProgramAccount accepts discriminator %s" % (b if n else "of empty data"))
                    else:
                        j.ob("js.ident.account", ok and isnum(v) and v == r.field(e, want), "identifyXorcaStakingProgramAccount does not identify discriminator %d as %s" % (b, want))
        j.ob("js.ident.account", r.field(e, "State") != r.field(e, "PendingWithdraw"), "XorcaStakingProgramAccount gives both accounts one value")
    j.each(ident)


# ------------------------------------------------------------------ events and other types
def types(j, tier):
    for oid, P, variants in (("js.event", "Event", EVENT), ("js.update", "StateUpdateInstruction", SET)):
        low = P[0].lower() + P[1:]

        def f(r):
            for kind in ("Decoder", "Codec"):
                what = "get%s%s" % (P, kind)
                ok, c = r.call(what)
                for t in range(len(variants), 256):
                    ok, v = r.method(c, "decode", part([t] + data("e", 80)))
                    j.ob(oid + ".unknown", not ok, "%s accepts tag %d" % (what, t))
                for t, (name, flds) in enumerate(variants):
                    cells = [t] + data("e", sum(n for _, n in flds))
                    offs, o = [], 1
                    for n, k in flds:
                        offs.append((n, o, k))
                        o += k
                    for short in range(len(cells)):
                        ok, v = r.method(c, "decode", part(cells[:short]))
                        j.ob(oid + ".short", not ok, "%s accepts %d bytes of %s" % (what, short, name))
                    for more in ([], data("tail", 3)):
                        ok, v = r.method(c, "decode", part(cells + more))
                        j.ob(oid + ".total", ok, "%s throws on a %s the program writes" % (what, name))
                        if ok:
                            j.ob(oid + ".kind", r.field(v, "__kind") == name, "%s: tag %d is not %s" % (what, t, name))
                            fields_ok(j, r, oid + ".decode", v, offs, cells, what + " of " + name)
                            for t2, (n2, _) in enumerate(variants):
                                ok2, b = r.call("is" + P, n2, v)
                                j.ob(oid + ".is", ok2 and b is (n2 == name), "is%s(%r) is wrong for a %s" % (P, n2, name))
            for kind in ("Encoder", "Codec"):
                what = "get%s%s" % (P, kind)
                ok, c = r.call(what)
                for t, (name, flds) in enumerate(variants):
                    cells = [t] + data("e", sum(n for _, n in flds))
                    offs, o = [], 1
                    for n, k in flds:
                        offs.append((n, o, k))
                        o += k
                    body = make_value(r, offs, cells)
                    full = Obj(dict({"__kind": name}, **body.p))
                    ok, v = r.method(c, "encode", full)
                    j.ob(oid + ".encode", ok and r.bytes(v, cells), "%s does not write %s as the program does" % (what, name))
                    ok, v = r.call(low, name, body)
                    j.ob(oid + ".make", ok and isinstance(v, Obj) and v.p == full.p, "%s(%r, ...) does not make the value" % (low, name))
                ok, v = r.method(c, "encode", Obj({"__kind": "NoSuchKind"}))
                j.ob(oid + ".unknown", not ok, "%s encodes an unknown kind" % what)
        j.each(f)

    def tok(r):
        for P, fields, size, conc in (("TokenAccount", TOKEN_FIELDS, 165, 108), ("TokenMint", MINT_FIELDS, 82, None)):
            for kind in ("Decoder", "Codec"):
                what = "get%s%s" % (P, kind)
                ok, c = r.call(what)
                for n in range(size):
                    cells = data("t", size)
                    if conc:
                        cells[conc] = 1
                    ok, v = r.method(c, "decode", part(cells[:n]))
                    j.ob("js.token.short", not ok, "%s accepts %d bytes" % (what, n))
                for st in (0, 1, 2) if conc else (None,):
                    cells = data("t", size)
                    if conc:
                        cells[conc] = st
                    ok, v = r.method(c, "decode", part(cells))
                    j.ob("js.token.decode", ok, "%s throws on a token account: %s" % (what, v))
                    if ok:
                        fields_ok(j, r, "js.token.decode", v, fields, cells, what)
            for kind in ("Encoder", "Codec"):
                what = "get%s%s" % (P, kind)
                ok, c = r.call(what)
                cells = data("t", size)
                if conc:
                    cells[conc] = 2
                ok, v = r.method(c, "encode", make_value(r, fields, cells))
                j.ob("js.token.encode", ok and r.bytes(v, cells), "%s does not write the token program's layout" % what)
    j.each(tok)


# ------------------------------------------------------------------ errors
def errors(j, tier):
    import re

    def const_name(n):
        return "XORCA_STAKING_PROGRAM_ERROR__" + re.sub(r"(?<!^)(?=[A-Z])", "_", n).upper()

    for env in ("test", None, "development", "production"):
        def f(r):
            for i, n in enumerate(ERRORS):
                v = r.x(const_name(n))
                j.ob("js.error.code", isnum(v) and v == 6000 + i, "%s is %r, the program's code is %d" % (const_name(n), v, 6000 + i))
                ok, t = r.call("getXorcaStakingProgramErrorMessage", 6000 + i)
                if env == "production":
                    j.ob("js.error.message", ok and isinstance(t, str) and (t == MESSAGES[i] or t not in MESSAGES), "getXorcaStakingProgramErrorMessage(%d) gives another error's message" % (6000 + i))
                else:
                    j.ob("js.error.message", ok and isinstance(t, str) and t.lower() == MESSAGES[i].lower(), "getXorcaStakingProgramErrorMessage(%d) is %r, the program says %r" % (6000 + i, t, MESSAGES[i]))
            known = {x for x in r.m.exports(r.mod) if x.startswith("XORCA_STAKING_PROGRAM_ERROR__")}
            j.ob("js.error.all", known == {const_name(n) for n in ERRORS}, "the client lists errors the program does not have: %s" % sorted(known - {const_name(n) for n in ERRORS}))
            for code in (UNDEF, 6007):
                r.models.requests.clear()
                e, tx = Obj({"e": 1}), Obj({"instructions": Obj({"0": Obj({"programAddress": r.addr("p")})})})
                ok, v = r.call("isXorcaStakingProgramError", e, tx, *([code] if code is not UNDEF else []))
                q = [x[1] for x in r.models.requests if x[0] == "isProgramError"]
                same = len(q) == 1 and q[0][0] is e and q[0][1] is tx and r.isaddr(arg(q[0], 2), PROGRAM) and (arg(q[0], 3) is UNDEF if code is UNDEF else arg(q[0], 3) == code)
                truth = r.ctx.facts.get(("truth", ("isProgramError",)))
                j.ob("js.error.is", ok and same and (isinstance(v, Opq) and v.t == ("isProgramError",) or isinstance(v, bool) and v == truth), "isXorcaStakingProgramError does not ask about the staking program's error")
        j.each(f, env=env)


# ------------------------------------------------------------------ chain queries
def rec_cells(k):
    return [2] + [("b", k, i) for i in range(1, 1024)]


def state_pda(r):
    return r.pda(PROGRAM, "state").a[0]


def vault_pda(r):
    return r.pda(ATA_PROGRAM, state_pda(r), *(r.models.encaddr(r.m, x) for x in (TOKEN_PROGRAM, ORCA_MINT))).a[0]


class World:
    """the accounts of the pool, with contents named by `tag`; any other address holds other bytes"""
    def __init__(self, tag="", missing=(), broken=()):
        self.tag, self.missing, self.broken, self.keys = tag, missing, broken, {}

    def bind(self, r):
        self.keys = {r.models.akey(r.m, state_pda(r)): "state", r.models.akey(r.m, vault_pda(r)): "vault", XORCA_MINT: "mint"}
        return self

    def cells(self, what):
        n = {"state": 2048, "vault": 165, "mint": 82}[what]
        c = [("b", what + self.tag, i) for i in range(n)]
        if what == "state":
            c[0] = 1
        if what == "vault":
            c[108] = 1
        return c

    def __call__(self, k):
        w = self.keys.get(k)
        if w in self.missing:
            return None
        if w is None:
            return dict(data=[("b", "other:%s" % show(k, 300), i) for i in range(4096)], owner="11111111111111111111111111111111")
        c = self.cells(w)
        return dict(data=c[:-1] if w in self.broken else c, owner=PROGRAM if w == "state" else TOKEN_PROGRAM)


def queries(j, tier):
    STATE, VAULT, MINT = "fetchStateAccountData", "fetchVaultState", "fetchXorcaMintSupply"
    COOL, RATE = "fetchStateAccountCoolDownPeriodS", "fetchStakingExchangeRate"
    uses = {STATE: ("state",), COOL: ("state",), VAULT: ("vault",), MINT: ("mint",), RATE: ("state", "vault", "mint")}

    def u(r, w, what, off, n, signed=False):
        return r.models.uint(r.m, w.cells(what)[off:off + n], signed, True)

    def answer(r, fn, w, ok, v, when=""):
        oid = "js.query"
        j.ob(oid + ".live", ok, "%s fails although the node answers and the accounts are genuine%s: %s%s" % (fn, when, v, r.cond()))
        if not ok:
            return
        if fn == STATE:
            fields_ok(j, r, oid + ".state", v, STATE_FIELDS, w.cells("state"), fn + when)
        elif fn == COOL:
            j.ob(oid + ".cooldown", isbig(v) and r.eq(v, poly(u(r, w, "state", 16, 8, True))), "%s is not the cooldown kept in the state account%s%s" % (fn, when, r.cond()))
        elif fn == VAULT:
            j.ob(oid + ".vault", r.isaddr(r.field(v, "address"), vault_pda(r)), "%s does not name the program's vault%s" % (fn, when))
            j.ob(oid + ".vault", r.isaddr(r.field(v, "mint"), w.cells("vault")[0:32]), "%s: mint is not the account's%s" % (fn, when))
            j.ob(oid + ".vault", r.isaddr(r.field(v, "owner"), w.cells("vault")[32:64]), "%s: owner is not the account's%s" % (fn, when))
            a = r.field(v, "amount")
            j.ob(oid + ".vault", isbig(a) and r.eq(a, poly(u(r, w, "vault", 64, 8))), "%s: amount is not the vault's balance%s%s" % (fn, when, r.cond()))
        elif fn == MINT:
            j.ob(oid + ".supply", isbig(v) and r.eq(v, poly(u(r, w, "mint", 36, 8))), "%s is not the xORCA supply%s%s" % (fn, when, r.cond()))
        else:
            n, d = r.field(v, "numerator"), r.field(v, "denominator")
            want = padd(poly(u(r, w, "vault", 64, 8)), poly(u(r, w, "state", 8, 8)), -1)
            j.ob(oid + ".rate", isbig(n) and r.eq(n, want), "%s: numerator is not the vault's balance minus the escrow%s%s" % (fn, when, r.cond()))
            j.ob(oid + ".rate", isbig(d) and r.eq(d, poly(u(r, w, "mint", 36, 8))), "%s: denominator is not the xORCA supply%s%s" % (fn, when, r.cond()))

    for fn, need in uses.items():
        def live(r):
            w1 = r.models.chain = World().bind(r)
            if fn == RATE:
                # the program keeps escrow <= vault balance
                v, e = u(r, w1, "vault", 64, 8), u(r, w1, "state", 8, 8)
                s = padd(v.p, e.p, -1)
                r.ctx.facts[(s, "<")] = False
            rpc = r.models.rpc(r.m)
            ok, v = r.call(fn, rpc)
            answer(r, fn, w1, ok, v)
            # the same client later: the answer follows the chain
            w2 = r.models.chain = World("'").bind(r)
            if fn == RATE:
                r.ctx.facts[(padd(u(r, w2, "vault", 64, 8).p, u(r, w2, "state", 8, 8).p, -1), "<")] = False
            for x in (rpc, r.models.rpc(r.m)):
                ok, v = r.call(fn, x)
                answer(r, fn, w2, ok, v, " on a later call")
        j.each(live)
        for k in ("state", "vault", "mint"):
            for how in ("missing", "broken"):
                def gone(r):
                    w = r.models.chain = World(missing=(k,) if how == "missing" else (), broken=(k,) if how == "broken" else ()).bind(r)
                    ok, v = r.call(fn, r.models.rpc(r.m))
                    if k in need:
                        j.ob("js.query.refuse", not ok, "%s answers although the %s account is %s" % (fn, k, "missing" if how == "missing" else "truncated"))
                    else:
                        answer(r, fn, w, ok, v)
                j.each(gone)

        def down(r):
            r.models.chain = World().bind(r)
            ok, v = r.call(fn, r.models.rpc(r.m))
            j.ob("js.query.refuse", not ok, "%s hides a failure of the node" % fn)
        j.each(down, fail=True)


KINDS = ("record", "missing", "empty", "truncated", "foreign")


def listing(j, tier):
    fn = "fetchPendingWithdrawsForStaker"
    oid = "js.listing"
    tops = [None] + list(range(256))

    class Chain:
        def __init__(self, r, who, pat, tag=""):
            self.at = {r.models.akey(r.m, r.pda(PROGRAM, "pending_withdraw", who, [i]).a[0]): i for i in range(256)}
            self.pat, self.tag, self.who = pat, tag, r.models.encaddr(r.m, who)

        def cells(self, i):
            """a record of the staker at index i, as the program writes it"""
            c = rec_cells(("rec%s" % self.tag, i))
            c[7] = i
            c[8:40] = self.who
            return c

        def __call__(self, k):
            i = self.at.get(k)
            if i is None:
                return dict(data=rec_cells(("other", show(k, 300))), owner=PROGRAM)
            kind = self.pat(i)
            if kind == "missing":
                return None
            c = self.cells(i)
            if kind == "empty":
                return dict(data=[], owner="11111111111111111111111111111111")
            if kind == "truncated":
                return dict(data=c[:500], owner="11111111111111111111111111111111")
            if kind == "foreign":
                return dict(data=[9] + c[1:], owner="11111111111111111111111111111111")
            return dict(data=c, owner=PROGRAM)

    def judge(r, ok, v, ch, top, when=""):
        j_ = r.j
        j_.ob(oid + ".live", ok, "%s fails for limit %s although the node answers%s: %s%s" % (fn, top, when, v, r.cond()))
        if not ok:
            return
        want = [i for i in range(15 if top is None else top) if ch.pat(i) == "record"]
        el = v.a if isinstance(v, Arr) else []
        j_.ob(oid + ".count", isinstance(v, Arr) and len(el) == len(want), "%s lists %d records for limit %s, %d exist%s%s" % (fn, len(el), top, len(want), when, r.cond()))
        for i, x in zip(want, el):
            n = 0
            for name, off, k in REC_FIELDS:
                n += value_ok(r, r.field(x, camel(name)), ch.cells(i)[off:off + k], name)
            j_.ob(oid + ".data", n == len(REC_FIELDS), "%s: entry %d is not the record of index %d%s%s" % (fn, want.index(i), i, when, r.cond()))

    def one(j, top):
        pats = [lambda i, s=s: KINDS[(i + i // 100 + s) % 5] for s in ((0, 2, 4) if j.tier == "thorough" else (top or 0,))] + [lambda i: "record"]
        if top in (None, 0, 1, 2, 3):
            pats = [lambda i, n=n: KINDS[n // 5 ** (i % 3) % 5] for n in range(125)]
        if top in (None, 101, 255):
            n = 15 if top is None else top
            at = lambda c: (lambda i: "record" if c(i) else "missing")
            pats += [at(lambda i, k=k: i == k) for k in (0, 1, 2, 9, 10, 14, 63, 64, 99, 100, 101, 127, 128, 199, 200, 253, 254) if k < n]
            pats += [at(lambda i, m=m: m >> min(i // 100, 2) & 1) for m in range(7)]
            pats += [at(lambda i, m=m: i % m == m - 1) for m in (2, 7)] + [at(lambda i: i != n - 1), at(lambda i: i != 0)]
        for pat in pats:
            def f(r):
                who = r.addr("staker")
                ch = r.models.chain = Chain(r, who, pat)
                ok, v = r.call(fn, r.models.rpc(r.m), who, *([] if top is None else [top]))
                judge(r, ok, v, ch, top)
                big = max([len(q[1]) for q in r.models.requests] or [0])
                r.j.ob(oid + ".batch", big <= 100, "%s asks for %d accounts at once for limit %s; nodes refuse more than 100" % (fn, big, top))
            j.each(f)
    j.parallel(one, tops)

    def history(r):
        rpc = r.models.rpc(r.m)
        for n, (w, tag, top) in enumerate((("staker", "", 4), ("staker", "'", 4), ("other", "''", 4), ("staker", "'''", 6))):
            who = r.addr(w)
            ch = r.models.chain = Chain(r, who, (lambda i: "record") if n % 2 else (lambda i: KINDS[i % 2]), tag)
            ok, v = r.call(fn, rpc if n < 2 else r.models.rpc(r.m), who, top)
            judge(r, ok, v, ch, top, " on a later call")
    j.each(history)

    def refuse(r, v, what):
        ok, x = r.call(fn, r.models.rpc(r.m), r.addr("staker"), v)
        j.ob(oid + ".limit", not ok, "%s accepts %s as the limit%s" % (fn, what, r.cond()))
    nothing = lambda k: None
    for lo, hi, what in [(-2 ** 1024, -EPS, "a negative number"), (255 + EPS, 2 ** 1024, "a number above 255")] + [(k + EPS, k + 1 - EPS, "a fraction between %d and %d" % (k, k + 1)) for k in range(255)]:
        kinds = ("frac",) if "fraction" in what else ("real",)
        j.each(lambda r: refuse(r, r.ctx.var(("in", "limit"), lo, hi, False, kinds[0]), what), nothing)
    for v in (float("nan"), INF, -INF, -1, 256, 257, 1000):
        j.each(lambda r: refuse(r, v, str(v)), nothing)

    def down(r):
        ok, v = r.call(fn, r.models.rpc(r.m), r.addr("staker"), 3)
        j.ob(oid + ".fail", not ok, "%s hides a failure of the node" % fn)
    j.each(down, nothing, fail=True)


SECTIONS = {"conversion": conversion, "addresses": addresses, "instructions": instructions, "accounts": accounts, "types": types, "errors": errors, "queries": queries, "listing": listing}


def evaluate(tier="quick", want=None):
    j = J(tier)
    for n in want or list(SECTIONS):
        SECTIONS[n](j, tier)
    return j
