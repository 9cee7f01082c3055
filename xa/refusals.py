"""Why each instruction may fail.  The program is interpreted with every way to fail kept apart;
at each failing exit (error return or panic) the conditions that hold there must imply one of the
documented reasons below, and the code returned must be the one documented for that reason.  So an
input for which none of the reasons applies is never refused."""
from .term import *
from .models import *
from .ai import Obj, pieces
from .program import analyse, PROG, IX_LEN, N_ACC
from .sem import Exit
from .rules import *

(UNKNOWN_IX, PROGRAM_CODE, ROLE, KEYS, OWNER, SEEDS, ADDRESS, DATA_CODE, ARITH, FUNDS, ALREADY, COOLING, EMIT, NEGATIVE,
 STAKE_SMALL, UNSTAKE_SMALL, ESCROW, COOL_OVER, BACKING, DEPLOYER_CODE) = range(6000, 6020)
SYSVAR = "system variable"      # the runtime's own failure, passed on
ERRNAME = {6000: "UnknownInstructionDiscriminator", 6001: "IncorrectProgramId", 6002: "InvalidAccountRole", 6003: "NotEnoughAccountKeys",
           6004: "IncorrectOwner", 6005: "InvalidSeeds", 6006: "IncorrectAccountAddress", 6007: "InvalidAccountData", 6008: "ArithmeticError",
           6009: "InsufficientFunds", 6010: "StateAccountAlreadyInitialized", 6011: "CoolDownPeriodStillActive", 6012: "EmitEventError",
           6013: "InvalidCoolDownPeriod", 6014: "InsufficientStakeAmount", 6015: "InsufficientUnstakeAmount", 6016: "InsufficientEscrow",
           6017: "CoolDownOverflow", 6018: "InsufficientVaultBacking", 6019: "UnauthorizedDeployerAccess"}


class F:
    """one failing exit"""

    def __init__(self, e, name):
        self.e, self.name = e, name
        self.r = ROLES.get(name)

    key = R.key
    ix = R.ix
    d = R.d

    def reasons(self):
        """[(codes, label, [alternatives: (term, polarity)])]"""
        e, out = self.e, []

        def why(codes, label, *alts):
            out.append((codes if isinstance(codes, tuple) else (codes,), label, alts))
        why(PROGRAM_CODE, "program id", (eq(PROG, PROGRAM_ID), False))
        tag = self.ix(0, 1)
        why(UNKNOWN_IX, "no tag", (ult(IX_LEN, c8(1)), True))
        why(UNKNOWN_IX, "unknown tag", (ult(u8(4), tag), True))
        if self.name is None:
            return out
        need = ARGS.get(self.name)
        if need:
            why(UNKNOWN_IX, "short payload", (ult(IX_LEN, c8(need)), True))
        else:
            sub_ = self.ix(1, 1)
            why(UNKNOWN_IX, "short payload", (ult(IX_LEN, c8(2)), True))
            why(UNKNOWN_IX, "unknown request", (ult(u8(1), sub_), True))
            v = e.st.val(sub_)
            if v.c is not None:
                why(UNKNOWN_IX, "short payload", (ult(IX_LEN, c8(10 if v.c == 0 else 34)), True))
        nacc = 1 + max(self.r.values())
        why(KEYS, "too few accounts", (ult(N_ACC, c8(nacc)), True))
        for j, (nm, (sg, wr)) in enumerate(INTERFACE[self.name][1]):
            if sg:
                why(ROLE, nm + " does not sign", (eq(e.init(j, "is_signer"), u8(0)), True))
            if wr:
                why(ROLE, nm + " is not writable", (eq(e.init(j, "is_writable"), u8(0)), True))
        for s in ("clock", "rent"):
            why(SYSVAR, "no " + s, (eq(sym(("sysret", s), 8), const(0, 8)), False))
        getattr(self, self.name)(why)
        return out

    # ---- shared reasons
    def at(self, why, role, addr, code=ADDRESS):
        why(code, "address of " + role, (eq(self.key(role), addr), False))

    def owner(self, why, role, prog):
        why(OWNER, "owner of " + role, (eq(self.e.init(self.r[role], "owner"), prog), False))

    def length(self, why, role, n):
        why(DATA_CODE, "size of " + role, (ult(self.e.init(self.r[role], "data_len"), c8(n)), True))

    def derived(self, why, role, prog, base, stored):
        """refused when the address is not the derived one, under the stored or the canonical bump,
        or when the stored bump derives no address"""
        alts = []
        for b in ([stored] if stored is not None else []) + [bump(prog, *base)]:
            alts += [(eq(self.key(role), pda(prog, *base, b)), False), (eq(func("pda_err", (prog, cat(list(base) + [b])), 8), const(0, 8)), True)]
            alts[-1] = (alts[-1][0], False)
        alts.append((eq(func("findpda_err", (prog, cat(list(base))), 8), const(0, 8)), False))
        why((SEEDS, None), "derived address of " + role, *alts)

    def mint(self, why, role):
        self.at(why, role, ORCA if role == "omint" else XORCA)
        self.owner(why, role, T_TOKEN)
        self.length(why, role, 82)
        why(DATA_CODE, "malformed mint " + role, (ult(u8(1), self.d(role, 45, 1)), True))

    def tokens(self, why, role, holder, mint):
        self.owner(why, role, T_TOKEN)
        self.length(why, role, 165)
        why(DATA_CODE, "malformed token account " + role, (ult(u8(2), self.d(role, 108, 1)), True))
        why(DATA_CODE, "holder of " + role, (eq(self.d(role, 32, 32), self.key(holder)), False))
        why(DATA_CODE, "mint of " + role, (eq(self.d(role, 0, 32), self.key(mint)), False))

    def state(self, why):
        self.owner(why, "state", PROGRAM_ID)
        self.length(why, "state", STATE_LEN)
        why(DATA_CODE, "type of state", (eq(self.d("state", 0, 1), u8(1)), False))
        self.derived(why, "state", PROGRAM_ID, (SEED_STATE,), self.d("state", 6, 1))

    def vault(self, why):
        self.derived(why, "vault", T_ATA, (self.key("state"), T_TOKEN, self.key("omint")), self.d("state", 7, 1))
        self.tokens(why, "vault", "state", "omint")

    def exact128(self, a, num, den):
        x = mul(zx(a, 16), add(zx(num, 16), const(100, 16)))
        return udiv(x, add(zx(den, 16), const(100, 16)))

    def token_range(self, why, *pairs):
        """balances and supplies are 64-bit: the token program refuses to exceed that"""
        for x, y in pairs:
            why(None, "beyond the token program's 64 bits", (uaddo(x, y), True), (uaddo(y, x), True))

    def too_big(self, a, num):
        x, y = zx(a, 16), add(zx(num, 16), const(100, 16))
        return (umulo(x, y), True), (umulo(y, x), True)

    # ---- the instructions
    def stake(self, why):
        a = self.ix(1, 8)
        V, ESC, S = self.d("vault", 64, 8), self.d("state", 8, 8), self.d("xmint", 36, 8)
        N = sub(V, ESC)
        self.mint(why, "omint"), self.mint(why, "xmint")
        self.at(why, "token", T_TOKEN)
        self.state(why), self.vault(why)
        self.tokens(why, "uorca", "user", "omint"), self.tokens(why, "uxorca", "user", "xmint")
        why(FUNDS, "balance", (ult(self.d("uorca", 64, 8), a), True))
        why(BACKING, "vault below escrow", (ult(V, ESC), True))
        q = self.exact128(a, S, N)
        why(ARITH, "minted amount beyond 64 bits", (ult(const(MAXU64, 16), q), True))
        why(ARITH, "product beyond 128 bits", *self.too_big(a, S))
        E = ite(bor(eq(S, c8(0)), eq(N, c8(0))), a, ext(q, 0, 8))
        self.token_range(why, (V, a), (S, E), (self.d("uxorca", 64, 8), E), (S, a), (self.d("uxorca", 64, 8), a), (S, ext(q, 0, 8)), (self.d("uxorca", 64, 8), ext(q, 0, 8)))
        why(STAKE_SMALL, "nothing minted", (eq(ext(q, 0, 8), c8(0)), True), (eq(a, c8(0)), True), (eq(q, const(0, 16)), True))

    def unstake(self, why):
        x, idx = self.ix(1, 8), self.ix(9, 1)
        V, ESC, S = self.d("vault", 64, 8), self.d("state", 8, 8), self.d("xmint", 36, 8)
        N = sub(V, ESC)
        self.mint(why, "omint"), self.mint(why, "xmint")
        why(DATA_CODE, "mint authority", (eq(self.d("xmint", 0, 4), const(0, 4)), True), (eq(self.d("xmint", 4, 32), self.key("state")), False))
        why(DATA_CODE, "freeze authority", (eq(self.d("xmint", 46, 4), const(0, 4)), False))
        self.at(why, "token", T_TOKEN), self.at(why, "system", T_SYS)
        self.state(why), self.vault(why)
        self.tokens(why, "uxorca", "user", "xmint")
        self.owner(why, "rec", T_SYS)
        self.derived(why, "rec", PROGRAM_ID, rec_base(self, idx), None)
        why(FUNDS, "balance", (ult(self.d("uxorca", 64, 8), x), True))
        why(BACKING, "vault below escrow", (ult(V, ESC), True))
        why(ARITH, "empty pool", (eq(S, c8(0)), True), (eq(N, c8(0)), True))
        q = self.exact128(x, N, S)
        E = ext(q, 0, 8)
        why(ARITH, "owed amount beyond 64 bits", (ult(const(MAXU64, 16), q), True))
        why(ARITH, "product beyond 128 bits", *self.too_big(x, N))
        why(UNSTAKE_SMALL, "nothing owed", (eq(E, c8(0)), True), (eq(q, const(0, 16)), True))
        why(None, "supply below the unstaked amount", (ult(S, x), True))
        why(ARITH, "escrow overflow", (uaddo(ESC, E), True), (uaddo(E, ESC), True))
        now, cd = rbytes("clock", 32, 8), self.d("state", 16, 8)
        why(COOL_OVER, "unlock time overflow", (saddo(now, cd), True), (saddo(cd, now), True))

    def withdraw(self, why):
        idx = self.ix(1, 1)
        A, T0, ESC = self.d("rec", 40, 8), self.d("rec", 48, 8), self.d("state", 8, 8)
        self.mint(why, "omint")
        self.at(why, "token", T_TOKEN), self.at(why, "system", T_SYS)
        self.state(why), self.vault(why)
        self.tokens(why, "uorca", "user", "omint")
        self.owner(why, "rec", PROGRAM_ID)
        self.length(why, "rec", REC_LEN)
        why(DATA_CODE, "type of rec", (eq(self.d("rec", 0, 1), u8(2)), False))
        self.derived(why, "rec", PROGRAM_ID, rec_base(self, idx), self.d("rec", 6, 1))
        why(COOLING, "still cooling down", (slt(rbytes("clock", 32, 8), T0), True))
        why(None, "vault below amount", (ult(self.d("vault", 64, 8), A), True))
        self.token_range(why, (self.d("uorca", 64, 8), A))
        why(ESCROW, "escrow below amount", (ult(ESC, A), True))

    def set(self, why):
        self.state(why)
        self.at(why, "user", self.d("state", 24, 32))
        v = self.e.st.val(self.ix(1, 1))
        if v.c == 0:
            why(NEGATIVE, "negative cooldown", (slt(self.ix(2, 8), c8(0)), True))

    def initialize(self, why):
        cd = self.ix(1, 8)
        self.mint(why, "omint"), self.mint(why, "xmint")
        self.at(why, "user", DEPLOYER, DEPLOYER_CODE)
        self.at(why, "token", T_TOKEN), self.at(why, "system", T_SYS), self.at(why, "ata", T_ATA)
        self.derived(why, "state", PROGRAM_ID, (SEED_STATE,), None)
        self.owner(why, "state", T_SYS)
        why(ALREADY, "already initialised", (eq(self.e.init(self.r["state"], "data_len"), c8(0)), False))
        self.derived(why, "vault", T_ATA, (self.key("state"), T_TOKEN, self.key("omint")), None)
        self.owner(why, "vault", T_SYS)
        why(ADDRESS, "mint authority", (eq(self.d("xmint", 4, 32), self.key("state")), False))
        why(DATA_CODE, "mint authority", (eq(self.d("xmint", 0, 4), const(1, 4)), False))
        why(DATA_CODE, "supply", (eq(self.d("xmint", 36, 8), c8(0)), False))
        why(DATA_CODE, "freeze authority", (eq(self.d("xmint", 46, 4), const(0, 4)), False), (eq(self.d("xmint", 50, 32), const(0, 32)), False))
        for r in ("xmint", "omint"):
            why(DATA_CODE, "decimals of " + r, (eq(self.d(r, 44, 1), u8(6)), False))
        why(NEGATIVE, "negative cooldown", (slt(cd, c8(0)), True))


def code_of(m, s, v, rt):
    """custom code of the error returned, a string for the runtime's own errors, None if unknown"""
    s.mem[("R",)] = Obj({o: t for o, t in pieces(v)})
    s.own.add(("R",))
    try:
        d = s.val(m.discr(s, ("R",), 0, rt, 8))
        kind = s.val(as_term_at(m, s, 0, 4))
        code = s.val(as_term_at(m, s, 4, 4))
    finally:
        del s.mem[("R",)]
        s.own.discard(("R",))
    if d.c == 0:
        return "ok"
    if d.c != 1 or kind.c is None:
        return None
    if kind.c == 0:
        return code.c
    return "builtin %d" % kind.c


def as_term_at(m, s, off, n):
    from .ai import as_term
    return as_term(m.read(s, ("R",), off, n))


def evaluate(tier="quick", seen=None):
    m, iid, res = analyse(refusals=True)
    rt = m.p.insts[iid]["body"]["locals"][0]
    tag = rbytes(("ix",), 0, 1)
    fails = []
    for s, v in res:
        c = code_of(m, s, v, rt)
        if c != "ok":
            fails.append((s, c, "returns"))
    fails += [(s, None, "panics: " + w) for s, w in m.stops]
    obs, count = [], {}
    reached, panics = {}, {}
    for s, c, how in fails:
        if not s.saturate():
            continue
        e = Exit(m, s)
        if any(v and t.op == "uaddo" and all(e.is_lamports(x) for x in t.a) for t, v in s.facts.items()):
            continue        # there are fewer than 2^64 lamports
        name = NAMES.get(s.val(tag).c)
        f = F(e, name)
        count[name or "dispatch"] = count.get(name or "dispatch", 0) + 1
        pre = name or "dispatch"
        ok, named = justify(f, c)
        if seen is not None:
            seen.append((pre, c, how, ok, named, e))
        if how.startswith("panics") and not (ok and named):
            panics.setdefault(pre, []).append("%s (%s)" % (how, describe(e)))
        what = how if c is None else "%s %s" % (how, ERRNAME.get(c, c))
        obs.append((pre + ".refuse", bool(ok), "%s %s although nothing is wrong with the request (%s)" % (pre, what, describe(e))))
        if ok:
            obs.append((pre + ".code", named, "%s %s although the reason is: %s" % (pre, what, ok[0])))
            for l in ok:
                reached.setdefault(pre, set()).add(l)
    for n in list(NAMES.values()) + ["dispatch"]:
        obs.append(("%s.refusals" % n, count.get(n, 0) > 0, "%s never fails" % n))
        obs.append(("%s.panic" % n, n not in panics, "%s aborts: %s" % (n, "; ".join(panics.get(n, [])[:3]))))
    return obs, dict(failing_exits=count, reasons_met={k: sorted(v) for k, v in reached.items()}), m


def justify(f, c, depth=8, within=None):
    """labels of the reasons that hold at this exit; whether one of them is documented for code c.
    A disjunction among the exit's conditions is taken apart when neither side alone is decided."""
    ok = [(l, codes) for codes, l, alts in f.reasons() if any(f.e.holds(t, v) for t, v in alts)]
    if ok:
        return judge(ok, c)
    if depth == 0:
        return [], False
    for t, v in list(f.e.st.facts.items()):
        if within is not None and t not in within:
            continue
        if t.op == "not":
            t, v = t.a[0], not v
        if v and t.op == "bor" or not v and t.op == "band":
            ways = (((t.a[0], v),), ((t.a[0], not v), (t.a[1], v)))
        elif t.op == "ite":
            ways = (((t.a[0], True), (t.a[1], v)), ((t.a[0], False), (t.a[2], v)))
        else:
            continue
        if within is None and len([x for x in walk(t)]) > 400:
            continue
        out, named = [], True
        for w in ways:
            s = f.e.st.fork()
            if not all(s.assume(x, y) for x, y in w) or not s.saturate():
                continue
            o, n = justify(F(Exit(f.e.m, s), f.name), c, depth - 1, set(walk(t)))
            if not o:
                break
            out += o
            named = named and n
        else:
            return out, named
    return [], False


def judge(ok, c):
    named = any(c in codes or SYSVAR in codes for l, codes in ok)
    return [l for l, _ in ok], named


def describe(e):
    fs = [(t, v) for t, v in e.st.facts.items() if t.op in ISBOOL]
    return "; ".join(("" if v else "not ") + show(t)[:90] for t, v in fs[-2:])
