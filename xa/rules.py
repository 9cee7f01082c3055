"""Obligations of the on-chain program, evaluated at every successful exit of every instruction."""
from .term import *
from .models import *
from .ai import State, Obj, pieces
from .program import PROG, IX_LEN, N_ACC
from .sem import Exit

PROGRAM_ID = key_const("StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT")
ORCA = key_const("orcaEKTdK7LKz57vaAYr9QeNsVEPfiu6QeMU1kektZE")
XORCA = key_const("xorcaYqbXUNz3474ubUMJAdu2xgPsew3rUCe5ughT3N")
DEPLOYER = key_const("94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT")
T_SYS = T_SYSTEM

NAMES = {0: "stake", 1: "unstake", 2: "withdraw", 3: "initialize", 4: "set"}
ROLES = {
    "stake": dict(user=0, vault=1, uorca=2, uxorca=3, xmint=4, state=5, omint=6, token=7),
    "unstake": dict(user=0, state=1, rec=2, uxorca=3, xmint=4, omint=5, vault=6, system=7, token=8),
    "withdraw": dict(user=0, state=1, rec=2, uorca=3, vault=4, omint=5, system=6, token=7),
    "initialize": dict(user=0, upd=1, state=2, vault=3, xmint=4, omint=5, system=6, token=7, ata=8),
    "set": dict(user=0, state=1),
}
# the published interface: position -> (name, signer, writable)
W, RO, WS = (0, 1), (0, 0), (1, 1)
INTERFACE = {
    "stake": (0, [("staker_account", WS), ("vault_account", W), ("staker_orca_ata", W), ("staker_xorca_ata", W), ("xorca_mint_account", W),
                  ("state_account", RO), ("orca_mint_account", RO), ("token_program_account", RO)],
              [("orca_stake_amount", 8)]),
    "unstake": (1, [("unstaker_account", WS), ("state_account", W), ("pending_withdraw_account", W), ("unstaker_xorca_ata", W), ("xorca_mint_account", W),
                    ("orca_mint_account", RO), ("vault_account", RO), ("system_program_account", RO), ("token_program_account", RO)],
                [("xorca_unstake_amount", 8), ("withdraw_index", 1)]),
    "withdraw": (2, [("unstaker_account", WS), ("state_account", W), ("pending_withdraw_account", W), ("unstaker_orca_ata", W), ("vault_account", W),
                     ("orca_mint_account", RO), ("system_program_account", RO), ("token_program_account", RO)],
                 [("withdraw_index", 1)]),
    "initialize": (3, [("payer_account", WS), ("update_authority_account", WS), ("state_account", W), ("vault_account", W), ("xorca_mint_account", RO),
                       ("orca_mint_account", RO), ("system_program_account", RO), ("token_program_account", RO), ("associated_token_program_account", RO)],
                   [("cool_down_period_s", 8)]),
    "set": (4, [("update_authority_account", WS), ("state_account", W)], [("instruction_data", None)]),
}
LABEL = {"user": "the signing user", "vault": "the vault", "uorca": "the user's ORCA account",
         "uxorca": "the user's xORCA account", "xmint": "the xORCA mint", "omint": "the ORCA mint", "state": "the state account",
         "rec": "the pending-withdrawal record", "token": "the token program", "system": "the system program",
         "ata": "the associated-token program", "upd": "the initial update authority"}
STATE_LEN, REC_LEN = 2048, 1024
SEED_STATE = const(int.from_bytes(b"state", "little"), 5)
SEED_REC = const(int.from_bytes(b"pending_withdraw", "little"), 16)
MAXU64 = (1 << 64) - 1


def c8(v):
    return const(v, 8)


def u8(v):
    return const(v, 1)


def pda(prog, *seeds):
    return func("pda", (prog, cat(list(seeds))), 32)


def bump(prog, *seeds):
    return func("bump", (prog, cat(list(seeds))), 1)


class R:
    """one exit under scrutiny; obligations are appended to self.out"""

    def __init__(self, e, name, k):
        self.e, self.name, self.k = e, name, k
        self.r = ROLES[name]
        self.out = []

    def ob(self, oid, ok, msg):
        self.out.append((self.name + "." + oid, bool(ok), "%s (exit %d of %s)" % (msg, self.k, self.name)))

    # shorthand
    def key(self, role):
        return self.e.init(self.r[role], "key")

    def ix(self, off, n):
        return rbytes(("ix",), off, n)

    def d(self, role, off, n):
        return self.e.init(self.r[role], "data", off, n)

    def f(self, role, off, n):
        return self.e.final(self.r[role], "data", off, n)

    # ------------------------------------------------ authenticity of accounts
    def signer(self, role):
        self.ob("signer." + role, self.e.holds(eq(self.e.init(self.r[role], "is_signer"), u8(0)), False),
                "succeeds without the signature of " + LABEL[role])

    def at(self, role, addr, what):
        self.ob("addr." + role, self.e.same(self.key(role), addr), "accepts %s at an address other than %s" % (LABEL[role], what))

    def owner(self, role, prog, what):
        self.ob("owner." + role, self.e.same(self.e.init(self.r[role], "owner"), prog), "accepts %s not owned by %s" % (LABEL[role], what))

    def auth_state(self):
        k, e = self.key("state"), self.e
        self.ob("addr.state", e.same(k, pda(PROGRAM_ID, SEED_STATE, self.d("state", 6, 1))) or
                e.same(k, pda(PROGRAM_ID, SEED_STATE, bump(PROGRAM_ID, SEED_STATE))),
                "accepts a state account that is not at the program's derived state address")
        self.owner("state", PROGRAM_ID, "the program")
        self.ob("tag.state", e.same(self.d("state", 0, 1), u8(1)), "accepts a state account without the state type tag")

    def auth_vault(self):
        e = self.e
        base = (self.key("state"), T_TOKEN, self.key("omint"))
        ok = any(e.same(self.key("vault"), pda(T_ATA, *base, b)) for b in (self.d("state", 7, 1), bump(T_ATA, *base)))
        self.ob("addr.vault", ok, "accepts a vault that is not the state account's associated ORCA account")
        self.token_acct("vault", "state", "omint")

    def token_acct(self, role, owner, mint):
        e = self.e
        self.owner(role, T_TOKEN, "the token program")
        self.ob("holder." + role, e.same(self.d(role, 32, 32), self.key(owner)), "accepts %s although it does not belong to %s" % (LABEL[role], LABEL[owner]))
        self.ob("mint." + role, e.same(self.d(role, 0, 32), self.key(mint)), "accepts %s although it is not for %s" % (LABEL[role], LABEL[mint]))

    def mints(self, *roles):
        for role in roles:
            self.at(role, ORCA if role == "omint" else XORCA, "the fixed mint address")
            self.owner(role, T_TOKEN, "the token program")

    # ------------------------------------------------ effects
    def only(self, oid, allowed, what):
        """account memory that may differ from entry: {role: [(field, off, n)]}"""
        al = {self.r[r]: v for r, v in allowed.items()}
        names = {v: k for k, v in self.r.items()}
        for i, f, off, n in self.e.touched():
            ok = False
            for af, ao, an in al.get(i, ()):
                if af == f and (an is None or n is not None and off >= ao and off + n <= ao + an):
                    ok = True
            if not ok:
                lab = LABEL[names[i]] if i in names else "account %s" % (i,)
                self.ob(oid, False, "%s: also changes %s of %s%s" % (what, f, lab, "" if n is None else " at bytes %d..%d" % (off, off + n)))
                return
        self.ob(oid, True, what)

    def keeps(self, oid, role, ranges, what):
        ok = all(self.e.unchanged(self.r[role], "data", a, b - a) for a, b in ranges)
        self.ob(oid, ok, what)

    def cpis(self):
        return [x for x in self.e.st.log if x[0] == "cpi"]

    def events(self):
        return [x for x in self.e.st.log if x[0] == "event"]

    def equal(self, oid, got, want, what):
        ok = self.e.prove(lambda c: c.same(got, want), (got, want))
        self.ob(oid, ok, "%s: is %s, expected %s" % (what, show(self.e.norm(got))[:160], show(self.e.norm(want))[:160]) if not ok else what)

    def event(self, *want):
        ev = self.events()
        if len(ev) != 1 or len(ev[0][1]) != 1:
            self.ob("event.count", False, "emits %d event records instead of one" % len(ev))
            return
        self.ob("event.count", True, "one event")
        got = ev[0][1][0]
        names = [w[0] for w in want]
        off = 0
        for nm, t in want:
            if off + t.n <= got.n:
                self.equal("event." + nm, ext(got, off, t.n), t, "event field %s is not the value that took effect" % nm)
            else:
                self.ob("event." + nm, False, "event has no field " + nm)
            off += t.n
        self.ob("event.size", off == got.n, "event record has %d bytes, expected %d" % (got.n, off))

    def exactness(self):
        """no persistent effect, payment or event of this exit depends on wrapped arithmetic"""
        e = self.e
        bad = []
        seen = 0
        for x in e.st.log:
            if x[0] == "w":
                ts = [x[4]]
            elif x[0] == "cpi":
                ts = [x[4]]
            elif x[0] == "event":
                ts = list(x[1])
            else:
                continue
            for t in ts:
                seen += 1
                if e.prove(lambda c, t=t: not c.inexact(t), (t,)):
                    continue
                bad += e.inexact(t)[:1]
        self.ob("exact", not bad, "a result depends on arithmetic that can wrap, truncate or divide by zero: %s" %
                (", ".join(show(b)[:120] for b in bad[:2])))

    # token and system calls ---------------------------------------------------
    def call_shape(self, c):
        """(kind, accounts by part, amount) of a token instruction"""
        _, k, prog, metas, data, seeds, pre = c
        st = self.e.st
        prog = self.e.norm(prog)
        tag = st.val(ext(data, 0, 1)).c if data.n else None
        acc = lambda i: metas[i][0] if i < len(metas) else None
        sg = lambda i: i < len(metas) and st.val(metas[i][3]).c not in (0, None)
        if prog is T_TOKEN:
            if (tag, data.n) in ((3, 9), (12, 10)):
                o = 1 if tag == 12 else 0
                return ("transfer", dict(src=acc(0), dst=acc(1 + o), auth=acc(2 + o), signed=sg(2 + o)), ext(data, 1, 8), seeds)
            if (tag, data.n) in ((7, 9), (14, 10)):
                return ("mint", dict(mint=acc(0), dst=acc(1), auth=acc(2), signed=sg(2)), ext(data, 1, 8), seeds)
            if (tag, data.n) in ((8, 9), (15, 10)):
                return ("burn", dict(src=acc(0), mint=acc(1), auth=acc(2), signed=sg(2)), ext(data, 1, 8), seeds)
            return ("token?%s" % tag, {}, None, seeds)
        if prog is T_SYS:
            t4 = st.val(ext(data, 0, 4)).c if data.n >= 4 else None
            return ({0: "create", 1: "assign", 2: "fund", 8: "allocate"}.get(t4, "system?%s" % t4),
                    dict(a=acc(0), b=acc(1)), None, seeds)
        if prog is T_ATA:
            return ("ata%s" % (tag if data.n else 0), dict(payer=acc(0), ata=acc(1), wallet=acc(2), mint=acc(3)), None, seeds)
        return ("unknown program", {}, None, seeds)

    def seeds_are(self, seeds, *want):
        """exactly one signer whose seeds concatenate to want"""
        return len(seeds) == 1 and self.e.same(cat(list(seeds[0])), cat(list(want))) if seeds and len(cat(list(seeds[0])).a if False else seeds) == 1 else False


def roles_state_seed_ok(r, seeds):
    e = r.e
    if len(seeds) != 1:
        return False
    s = cat(list(seeds[0]))
    return any(s.n == 6 and e.same(s, cat([SEED_STATE, b])) for b in (r.d("state", 6, 1), bump(PROGRAM_ID, SEED_STATE)))


def rec_base(r, index):
    return (SEED_REC, r.key("user"), index)


def conv(a, num, den):
    """floor(a * (num + 100) / (den + 100)) computed without loss, as 64 bits"""
    x = mul(zx(a, 16), add(zx(num, 16), const(100, 16)))
    return ext(udiv(x, add(zx(den, 16), const(100, 16))), 0, 8)


# -------------------------------------------------------------------- instructions
def rules_stake(r):
    e = r.e
    a = r.ix(1, 8)
    V, ESC, S = r.d("vault", 64, 8), r.d("state", 8, 8), r.d("xmint", 36, 8)
    N = sub(V, ESC)
    r.signer("user")
    r.mints("omint", "xmint")
    r.at("token", T_TOKEN, "the token program id")
    r.auth_state()
    r.auth_vault()
    r.token_acct("uorca", "user", "omint")
    r.token_acct("uxorca", "user", "xmint")
    m = None
    calls = [r.call_shape(c) for c in r.cpis()]
    tr = [c for c in calls if c[0] == "transfer"]
    mi = [c for c in calls if c[0] == "mint"]
    r.ob("calls", len(calls) == 2 and len(tr) == 1 and len(mi) == 1, "invokes %s instead of one transfer and one mint" % [c[0] for c in calls])
    if mi:
        m = mi[0][2]
        r.ob("mint.seeds", roles_state_seed_ok(r, mi[0][3]) and mi[0][1]["auth"] == r.r["state"] and mi[0][1]["signed"], "mints with an authority other than the state account")
    if tr:
        r.ob("pay.auth", tr[0][1]["auth"] == r.r["user"] and tr[0][1]["signed"] and not tr[0][3], "moves the user's ORCA under another authority than the user")
    boot = bor(eq(S, c8(0)), eq(N, c8(0)))
    E = ite(boot, a, conv(a, S, N))
    gain = sub(r.f("xmint", 36, 8), S)
    r.equal("rate", gain, E, "xORCA minted does not follow the exchange rate")
    r.equal("paid", sub(r.f("vault", 64, 8), V), a, "the vault does not receive exactly the staked ORCA")
    r.equal("debited", sub(r.d("uorca", 64, 8), r.f("uorca", 64, 8)), a, "the user is not debited exactly the staked ORCA")
    r.equal("credited", sub(r.f("uxorca", 64, 8), r.d("uxorca", 64, 8)), gain, "the user does not receive all minted xORCA")
    r.ob("nonzero", e.prove(lambda c: c.holds(eq(gain, c8(0)), False), (gain, E)), "succeeds although it mints nothing")
    r.ob("backed", e.no(ult(V, ESC)), "succeeds although the vault holds less than the escrow")
    r.only("only", {"vault": [("data", 64, 8)], "uorca": [("data", 64, 8)], "uxorca": [("data", 64, 8)], "xmint": [("data", 36, 8)]},
           "stake only moves tokens")
    r.event(("kind", u8(0)), ("staked", a), ("vault", add(V, a)), ("escrow", ESC), ("supply", add(S, E)), ("minted", E))
    r.exactness()


def fresh_pda(r, role, seeds, ln):
    """creation of a program account at its canonical derived address"""
    e, i = r.e, r.r[role]
    r.at(role, pda(PROGRAM_ID, *seeds, bump(PROGRAM_ID, *seeds)), "its canonical derived address")
    r.ob("new.%s" % role, e.same(e.init(i, "owner"), T_SYS), "creates %s over an account that already exists" % LABEL[role])
    rent = func("rent_min", (rbytes("rent", 0, 17), c8(ln)), 8)
    r.ob("made.owner." + role, e.same(e.final(i, "owner"), PROGRAM_ID), "%s does not end up owned by the program" % LABEL[role])
    r.ob("made.len." + role, e.same(e.final(i, "data_len"), c8(ln)), "%s does not have its full size" % LABEL[role])
    lam = e.final(i, "lamports")

    def funded(c):
        x = c.norm(lam)
        return c.same(x, rent) or c.no(ult(x, rent)) or c.st.decide(ult(rent, x)) is True or (x.op == "ite" and False)
    r.ob("made.rent." + role, e.prove(funded, (lam, rent)), "%s is left below the rent-exempt balance" % LABEL[role])
    ini0 = e.init(i, "lamports")
    r.ob("made.kept." + role, e.prove(lambda c: c.same(lam, ini0) or c.no(ult(c.norm(lam), c.norm(ini0))) or c.no(ult(lam, ini0)) or
                                      c.norm(ini0).c == 0 or c.same(lam, rent) and c.no(ult(rent, ini0)), (lam, rent)),
         "lamports already at the address of %s are lost" % LABEL[role])
    want = cat(list(seeds) + [bump(PROGRAM_ID, *seeds)])
    calls = []
    for c in r.cpis():
        k = r.call_shape(c)
        if k[0] in ("create", "allocate", "assign", "fund"):
            calls.append(k)
            who = [m[0] for m in c[3]]
            r.ob("made.calls." + role, who == ([r.r["user"], i] if k[0] in ("create", "fund") else [i]) and [x[0] for x in calls].count(k[0]) == 1,
                 "a %s call takes from or acts on another account than the payer and %s, or is made twice" % (k[0], LABEL[role]))
            if k[0] != "fund":
                s = k[3]
                r.ob("made.seeds." + role, len(s) == 1 and e.same(cat(list(s[0])), want), "%s is created under the wrong signer seeds" % LABEL[role])
            if k[0] == "create":
                # the system program refuses to create an account that holds lamports
                ini = e.init(i, "lamports")
                r.ob("made.create." + role, e.prove(lambda c: c.holds(eq(ini, c8(0))), (ini,)),
                     "creates %s with the plain create call although it may hold lamports already" % LABEL[role])
    return calls


def rules_unstake(r):
    e = r.e
    x, idx = r.ix(1, 8), r.ix(9, 1)
    V, ESC, S = r.d("vault", 64, 8), r.d("state", 8, 8), r.d("xmint", 36, 8)
    N = sub(V, ESC)
    CD = r.d("state", 16, 8)
    now = rbytes("clock", 32, 8)
    r.signer("user")
    r.mints("omint", "xmint")
    r.at("token", T_TOKEN, "the token program id")
    r.at("system", T_SYS, "the system program id")
    r.auth_state()
    r.auth_vault()
    r.token_acct("uxorca", "user", "xmint")
    base = rec_base(r, idx)
    sysc = fresh_pda(r, "rec", base, REC_LEN)
    calls = [r.call_shape(c) for c in r.cpis()]
    bu = [c for c in calls if c[0] == "burn"]
    r.ob("calls", len(bu) == 1 and len(calls) == 1 + len(sysc), "invokes %s besides one burn and the record's creation" % [c[0] for c in calls])
    if bu:
        r.ob("burn.auth", bu[0][1]["auth"] == r.r["user"] and bu[0][1]["signed"] and not bu[0][3], "burns under another authority than the user")
    E = conv(x, N, S)
    A = r.f("rec", 40, 8)
    r.equal("rate", A, E, "ORCA owed does not follow the exchange rate")
    r.ob("live", e.prove(lambda c: c.no(eq(S, c8(0))) and c.no(eq(N, c8(0))), (S, N)), "converts although supply or unescrowed vault is zero")
    r.equal("burned", sub(S, r.f("xmint", 36, 8)), x, "the supply does not fall by exactly the unstaked xORCA")
    r.equal("debited", sub(r.d("uxorca", 64, 8), r.f("uxorca", 64, 8)), x, "the user is not debited exactly the unstaked xORCA")
    r.equal("escrow", r.f("state", 8, 8), add(ESC, A), "escrow does not grow by exactly the amount owed")
    r.ob("nonzero", e.no(eq(A, c8(0))), "succeeds although nothing is owed")
    r.ob("backed", e.no(ult(V, ESC)), "succeeds although the vault holds less than the escrow")
    r.equal("rec.tag", r.f("rec", 0, 1), u8(2), "record type tag")
    r.equal("rec.bump", r.f("rec", 6, 1), bump(PROGRAM_ID, *base), "record bump")
    r.equal("rec.index", r.f("rec", 7, 1), idx, "record index")
    r.equal("rec.owner", r.f("rec", 8, 32), r.key("user"), "record does not name the unstaking user")
    r.equal("rec.time", r.f("rec", 48, 8), add(now, CD), "record unlock time is not now plus the cooldown")
    r.ob("rec.time.exact", e.no(saddo(now, CD)) or e.no(saddo(CD, now)), "unlock time can overflow")
    r.ob("rec.zero", all(e.same(r.f("rec", a, b - a), const(0, b - a)) for a, b in ((1, 6), (56, REC_LEN))), "record padding is not zero")
    al = {"uxorca": [("data", 64, 8)], "xmint": [("data", 36, 8)], "state": [("data", 8, 8)], "user": [("lamports", 0, 8)],
          "rec": [("data", 0, None), ("lamports", 0, None), ("data_len", 0, None), ("owner", 0, None)]}
    r.only("only", al, "unstake changes only supply, the user's xORCA, escrow and the new record")
    r.equal("fee", add(e.final(r.r["user"], "lamports"), e.final(r.r["rec"], "lamports")),
            add(e.init(r.r["user"], "lamports"), e.init(r.r["rec"], "lamports")), "lamports are not conserved")
    r.event(("kind", u8(1)), ("unstaked", x), ("vault", V), ("escrow", add(ESC, E)), ("supply", sub(S, x)), ("owed", E),
            ("cooldown", CD), ("index", idx))
    r.exactness()


def rules_withdraw(r):
    e = r.e
    idx = r.ix(1, 1)
    A, T0 = r.d("rec", 40, 8), r.d("rec", 48, 8)
    V, ESC = r.d("vault", 64, 8), r.d("state", 8, 8)
    now = rbytes("clock", 32, 8)
    r.signer("user")
    r.at("omint", ORCA, "the fixed mint address")
    r.owner("omint", T_TOKEN, "the token program")
    r.at("token", T_TOKEN, "the token program id")
    r.at("system", T_SYS, "the system program id")
    r.auth_state()
    r.auth_vault()
    r.token_acct("uorca", "user", "omint")
    r.owner("rec", PROGRAM_ID, "the program")
    r.ob("tag.rec", e.same(r.d("rec", 0, 1), u8(2)), "accepts a record that is not an open pending withdrawal")
    base = rec_base(r, idx)
    r.ob("addr.rec", e.same(r.key("rec"), pda(PROGRAM_ID, *base, r.d("rec", 6, 1))) or
         e.same(r.key("rec"), pda(PROGRAM_ID, *base, bump(PROGRAM_ID, *base))),
         "accepts a record that is not the signer's record at the given index")
    r.ob("ripe", e.prove(lambda c: c.no(slt(now, T0)), (now, T0)), "pays out before the recorded unlock time")
    calls = [r.call_shape(c) for c in r.cpis()]
    tr = [c for c in calls if c[0] == "transfer"]
    r.ob("calls", len(calls) == 1 and len(tr) == 1, "invokes %s instead of one transfer" % [c[0] for c in calls])
    if tr:
        r.ob("pay.seeds", roles_state_seed_ok(r, tr[0][3]) and tr[0][1]["auth"] == r.r["state"] and tr[0][1]["signed"], "pays under another authority than the state account")
    r.equal("paid", sub(r.f("uorca", 64, 8), r.d("uorca", 64, 8)), A, "the owner does not receive exactly the recorded amount")
    r.equal("drawn", sub(V, r.f("vault", 64, 8)), A, "the vault does not release exactly the recorded amount")
    r.equal("escrow", r.f("state", 8, 8), sub(ESC, A), "escrow does not fall by exactly the recorded amount")
    rec = r.r["rec"]
    r.ob("closed.lamports", e.same(e.final(rec, "lamports"), c8(0)), "the paid record keeps lamports")
    r.ob("closed.dead", e.same(e.final(rec, "data_len"), c8(0)) or e.same(e.final(rec, "owner"), T_SYS) or
         e.holds(eq(r.f("rec", 0, 1), u8(2)), False), "the paid record still reads as an open pending withdrawal")
    r.ob("closed.owner", e.same(e.final(rec, "owner"), T_SYS) and e.same(e.final(rec, "data_len"), c8(0)),
         "the paid record's address is not handed back to the system program, so the index cannot be reused")
    r.equal("refund", e.final(r.r["user"], "lamports"), add(e.init(r.r["user"], "lamports"), e.init(rec, "lamports")), "the record's rent does not return to its owner")
    al = {"uorca": [("data", 64, 8)], "vault": [("data", 64, 8)], "state": [("data", 8, 8)], "user": [("lamports", 0, 8)],
          "rec": [("data", 0, None), ("lamports", 0, None), ("data_len", 0, None), ("owner", 0, None)]}
    r.only("only", al, "withdraw changes only the payment, escrow and the closed record")
    r.event(("kind", u8(2)), ("escrow", sub(ESC, A)), ("paid", A), ("cooldown", r.d("state", 16, 8)), ("index", idx))
    r.exactness()


def rules_set(r):
    e = r.e
    sub_ = e.st.val(r.ix(1, 1)).c
    r.signer("user")
    r.auth_state()
    r.ob("authority", e.same(r.key("user"), r.d("state", 24, 32)), "accepts a signer other than the recorded update authority")
    r.ob("calls", not r.cpis(), "invokes other programs")
    r.ob("subtag", sub_ in (0, 1), "accepts an unknown configuration request")
    if sub_ == 0:
        r.equal("cooldown.value", r.f("state", 16, 8), r.ix(2, 8), "cooldown is not set to the requested value")
        r.keeps("cooldown.rest", "state", ((0, 16), (24, STATE_LEN)), "a cooldown update changes something else in the state")
        r.ob("events", not r.events(), "a cooldown update emits an event")
    elif sub_ == 1:
        r.equal("authority.value", r.f("state", 24, 32), r.ix(2, 32), "update authority is not set to the requested key")
        r.keeps("authority.rest", "state", ((0, 24), (56, STATE_LEN)), "an authority update changes something else in the state")
        r.event(("kind", u8(3)), ("new", r.ix(2, 32)), ("old", r.d("state", 24, 32)))
    fin = r.f("state", 16, 8)
    r.ob("cooldown.nonneg", e.unchanged(r.r["state"], "data", 16, 8) or e.no(slt(fin, c8(0))), "stores a negative cooldown")
    r.only("only", {"state": [("data", 16, 40)]}, "set changes only the configuration")
    r.exactness()


def rules_initialize(r):
    e = r.e
    cd = r.ix(1, 8)
    r.signer("user")
    r.at("user", DEPLOYER, "the deployer's key")
    r.signer("upd")
    r.mints("omint", "xmint")
    r.at("token", T_TOKEN, "the token program id")
    r.at("system", T_SYS, "the system program id")
    r.at("ata", T_ATA, "the associated-token program id")
    sysc = fresh_pda(r, "state", (SEED_STATE,), STATE_LEN)
    r.ob("once", e.same(e.init(r.r["state"], "data_len"), c8(0)), "initialises a state account that already has data")
    base = (r.key("state"), T_TOKEN, r.key("omint"))
    r.at("vault", pda(T_ATA, *base, bump(T_ATA, *base)), "the state account's associated ORCA account")
    r.ob("xmint.authority", e.same(r.d("xmint", 4, 32), r.key("state")) and e.same(r.d("xmint", 0, 4), const(1, 4)), "accepts an xORCA mint the program does not control")
    r.ob("xmint.supply", e.same(r.d("xmint", 36, 8), c8(0)), "accepts an xORCA mint that already has supply")
    r.ob("xmint.freeze", e.same(r.d("xmint", 46, 4), const(0, 4)), "accepts a freezable xORCA mint")
    r.ob("decimals", e.same(r.d("xmint", 44, 1), u8(6)) and e.same(r.d("omint", 44, 1), u8(6)), "accepts mints without 6 decimals")
    r.equal("st.tag", r.f("state", 0, 1), u8(1), "state type tag")
    r.equal("st.bump", r.f("state", 6, 1), bump(PROGRAM_ID, SEED_STATE), "recorded state bump")
    r.equal("st.vault_bump", r.f("state", 7, 1), bump(T_ATA, *base), "recorded vault bump")
    r.equal("st.escrow", r.f("state", 8, 8), c8(0), "initial escrow is not zero")
    r.equal("st.cooldown", r.f("state", 16, 8), cd, "recorded cooldown is not the requested one")
    r.ob("cooldown.nonneg", e.no(slt(r.f("state", 16, 8), c8(0))), "stores a negative cooldown")
    r.equal("st.authority", r.f("state", 24, 32), r.key("upd"), "recorded update authority is not the given one")
    r.ob("st.zero", all(e.same(r.f("state", a, b - a), const(0, b - a)) for a, b in ((1, 6), (56, STATE_LEN))), "unused state bytes are not zero")
    calls = [r.call_shape(c) for c in r.cpis()]
    at = [c for c in calls if c[0] in ("ata0", "ata1")]
    r.ob("calls", len(at) == 1 and len(calls) == 1 + len(sysc), "invokes %s besides the creation of state and vault" % [c[0] for c in calls])
    if at:
        p = at[0][1]
        r.ob("vault.made", p["ata"] == r.r["vault"] and p["wallet"] == r.r["state"] and p["mint"] == r.r["omint"], "does not create the vault for the state account and the ORCA mint")
    al = {"user": [("lamports", 0, None), ("data", 0, None), ("owner", 0, None), ("data_len", 0, None)],
          "state": [("data", 0, None), ("lamports", 0, None), ("data_len", 0, None), ("owner", 0, None)],
          "vault": [("data", 0, None), ("lamports", 0, None), ("data_len", 0, None), ("owner", 0, None)]}
    r.only("only", al, "initialize creates only state and vault")
    r.ob("events", not r.events(), "initialize emits an event")
    r.exactness()


RULES = {"stake": rules_stake, "unstake": rules_unstake, "withdraw": rules_withdraw, "initialize": rules_initialize, "set": rules_set}


# -------------------------------------------------------------------- whole program
def success_exits(m, iid, res):
    rt = m.p.insts[iid]["body"]["locals"][0]
    out = []
    for s, v in res:
        s.mem[("R",)] = Obj({o: t for o, t in pieces(v)})
        s.own.add(("R",))
        d = s.val(m.discr(s, ("R",), 0, rt, 8))
        del s.mem[("R",)]
        if (d.c is None or d.c == 0) and s.saturate():
            out.append(Exit(m, s))
    return out


def evaluate(m, iid, res):
    """-> (obligations [(id, ok, message)], exits by instruction, exits)"""
    exits = success_exits(m, iid, res)
    obs = []
    by = {n: [] for n in NAMES.values()}
    tag = rbytes(("ix",), 0, 1)
    for k, e in enumerate(exits):
        t = e.st.val(tag).c
        if t not in NAMES:
            eff = e.st.log or e.touched()
            obs.append(("dispatch.tag", False, "succeeds for an instruction tag that is not one of the five%s" % (", with effects" if eff else "")))
            continue
        by[NAMES[t]].append(e)
    for n, es in by.items():
        obs.append(("dispatch." + n, bool(es), "no execution of %s can succeed" % n))
        for k, e in enumerate(es):
            e.name = "%s#%d" % (n, k)
            r = R(e, n, k)
            RULES[n](r)
            common(r)
            obs += r.out
    for n in ("unstake", "initialize"):
        obs += prefund(n, by[n])
    obs += memory(m)
    return obs, by, exits


ARGS = {"stake": 9, "unstake": 10, "withdraw": 2, "initialize": 9}


def common(r):
    e = r.e
    r.ob("program", e.same(PROG, PROGRAM_ID), "runs under a program id other than its own")
    need = ARGS.get(r.name)
    if need is None:
        need = 10 if e.st.val(r.ix(1, 1)).c == 0 else 34
    nacc = 1 + max(r.r.values())
    r.ob("accounts", e.st.decide(ult(N_ACC, c8(nacc))) is False, "runs with fewer than its %d accounts" % nacc)
    r.ob("args", e.st.decide(ult(IX_LEN, c8(need))) is False, "accepts truncated arguments")
    # what a transaction built by the published clients offers must be enough
    signed = {m[0] for c in r.cpis() for m in c[3] if not c[5] and e.st.val(m[3]).c not in (0, None)}
    wrote = {m[0] for c in r.cpis() for m in c[3] if e.st.val(m[2]).c != 0} | {j for j, f, off, n in e.touched()}
    for j, (name, (sg, wr)) in enumerate(INTERFACE[r.name][1]):
        if not sg:
            r.ob("iface.signer", not e.holds(eq(e.init(j, "is_signer"), u8(0)), False) and j not in signed,
                 "demands the signature of %s, which clients do not provide" % name)
        if not wr:
            r.ob("iface.writable", not e.holds(eq(e.init(j, "is_writable"), u8(0)), False) and j not in wrote,
                 "needs %s to be writable, which clients do not provide" % name)
    if r.name != "initialize":
        i = r.r["state"]
        for what, a, b in (("cooldown", 16, 24), ("authority", 24, 56), ("identity", 0, 8), ("escrow", 8, 16)):
            if what == "escrow" and r.name in ("unstake", "withdraw") or r.name == "set" and what in ("cooldown", "authority"):
                continue
            r.ob("config." + what, e.unchanged(i, "data", a, b - a), "changes the %s kept in the state account" % what)
        own = [f for j, f, off, n in e.touched() if j == i and f in ("owner", "data_len", "lamports")]
        r.ob("config.account", not own, "changes the %s of the state account" % (own[:1],))
    unk = [x for x in e.st.log if x[0] in ("unk", "wsym")]
    r.ob("known", not unk, "has an effect the analysis cannot bound: %s" % (unk[:1],))


def prefund(n, es):
    """for every balance the new address may already hold some successful path exists whose
    conditions on that balance follow from it"""
    role = "rec" if n == "unstake" else "state"
    i = ROLES[n][role]
    lam = rbytes(("acct", i, "lamports"), 0, 8)
    ln = REC_LEN if n == "unstake" else STATE_LEN
    rent = func("rent_min", (rbytes("rent", 0, 17), c8(ln)), 8)
    out = []
    for nm, facts in (("an unfunded", [(eq(lam, c8(0)), True), (ult(lam, rent), True)]),
                      ("a partly funded", [(eq(lam, c8(0)), False), (ult(lam, rent), True)]),
                      ("an exactly funded", [(eq(lam, c8(0)), False), (eq(lam, rent), True)]),
                      ("an over-funded", [(eq(lam, c8(0)), False), (ult(rent, lam), True)])):
        s = State()
        for t, v in facts:
            s.assume(t, v)
        x = Exit(es[0].m if es else None, s)
        ok = False
        for e in es:
            rel = [(t, v) for t, v in e.st.facts.items() if any(y is lam for y in walk(t))]
            if all(x.holds(t, v) for t, v in rel):
                ok = True
        out.append(("%s.prefund" % n, ok, "cannot create %s at %s address" % (LABEL[role], nm)))
    return out


def memory(m):
    out = []
    for (fn, what, rw, end), (good, bad, own) in m.access.items():
        out.append(("memory", not bad, "%s of %s up to byte %s in %s (called from %s) is not proved in bounds" % (rw, what, end[:60], fn, own)))
    return out
