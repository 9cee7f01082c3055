"""Obligations of the Rust client: what each public entry returns, for symbolic arguments and
symbolic chain contents, compared with what the on-chain program does and accepts."""
from .term import *
from .ai import *
from .ai import pieces, vslice, as_term, mkval, Blob, Obj, tag_size
from .models import *
from .client import *
from .client import ClientModels
from .sem import Exit
from .rules import PROGRAM_ID, ORCA, XORCA, DEPLOYER, SEED_STATE, SEED_REC, pda, bump, c8, u8, MAXU64, STATE_LEN, REC_LEN, INTERFACE

G = "xorca::generated::"
NA = "NEVER"

STATE_FIELDS = [("discriminator", 0, 1), ("padding1", 1, 5), ("bump", 6, 1), ("vault_bump", 7, 1), ("escrowed_orca_amount", 8, 8),
                ("cool_down_period_s", 16, 8), ("update_authority", 24, 32), ("padding2", 56, 1992)]
REC_FIELDS = [("discriminator", 0, 1), ("padding1", 1, 5), ("bump", 6, 1), ("withdraw_index", 7, 1), ("unstaker", 8, 32),
              ("withdrawable_orca_amount", 40, 8), ("withdrawable_timestamp", 48, 8), ("padding2", 56, 968)]
EVENT = [("Stake", [("orca_stake_amount", 8), ("vault_orca_amount", 8), ("vault_escrowed_orca_amount", 8), ("xorca_mint_supply", 8), ("xorca_to_mint", 8)]),
         ("Unstake", [("xorca_unstake_amount", 8), ("vault_orca_amount", 8), ("vault_escrowed_orca_amount", 8), ("xorca_mint_supply", 8),
                      ("withdrawable_orca_amount", 8), ("cool_down_period_s", 8), ("withdraw_index", 1)]),
         ("Withdraw", [("vault_escrowed_orca_amount", 8), ("withdrawable_orca_amount", 8), ("cool_down_period_s", 8), ("withdraw_index", 1)]),
         ("UpdateAuthoritySet", [("new_authority", 32), ("set_by", 32)])]
SET = [("UpdateCoolDownPeriod", [("new_cool_down_period_s", 8)]), ("UpdateUpdateAuthority", [("new_authority", 32)])]
TAGS = ["Uninitialized", "State", "PendingWithdraw", "Closed"]


class C:
    def __init__(self):
        self.out = []
        self.fns, self.blocks, self.calls = set(), 0, 0
        self.p = prog()
        self.unknown = {}

    def ob(self, oid, ok, msg):
        self.out.append((oid, bool(ok), msg))

    def nopanic(self, oid, m, fn):
        k = next(iter(m.panics.items()), None)
        c_ = "%s:%s (%s)" % (k[0][0], k[0][1], k[1]) if k else ""
        self.ob(oid + ".total", not m.panics, "%s can panic at %s" % (fn, c_))
        self.ob(oid + ".total", not m.stops, "%s can panic: %s" % (fn, "; ".join(sorted({w for _, w in m.stops})[:2])))

    def parallel(self, f, items):
        """f(self, item) for each item, in forked workers"""
        import os, pickle, tempfile
        n = max(1, min(len(os.sched_getaffinity(0)), len(items)))
        jobs = []
        for w in range(n):
            fd, path = tempfile.mkstemp()
            os.close(fd)
            pid = os.fork()
            if not pid:
                try:
                    self.out, self.fns, self.blocks, self.calls, self.unknown = [], set(), 0, 0, {}
                    err = None
                    try:
                        for x in items[w::n]:
                            f(self, x)
                    except Exception as e:
                        import traceback
                        err = "%s (%s)" % (str(e)[:500] or type(e).__name__, traceback.format_exc()[-600:])
                    with open(path, "wb") as h:
                        pickle.dump((err, self.out, self.fns, self.blocks, self.calls, self.unknown), h)
                finally:
                    os._exit(0)
            jobs.append((pid, path))
        bad = None
        for pid, path in jobs:
            os.waitpid(pid, 0)
            try:
                with open(path, "rb") as h:
                    err, out, fns, blocks, calls, unknown = pickle.load(h)
            except Exception:
                err, out, fns, blocks, calls, unknown = "a worker died", [], set(), 0, 0, {}
            os.unlink(path)
            bad = bad or err
            self.out += out
            self.fns |= fns
            self.blocks += blocks
            self.calls += calls
            for k, v in unknown.items():
                self.unknown[k] = self.unknown.get(k, 0) + v
        if bad:
            raise RuntimeError(bad)

    def new(self, models=None, keep=True):
        m = Interp(self.p, models or ClientModels())
        m.watch = True
        m.models.keep_errors = keep
        return m

    def call(self, m, st, name, args, ret=False):
        ks = self.p.roots.get(name)
        if not ks:
            raise KeyError("no public function " + name)
        self.calls += 1
        iid = ks[0]
        res = m.call(st, iid, args, 0, None)
        self.fns |= {self.p.insts[k]["path"] for k in m.stats["functions"]}
        self.blocks += len(m.stats["blocks"])
        for k, v in m.stats["unknown"].items():
            self.unknown[k] = self.unknown.get(k, 0) + v
        return (res, self.p.insts[iid]["body"]["locals"][0])


def try_section(c, ids, f, *a):
    """a section that cannot be analysed fails each of its obligations"""
    try:
        f(c, *a)
    except (KeyError, Imprecise, IndexError, ValueError, TypeError, AttributeError, RecursionError, AssertionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        for i in ids:
            c.ob(i, False, "cannot be analysed: %s %s (%s:%d)" % (type(e).__name__, str(e)[:300], tb.filename.rsplit("/", 1)[-1], tb.lineno))


# ------------------------------------------------------------------ values
def enum_index(m, st, ty, v):
    """variant index, decided under the state's conditions; None when it is not decided"""
    vs = m.types[ty]["v"]
    if len(vs) == 1:
        return 0
    oid = ("reg", ("enum", st.fresh("enum")))
    st.mem[oid] = Obj({o: t for o, t in pieces(v) if t.op != "undef"}, None, oid[1])
    d = st.val(m.discr(st, oid, 0, ty, 8))
    ds = [int(x["d"]) & MAXU64 for x in vs]
    if d.c is None:
        left = [k for k in range(len(ds)) if st.decide(eq(d, c8(ds[k]))) is not False]
        return left[0] if len(left) == 1 else None
    return ds.index(d.c) if d.c in ds else None


def fld(m, ty, v, *names, variant=None):
    """field term of a struct value (or of variant `variant`)"""
    off = 0
    cur = ty
    for n in names:
        vi = 0 if variant is None or cur != ty else variant
        fs = m.types[cur]["v"][vi]["f"]
        i = [k for k, f in enumerate(fs) if f[0] == n]
        if not i:
            raise KeyError("no field %s" % n)
        off += m.foff(cur, None if len(m.types[cur]["v"]) == 1 else vi, i[0])
        cur = fs[i[0]][1]
    return as_term(vslice(v, off, m.size(cur))), cur


def payload(m, ty, v, vi):
    """(value, type) of the single field of variant vi"""
    f = m.types[ty]["v"][vi]["f"][0]
    off = m.foff(ty, vi, 0)
    return vslice(v, off, m.size(f[1])), f[1]


def same(st, a, b):
    a, b = st.val(a), st.val(b)
    return a is b or st.decide(eq(a, b)) is True


class View:
    """one exit: its conditions and its result"""

    def __init__(self, m, st, ty, v):
        self.m, self.st, self.ty, self.v = m, st, ty, v
        self._e = None

    @property
    def e(self):
        if self._e is None:
            self._e = Exit(self.m, self.st)
        return self._e

    def same(self, a, b):
        return a is b or a.n == b.n and self.e.same(a, b)

    def idx(self):
        return enum_index(self.m, self.st, self.ty, self.v)

    def get(self, *names):
        return fld(self.m, self.ty, self.v, *names)[0]

    def into(self, vi):
        v, t = payload(self.m, self.ty, self.v, vi)
        return View(self.m, self.st, t, v)

    def term(self):
        return as_term(self.v)

    def variant_name(self):
        k = self.idx()
        return None if k is None else self.m.types[self.ty]["v"][k]["n"].rsplit("::", 1)[-1]

    def at(self, p, ty):
        return View(self.m, self.st, ty, self.m.load_ptr(self.st, p, self.m.size(ty)))

    def elems(self):
        """elements of a Vec result"""
        p, n = vec_parts(self.m, self.ty, self.v)
        n = self.st.val(n)
        if n.c is None:
            return None
        et = self.m.types[self.ty]["args"][0]
        return [self.at(add(p, c8(i * self.m.size(et))), et) for i in range(n.c)]

    def bytes(self):
        p, n = vec_parts(self.m, self.ty, self.v)
        n = self.st.val(n)
        return None if n.c is None else as_term(self.m.load_ptr(self.st, p, n.c))


def worlds(m, st, v, ty, conds):
    """the exit restricted to the given (term, truth) conditions; None when they contradict it"""
    s = st.fork()
    for t, b in conds:
        if not s.assume(t, b):
            return None
    if s.saturate() is False:
        return None
    w = View(m, s, ty, v)
    for t, b in conds:
        if w.e.holds(t, not b):
            return None
    return w


# ------------------------------------------------------------------ conversion
def conversion(c):
    A, N, S = sym("amount", 8), sym("non_escrowed", 8), sym("supply", 8)
    z = lambda t: zx(t, 16)
    for fn, up in (("convert_orca_to_xorca", True), ("convert_xorca_to_orca", False)):
        oid = "client.conv." + ("stake" if up else "unstake")
        num, den = (add(z(S), const(100, 16)), add(z(N), const(100, 16)))
        if not up:
            num, den = den, num
        q = udiv(mul(z(A), num), den)
        ovf = umulo(z(A), num)
        big = ult(const(MAXU64, 16), q)
        s0, n0 = eq(S, c8(0)), eq(N, c8(0))
        live = [(s0, False), (n0, False)]
        empty = "bootstrap" if up else "ZeroSupplyOrNonEscrowed"
        cases = [("empty", [(s0, True)], empty), ("empty", [(s0, False), (n0, True)], empty),
                 ("overflow", live + [(ovf, True)], "Arithmetic"), ("overflow", live + [(ovf, False), (big, True)], "Arithmetic"),
                 ("rate", live + [(ovf, False), (big, False)], "rate")]
        m = c.new()
        res, ty = c.call(m, State(), "xorca::conversion::" + fn, [A, N, S])
        seen = {}
        for st, v in res:
            for name, conds, want in cases:
                w = worlds(m, st, v, ty, conds)
                if w is None:
                    continue
                seen.setdefault((name, want), 0)
                seen[(name, want)] += 1
                k = w.idx()
                if want in ("rate", "bootstrap"):
                    got = w.into(0).term() if k == 0 else None
                    ok = got is not None and w.same(got, ext(q, 0, 8) if want == "rate" else A)
                    what = "does not return floor(amount*%s)" % ("(supply+100)/(pool+100)" if up else "(pool+100)/(supply+100)") if want == "rate" else "does not convert 1:1 when the pool or the supply is empty"
                else:
                    ok = k == 1 and w.into(1).variant_name() == want
                    what = "does not refuse with %s" % want
                c.ob(oid + "." + name, ok, "%s %s" % (fn, what))
        for name, conds, want in cases:
            if (name, want) not in seen:
                c.ob(oid + "." + name, False, "%s: no exit answers the case %s" % (fn, name))
        c.nopanic(oid, m, fn)


# ------------------------------------------------------------------ addresses and identifiers
def opt_address(c, oid, fn, args, want, what):
    """a function returning Result<(Pubkey, u8), _>"""
    m = c.new()
    st = State()
    av = [a(m, st) for a in args]
    res, ty = c.call(m, st, fn, av)
    ok = 0
    for st, v in res:
        w = View(m, st, ty, v)
        k = w.idx()
        if k is None:
            c.ob(oid, False, "%s: undecided result" % fn)
        elif k == 0:
            ok += 1
            r = w.into(0)
            tt = m.types[r.ty]
            a0 = as_term(vslice(r.v, m.foff(r.ty, None, 0), 32))
            b0 = as_term(vslice(r.v, m.foff(r.ty, None, 1), 1))
            c.ob(oid, w.same(a0, want[0]) and w.same(b0, want[1]), "%s does not return %s" % (fn, what))
        else:
            c.ob(oid, any(t.op == "f" and t.a[0] == "nopda" and x for t, x in st.facts.items()),
                 "%s refuses although the address exists" % fn)
    c.ob(oid, ok > 0, "%s never succeeds" % fn)
    c.nopanic(oid, m, fn)


def canon_pda(prog, *seeds):
    b = func("bump", (prog, cat(list(seeds))), 1)
    return pda(prog, *seeds, b), b


STATE_ADDR = canon_pda(PROGRAM_ID, SEED_STATE)
VAULT_ADDR = canon_pda(T_ATA, STATE_ADDR[0], T_TOKEN, ORCA)


def addresses(c):
    k = lambda n, s: (lambda m, st: reg(st, n, s))
    r = lambda n, s: rbytes(n, 0, s)
    opt_address(c, "client.addr.state", "xorca::pda::find_state_address", [], STATE_ADDR, "the program's state address")
    opt_address(c, "client.addr.vault", "xorca::pda::find_orca_vault_address", [k("st", 32), k("tok", 32), k("mint", 32)],
                canon_pda(T_ATA, r("st", 32), r("tok", 32), r("mint", 32)), "the associated token address of (owner, token program, mint)")
    opt_address(c, "client.addr.record", "xorca::pda::find_pending_withdraw_pda", [k("who", 32), k("idx", 1)],
                canon_pda(PROGRAM_ID, SEED_REC, r("who", 32), r("idx", 1)), "the address the program requires for that user's record index")


# ------------------------------------------------------------------ account layouts
def decode(c, oid, fn, fields, total, tag):
    m = c.new()
    st = State()
    n = sym("len", 8)
    st.bnd[n] = (0, MAX_DATA)
    reg(st, "buf", None)
    st.assume(ult(n, c8(total)), False)
    if tag is not None:
        st.assume(eq(rbytes("buf", 0, 1), u8(tag)), True)
    res, ty = c.call(m, st, fn, [Blob(16, ((0, ptr(("reg", "buf"))), (8, n)))])
    seen = 0
    for st, v in res:
        w = View(m, st, ty, v)
        k = w.idx()
        if k != 0:
            c.ob(oid + ".accepts", False, "%s refuses a full-size account" % fn)
            continue
        seen += 1
        r = w.into(0)
        for name, off, size in fields:
            got = r.get(name)
            if name == "discriminator":
                want_name = TAGS[tag]
                t = fld(m, r.ty, r.v, name)
                d = View(m, st, t[1], vslice(r.v, walk_field(m, r.ty, name)[0], m.size(t[1])))
                c.ob(oid + ".tag", d.variant_name() == want_name, "%s does not decode type tag %d as %s" % (fn, tag, want_name))
            elif not name.startswith("padding"):
                c.ob(oid + "." + name, w.same(got, rbytes("buf", off, size)), "%s: field %s is not bytes %d..%d" % (fn, name, off, off + size))
    c.ob(oid + ".accepts", seen > 0, "%s never succeeds on a full-size account" % fn)
    c.nopanic(oid, m, fn)
    # shorter accounts are refused
    m = c.new()
    st = State()
    st.bnd[n] = (0, MAX_DATA)
    reg(st, "buf", None)
    st.assume(ult(n, c8(total)), True)
    res, ty = c.call(m, st, fn, [Blob(16, ((0, ptr(("reg", "buf"))), (8, n)))])
    for st, v in res:
        c.ob(oid + ".short", View(m, st, ty, v).idx() == 1, "%s accepts an account shorter than %d bytes" % (fn, total))
    c.nopanic(oid, m, fn)


def layouts(c):
    decode(c, "client.state", G + "accounts::state::State::from_bytes", STATE_FIELDS, STATE_LEN, 1)
    decode(c, "client.record", G + "accounts::pending_withdraw::PendingWithdraw::from_bytes", REC_FIELDS, REC_LEN, 2)
    decode(c, "client.closed", G + "accounts::pending_withdraw::PendingWithdraw::from_bytes", REC_FIELDS[:1], REC_LEN, 3)


# ------------------------------------------------------------------ instruction builders
def field_view(w, name):
    t, ty = fld(w.m, w.ty, w.v, name)
    off = walk_field(w.m, w.ty, name)[0]
    return View(w.m, w.st, ty, vslice(w.v, off, w.m.size(ty)))


def check_ix(c, oid, w, ix, keys, data, extra, what, inst=None):
    """w: view of an Instruction (or inst: its parts)"""
    accs = INTERFACE[ix][1]
    pid, ms, b = inst or w.m.models.instruction(w.m, w.st, w.ty, w.v)
    c.ob(oid + ".program", w.same(pid, PROGRAM_ID), "%s does not address the staking program" % what)
    c.ob(oid + ".count", ms is not None and len(ms) == len(accs) + len(extra), "%s does not list exactly the %d accounts" % (what, len(accs) + len(extra)))
    for i, (name, (sg, wr)) in enumerate(accs):
        got = ms[i] if ms and i < len(ms) else None
        c.ob(oid + ".order", got is not None and w.same(got[0], keys[name]), "%s: account %d is not %s" % (what, i, name))
        c.ob(oid + ".signer", got is not None and w.same(got[1], u8(sg)), "%s: %s has the wrong signer flag" % (what, name))
        c.ob(oid + ".writable", got is not None and w.same(got[2], u8(wr)), "%s: %s has the wrong writable flag" % (what, name))
    for j, (k, sg, wr) in enumerate(extra):
        i = len(accs) + j
        got = ms[i] if ms and i < len(ms) else None
        c.ob(oid + ".extra", got is not None and w.same(got[0], k), "%s: extra account %d is not forwarded in order" % (what, j))
        right = got is not None and w.same(got[1], sg) and w.same(got[2], wr)
        swapped = got is not None and w.same(got[1], wr) and w.same(got[2], sg)
        if ".cpi" in oid:
            # the raw CPI structs document no order for the two flags; their builders do
            c.ob(oid + ".extra_flags", right or swapped, "%s: extra account %d does not keep the requested signer and writable flags" % (what, j))
            if oid.endswith(".cpibuilder"):
                c.ob(oid + ".extra_swap", not swapped, "%s: extra account %d is forwarded with its signer and writable flags swapped" % (what, j))
        else:
            c.ob(oid + ".extra_flags", right, "%s: extra account %d does not keep the requested signer and writable flags" % (what, j))
    c.ob(oid + ".data", b is not None and w.same(b, data), "%s: payload is not the tag followed by the arguments as the program decodes them" % what)


def args_cases(ix):
    """[(label, {argument: term or enum}, payload)]"""
    tag, _, args = INTERFACE[ix]
    if ix != "set":
        vals = {n: sym("arg_" + n, s) for n, s in args}
        return [("", vals, cat([u8(tag)] + [vals[n] for n, _ in args]))]
    out = []
    for k, (vn, fs) in enumerate(SET):
        ts = [sym("arg_" + n, s) for n, s in fs]
        out.append((vn, (k, ts), cat([u8(tag), u8(k)] + ts)))
    return out


def arg_value(m, ty, ix, vals):
    """value of the *InstructionArgs struct"""
    if ix != "set":
        return struct_value(m, ty, **vals)
    k, ts = vals
    _, et = walk_field(m, ty, "instruction_data")
    names = [x["n"].rsplit("::", 1)[-1] for x in m.types[et]["v"]]
    k2 = names.index(SET[k][0])
    return struct_value(m, ty, instruction_data=m.enum_pieces(et, k2, ts))


def extras(m, st, n=2):
    """n further account metas chosen by the caller"""
    ks = [(sym("xkey%d" % i, 32), sym("xsig%d" % i, 1), sym("xwri%d" % i, 1)) for i in range(n)]
    for _, a, b in ks:
        st.bnd[a] = st.bnd[b] = (0, 1)
    return ks


def metas_mem(m, st, ty, ks, name="metas"):
    """an array of AccountMeta in memory"""
    n = m.size(ty)
    ps = []
    for i, (k, a, b) in enumerate(ks):
        for o, t in pieces(struct_value(m, ty, pubkey=k, is_signer=a, is_writable=b)):
            ps.append((i * n + o, t))
    st.mem[("reg", name)] = Obj(dict(ps), n * len(ks), name)
    return Blob(16, ((0, ptr(("reg", name))), (8, c8(len(ks)))))


def slot(m, st, name, ty, v=None):
    """a caller-side variable of type ty"""
    st.mem[("reg", name)] = Obj({} if v is None else {o: t for o, t in pieces(v) if t.op != "undef"}, m.size(ty), name)
    return ptr(("reg", name))


def params(c, fn):
    b = c.p.insts[c.p.roots[fn][0]]["body"]
    return b["locals"][1:b["argc"] + 1]


def pointee(m, ty):
    return m.types[ty]["e"]


def instructions(c, ix):
    mod = G + "instructions::%s::" % ix
    S = mod + ix.capitalize()
    accs = INTERFACE[ix][1]
    keys = {n: sym("key_" + n, 32) for n, _ in accs}
    meta_ty = None
    for label, vals, data in args_cases(ix):
        # the plain struct, without and with further accounts
        for nx, fn in ((0, S + "::instruction"), (2, S + "::instruction_with_remaining_accounts"), (12, S + "::instruction_with_remaining_accounts")):
            m = c.new()
            st = State()
            ps = params(c, fn)
            me = slot(m, st, "self", pointee(m, ps[0]), struct_value(m, pointee(m, ps[0]), **keys))
            av = [me, arg_value(m, ps[1], ix, vals)]
            ex = []
            if nx:
                ex = extras(m, st, nx)
                av.append(metas_mem(m, st, pointee(m, ps[2]) if m.types[pointee(m, ps[2])]["k"] != "slice" else m.types[pointee(m, ps[2])]["e"], ex))
            res, ty = c.call(m, st, fn, av)
            oid = "client.%s.plain" % ix
            c.ob(oid + ".total", len(res) > 0, "%s never returns" % fn)
            for st, v in res:
                check_ix(c, oid, View(m, st, ty, v), ix, keys, data, ex, fn.split("::", 2)[-1])
            c.nopanic(oid, m, fn)
        # the builder
        B = S + "Builder"
        for nx, back in ((0, False), (1, False), (2, False), (0, True)):
            m = c.new()
            st = State()
            cur, bt = c.call(m, st, B + "::new", [])
            n = 0
            states = []
            for st, v in cur:
                states.append((st, slot(m, st, "self", bt, v)))

            def step(fn, mk):
                out = []
                for st, p in states:
                    r, _ = c.call(m, st, fn, [p] + mk(m, st))
                    out += [(s, p) for s, _ in r]
                states[:] = out
            def arguments():
                if ix == "set":
                    at = params(c, B + "::instruction_data")[1]
                    names = [x["n"].rsplit("::", 1)[-1] for x in m.types[at]["v"]]
                    step(B + "::instruction_data", lambda m, st: [m.enum_pieces(at, names.index(SET[vals[0]][0]), vals[1])])
                else:
                    for an, _ in (reversed(INTERFACE[ix][2]) if back else INTERFACE[ix][2]):
                        step(B + "::" + an, lambda m, st: [vals[an]])
            if back:            # the last value set for a field is the one used
                for an, _ in INTERFACE[ix][2] if ix != "set" else [("instruction_data", None)]:
                    at = params(c, B + "::" + an)[1]
                    step(B + "::" + an, lambda m, st: [sym("earlier_" + an, m.size(at)) if ix != "set" else m.enum_pieces(at, 0, [sym("earlier_cooldown", 8)])])
                arguments()
                for name, _ in accs:
                    step(B + "::" + name, lambda m, st: [sym("earlier_" + name, 32)])
            for name, _ in (reversed(accs) if back else accs):
                step(B + "::" + name, lambda m, st: [keys[name]])
            if not back:
                arguments()
            ex = []
            if nx:
                fn1 = B + "::add_remaining_account"
                mt = params(c, fn1)[1]
                for st, _ in states:
                    ex = extras(m, st, nx)
                k0 = struct_value(m, mt, pubkey=ex[0][0], is_signer=ex[0][1], is_writable=ex[0][2])
                step(fn1, lambda m, st: [k0])
                if nx > 1:
                    step(B + "::add_remaining_accounts", lambda m, st: [metas_mem(m, st, mt, ex[1:])])
            oid = "client.%s.builder" % ix
            done = 0
            for st, p in states:
                res, ty = c.call(m, st, B + "::instruction", [p])
                for s2, v in res:
                    done += 1
                    check_ix(c, oid, View(m, s2, ty, v), ix, keys, data, ex, B.split("::", 2)[-1])
            c.ob(oid + ".total", done > 0, "%s never yields an instruction" % B)
            c.nopanic(oid, m, B)


def cpi(c, ix):
    mod = G + "instructions::%s::" % ix
    S = mod + ix.capitalize()
    accs = INTERFACE[ix][1]
    L = "::<'a, 'b>"

    def infos(m, st, aty):
        """account infos held by the caller; their keys are symbolic"""
        out, keys = {}, {}
        for n in ["__program"] + [x for x, _ in accs] + ["x%d" % i for i in range(12)]:
            keys[n] = sym("key_" + n, 32)
            reg(st, ("key", n), 32, keys[n])
            v = struct_value(m, aty, key=ptr(("reg", ("key", n))), is_signer=sym("is_" + n, 1), is_writable=sym("iw_" + n, 1))
            out[n] = slot(m, st, ("info", n), aty, v)
        return out, keys

    def check(oid, m, st, keys, data, ex, what, seeds):
        w = View(m, st, None, None)
        ev = [x for x in st.log if x[0] == "cpi"]
        c.ob(oid + ".once", len(ev) == 1, "%s does not invoke the program exactly once" % what)
        for x in ev:
            _, inst, inf, sd = x
            check_ix(c, oid, w, ix, keys, data, ex, what, inst)
            names = ["__program"] + [n for n, _ in accs] + ["x%d" % i for i in range(len(ex))]
            have = [st.val(t) for t in inf]
            c.ob(oid + ".infos", all(any(w.same(h, keys[n]) for h in have) for n in names), "%s does not hand over every account" % what)
            c.ob(oid + ".seeds", sd is not None and same(st, sd[0], seeds[0]) and same(st, sd[1], seeds[1]), "%s does not pass on the caller's signer seeds" % what)

    T = S + "Cpi" + L + "::"
    F = T + "invoke_signed_with_remaining_accounts"
    for label, vals, data in args_cases(ix):
        for nx, nseeds, fnI in ((0, 0, F), (0, 1, F), (2, 0, F), (2, 1, F), (12, 1, F), (0, 0, T + "invoke"), (2, 0, T + "invoke_with_remaining_accounts"), (0, 1, T + "invoke_signed")):
            if 1:
                m = c.new()
                st = State()
                ps = params(c, fnI)
                cty = pointee(m, ps[0])
                aty = m.types[cty]["v"][0]["f"][0][1]
                aty = pointee(m, aty)
                inf, keys = infos(m, st, aty)
                _, gt = walk_field(m, cty, "__args")
                fields = {n: inf[n] for n in ["__program"] + [x for x, _ in accs]}
                val = struct_value(m, cty, __args=arg_value(m, gt, ix, vals), **fields)
                if fnI is not F:        # built by `new`
                    nt = params(c, T + "new")
                    acv = struct_value(m, nt[1], **{n: v for n, v in fields.items() if n != "__program"})
                    r, _ = c.call(m, st, T + "new", [inf["__program"], acv, arg_value(m, nt[2], ix, vals)])
                    st, val = r[0]
                me = slot(m, st, "self", cty, val)
                rt = m.types[pointee(m, params(c, F)[2])]["e"]
                ex = extras(m, st, nx)
                ex = [(keys["x%d" % i], a, b) for i, (_, a, b) in enumerate(ex)]
                # tuples (account, is_writable, is_signer)
                cells = {}
                for i in range(nx):
                    o = [m.foff(rt, None, j) for j in range(3)]
                    cells.update({i * m.size(rt) + o[0]: inf["x%d" % i], i * m.size(rt) + o[1]: ex[i][2], i * m.size(rt) + o[2]: ex[i][1]})
                st.mem[("reg", "rem")] = Obj(cells, m.size(rt) * nx, "rem")
                reg(st, "seeds", None)
                sd = (ptr(("reg", "seeds")), c8(nseeds))
                sv, rv = Blob(16, ((0, sd[0]), (8, sd[1]))), Blob(16, ((0, ptr(("reg", "rem"))), (8, c8(nx))))
                av = [me] + ([sv] if "signed" in fnI else []) + ([rv] if "remaining" in fnI else [])
                res, ty = c.call(m, st, fnI, av)
                oid = "client.%s.cpi" % ix
                c.ob(oid + ".total", len(res) > 0, "%s never returns" % fnI)
                for st, v in res:
                    check(oid, m, st, keys, data, ex, S.split("::")[-1] + "Cpi", sd if nseeds else (None, c8(0)))
                c.nopanic(oid, m, fnI)
            # builder
        B = S + "CpiBuilder" + L
        for nx, back in ((0, False), (1, False), (2, False), (0, True)):
            m = c.new()
            st = State()
            aty = pointee(m, params(c, B + "::new")[0])
            inf, keys = infos(m, st, aty)
            cur, bt = c.call(m, st, B + "::new", [inf["__program"]])
            states = [(s, slot(m, s, "self", bt, v)) for s, v in cur]

            def step(fn, mk):
                out = []
                for st, p in states:
                    r, _ = c.call(m, st, fn, [p] + mk(m, st))
                    out += [(s, p) for s, _ in r]
                states[:] = out
            def arguments():
                if ix == "set":
                    at = params(c, B + "::instruction_data")[1]
                    names = [x["n"].rsplit("::", 1)[-1] for x in m.types[at]["v"]]
                    step(B + "::instruction_data", lambda m, st: [m.enum_pieces(at, names.index(SET[vals[0]][0]), vals[1])])
                else:
                    for an, _ in (reversed(INTERFACE[ix][2]) if back else INTERFACE[ix][2]):
                        step(B + "::" + an, lambda m, st: [vals[an]])
            if back:
                arguments()
                for name, _ in accs:
                    step(B + "::" + name, lambda m, st: [inf["x0"]])
            for name, _ in (reversed(accs) if back else accs):
                step(B + "::" + name, lambda m, st: [inf[name]])
            if not back:
                arguments()
            ex = []
            if nx:
                for st, _ in states:
                    ex = [(keys["x%d" % i], a, b) for i, (_, a, b) in enumerate(extras(m, st, nx))]
                step(B + "::add_remaining_account", lambda m, st: [inf["x0"], ex[0][2], ex[0][1]])
                if nx > 1:
                    rt = m.types[pointee(m, params(c, B + "::add_remaining_accounts")[1])]["e"]

                    def more(m, st):
                        o = [m.foff(rt, None, j) for j in range(3)]
                        st.mem[("reg", "rem")] = Obj({o[0]: inf["x1"], o[1]: ex[1][2], o[2]: ex[1][1]}, m.size(rt), "rem")
                        return [Blob(16, ((0, ptr(("reg", "rem"))), (8, c8(1))))]
                    step(B + "::add_remaining_accounts", more)
            oid = "client.%s.cpibuilder" % ix
            done = 0
            for st, p in states:
                reg(st, "seeds", None)
                for sd in ((ptr(("reg", "seeds")), c8(1)), None):
                    av = [p] + ([Blob(16, ((0, sd[0]), (8, sd[1])))] if sd else [])
                    res, ty = c.call(m, st.fork(), B + ("::invoke_signed" if sd else "::invoke"), av)
                    for s2, v in res:
                        done += 1
                        check(oid, m, s2, keys, data, ex, S.split("::")[-1] + "CpiBuilder", sd or (None, c8(0)))
            c.ob(oid + ".total", done > 0, "%s never invokes the program" % B)
            c.nopanic(oid, m, B)


def same(st, a, b):
    if b is None:
        return True
    a, b = st.val(a), st.val(b)
    return a is b or st.decide(eq(a, b)) is True


# ------------------------------------------------------------------ reading the chain
XMINT_N = 45


def chain_bytes(key, off, n):
    return rbytes(("data", key), off, n)


def world_of(key):
    """what the program keeps at its own addresses"""
    return "state" if key is STATE_ADDR[0] else "token" if key is VAULT_ADDR[0] else "mint" if key is XORCA else None


def fetched(c, fn, args, online, kind=None, setup=None):
    """-> (interpreter, views of the exits)"""
    mod = ClientModels()
    mod.online, mod.kind = online, kind
    m = c.new(mod)
    st = State()
    reg(st, "rpc", 8)
    if setup:
        setup(m, st)
    av = [a(m, st) if callable(a) else a for a in args]
    res, ty = c.call(m, st, fn, [ptr(("reg", "rpc"))] + av)
    return m, [View(m, s, ty, v) for s, v in res]


def ask(c, oid, fn, args, want, live=True):
    """want(View of the Ok payload) -> [(suffix, ok, message)]; with a healthy chain the call succeeds"""
    for online in (False, True):
        m, vs = fetched(c, fn, args, online, world_of if online else None)
        n = 0
        for w in vs:
            k = w.idx()
            if k == 0:
                n += 1
                for suf, ok, msg in want(w.into(0)):
                    c.ob(oid + "." + suf, ok, "%s: %s" % (fn, msg))
            elif online:
                c.ob(oid + ".live", k == 1 and live is not True and live(w), "%s fails although the node answers and the accounts are genuine" % fn)
        c.ob(oid + ".live", n > 0, "%s never succeeds" % fn)
        if online:
            c.nopanic(oid, m, fn)


def data_fields(r, key, fields):
    return [(n, r.same(r.get(n), chain_bytes(key, o, s)), "field %s is not bytes %d..%d of the account" % (n, o, o + s))
            for n, o, s in fields if not n.startswith("padding") and n != "discriminator"]


def queries(c):
    U = "xorca::utils::"
    S, V = STATE_ADDR[0], VAULT_ADDR[0]
    ask(c, "client.query.state", U + "fetch_state_account_data", [], lambda r: data_fields(r, S, STATE_FIELDS))
    ask(c, "client.query.cooldown", U + "fetch_state_account_cool_down_period_s", [],
        lambda r: [("value", r.same(r.term(), chain_bytes(S, 16, 8)), "does not return the state account's cooldown")])
    ask(c, "client.query.vault", U + "fetch_vault_state", [], lambda r: [
        ("address", r.same(r.get("address"), V), "does not return the address of the vault"),
        ("mint", r.same(r.get("mint"), chain_bytes(V, 0, 32)), "mint is not the vault's mint"),
        ("owner", r.same(r.get("owner"), chain_bytes(V, 32, 32)), "owner is not the vault's owner"),
        ("amount", r.same(r.get("amount"), chain_bytes(V, 64, 8)), "amount is not the vault's balance")])
    ask(c, "client.query.supply", U + "fetch_xorca_mint_supply", [],
        lambda r: [("value", r.same(r.term(), chain_bytes(XORCA, 36, 8)), "does not return the xORCA mint's supply")])
    am, es = chain_bytes(V, 64, 8), chain_bytes(S, 8, 8)
    ask(c, "client.query.rate", U + "fetch_staking_exchange_rate", [], lambda r: [
        ("numerator", r.same(r.get("numerator"), sub(am, es)) and r.e.holds(ult(am, es), False), "numerator is not the vault balance minus the escrow (or wraps when the escrow is larger)"),
        ("denominator", r.same(r.get("denominator"), chain_bytes(XORCA, 36, 8)), "denominator is not the xORCA supply")],
        live=lambda w: w.e.holds(ult(am, es), True))


def listing(c, tier="quick"):
    fn = "xorca::utils::fetch_pending_withdraws_for_staker"
    who = rbytes("who", 0, 32)
    key = {}

    def addr(i):
        if i not in key:
            key[i] = canon_pda(PROGRAM_ID, SEED_REC, who, u8(i))[0]
        return key[i]
    oid = "client.listing"
    for i in range(256):
        addr(i)
    inv = {k: i for i, k in key.items()}
    opt = lambda n: Blob(2, ((0, u8(0)), (1, sym("unset", 1)))) if n is None else Blob(2, ((0, u8(1)), (1, u8(n))))
    maxes = [None] + list(range(256))
    kinds = ("record", "absent", "other")
    pats = {None: [lambda i: kinds[i % 3]], 3: [(lambda i, n=n: kinds[n // 3 ** i % 3]) for n in range(27)]}
    only = lambda f: (lambda i: "record" if f(i) else "absent")
    third = lambda i: kinds[(i + i // 100) % 3]
    # a single record, gaps, and whole pages of requests without or full of records
    for mx, at in ((None, range(15)), (101, (0, 99, 100)), (255, (0, 1, 99, 100, 101, 199, 200, 254))):
        pats[mx] = pats.get(mx, [third]) + [only(lambda i: False), only(lambda i: True)] + [only(lambda i, k=k: i == k) for k in at] + [only(lambda i, k=k: i != k) for k in at]
    pats[255] += [only(lambda i, g=g: g >> i // 100 & 1) for g in range(1, 7)] + [only(lambda i: i % 2), only(lambda i: i % 50 > 25)]

    def one(c, mx):
        top = 15 if mx is None else mx
        for pat in pats.get(mx, [third]):
            kind = lambda k: pat(inv[k]) if k in inv else None
            m, vs = fetched(c, fn, [lambda m, st: reg(st, "who", 32), opt(mx)], True, kind)
            c.ob(oid + ".live", all(w.idx() == 0 for w in vs) and vs, "%s fails although the node answers and the program's accounts are genuine" % fn)
            for w in vs:
                asked = [k for e in w.st.log if e[0] == "rpc" for k in e[2]]
                big = max([len(e[2]) for e in w.st.log if e[0] == "rpc"] or [0])
                c.ob(oid + ".batch", big <= 100, "%s asks for %d accounts at once; nodes refuse more than 100" % (fn, big))
                if w.idx() != 0:
                    continue
                el = w.into(0).elems()
                want = [addr(i) for i in range(top) if pat(i) == "record"]
                c.ob(oid + ".count", el is not None and len(el) == len(want), "%s does not list exactly the records among the first %d indices" % (fn, top))
                for k, r in zip(want, el or []):
                    for n, ok, msg in data_fields(r, k, REC_FIELDS):
                        c.ob(oid + "." + n, ok, "%s: %s" % (fn, msg))
            c.nopanic(oid, m, fn)

    c.parallel(one, maxes)
    # whatever the node returns, every listed record is decoded from one of the searched addresses
    m, vs = fetched(c, fn, [lambda m, st: reg(st, "who", 32), opt(2)], False)
    for w in vs:
        if w.idx() == 0:
            for r in w.into(0).elems() or []:
                ok = any(all(x[1] for x in data_fields(r, addr(i), REC_FIELDS)) for i in range(2))
                c.ob(oid + ".source", ok, "%s lists something that is not one searched account" % fn)


def accounts_api(c):
    """fetch_x, fetch_all_x, fetch_maybe_x, fetch_all_maybe_x for both account types"""
    for mod, low, kind, fields in (("state", "state", "state", STATE_FIELDS), ("pending_withdraw", "pending_withdraw", "record", REC_FIELDS)):
        base = G + "accounts::%s::" % mod
        oid = "client.fetch.%s" % kind
        ks = [sym("k%d" % i, 32) for i in range(3)]

        def listed(n):
            def mk(m, st):
                st.mem[("reg", "keys")] = Obj({32 * i: ks[i] for i in range(n)}, 32 * n, "keys")
                return Blob(16, ((0, ptr(("reg", "keys"))), (8, c8(n))))
            return mk

        def one(m, st):
            return reg(st, "key", 32, ks[0])

        def decoded(r, k, what):
            c.ob(oid + ".address", r.same(r.get("address"), k), "%s pairs an account with the wrong address" % what)
            d = field_view(r, "data")
            for n, ok, msg in data_fields(d, k, fields):
                c.ob(oid + ".data", ok, "%s: %s" % (what, msg))
            a = field_view(r, "account")
            c.ob(oid + ".account", a.same(a.get("lamports"), func("lamports", (k,), 8)) and a.same(a.get("owner"), func("owner", (k,), 32)), "%s does not return the fetched account" % what)

        for maybe in (False, True):
            for n in (0, 1, 2, 3):
                for pat in range(2 ** n):
                    here = [not pat >> i & 1 for i in range(n)]
                    kd = lambda k: (kind if here[ks.index(k)] else "absent") if k in ks[:n] else None
                    fns = [(base + "fetch_all_%s%s" % ("maybe_" if maybe else "", low), listed(n), False)]
                    if n == 1:
                        fns.append((base + "fetch_%s%s" % ("maybe_" if maybe else "", low), one, True))
                    for fn, arg, single in fns:
                        m, vs = fetched(c, fn, [arg], True, kd)
                        c.nopanic(oid, m, fn)
                        c.ob(oid + ".live", len(vs) > 0, "%s never returns" % fn)
                        for w in vs:
                            k = w.idx()
                            if not maybe and not all(here):
                                c.ob(oid + ".missing", k == 1, "%s succeeds although an account does not exist" % fn)
                                continue
                            c.ob(oid + ".live", k == 0, "%s fails although the node answers and the accounts are genuine" % fn)
                            if k != 0:
                                continue
                            r = w.into(0)
                            el = [r] if single else r.elems()
                            c.ob(oid + ".count", el is not None and len(el) == n, "%s does not answer once per address" % fn)
                            for i, x in enumerate((el or [])[:n]):
                                if maybe:
                                    vn = x.variant_name()
                                    c.ob(oid + ".exists", vn == ("Exists" if here[i] else "NotFound"), "%s misreports whether an account exists" % fn)
                                    if vn is None:
                                        continue
                                    y = x.into(x.idx())
                                    if vn == "Exists":
                                        decoded(y, ks[i], fn)
                                    else:
                                        c.ob(oid + ".address", y.same(y.term(), ks[i]), "%s names the wrong missing address" % fn)
                                else:
                                    decoded(x, ks[i], fn)


# ------------------------------------------------------------------ data, errors and constants
ERRORS = ["UnknownInstructionDiscriminator", "IncorrectProgramId", "InvalidAccountRole", "NotEnoughAccountKeys", "IncorrectOwner", "InvalidSeeds",
          "IncorrectAccountAddress", "InvalidAccountData", "ArithmeticError", "InsufficientFunds", "StateAccountAlreadyInitialized", "CoolDownPeriodStillActive",
          "EmitEventError", "InvalidCoolDownPeriod", "InsufficientStakeAmount", "InsufficientUnstakeAmount", "InsufficientEscrow", "CoolDownOverflow",
          "InsufficientVaultBacking", "UnauthorizedDeployerAccess"]


class W:
    """runs functions of the witness crate"""

    def __init__(self, c):
        self.c, self.m = c, None

    def run(self, fn, args, setup=None, kind=None):
        c, keep = self.c, self.c.p
        c.p = witness()
        try:
            self.m = m = c.new()
            st = State()
            if setup:
                setup(m, st)
            res, ty = c.call(m, st, "xw::" + fn, [a(m, st) if callable(a) else a for a in args])
            return [View(m, s, ty, v) for s, v in res]
        finally:
            c.p = keep

    def params(self, fn):
        keep, self.c.p = self.c.p, witness()
        try:
            return params(self.c, "xw::" + fn)
        finally:
            self.c.p = keep


def buf(n):
    """a byte slice of length n"""
    return lambda m, st: Blob(16, ((0, reg(st, "buf", None)), (8, c8(n))))


def variant(m, ty, name):
    return [x["n"].rsplit("::", 1)[-1] for x in m.types[ty]["v"]].index(name)


def codecs(c):
    w = W(c)
    for oid, table, dec, enc in (("client.event", EVENT, "event_decode", "event_encode"), ("client.update", SET, "update_decode", None)):
        for k, (vn, fs) in enumerate(table):
            total = 1 + sum(s for _, s in fs)

            def setup(m, st):
                reg(st, "buf", None)
                st.assume(eq(rbytes("buf", 0, 1), u8(k)), True)
            vs = w.run(dec, [buf(total)], setup)
            c.nopanic(oid, w.m, dec)
            seen = 0
            for v in vs:
                if v.idx() != 0:
                    c.ob(oid + ".accepts", False, "a well-formed %s is refused" % vn)
                    continue
                seen += 1
                e = v.into(0)
                right = e.variant_name() == vn
                c.ob(oid + ".variant", right, "tag %d does not decode as %s" % (k, vn))
                if not right:
                    continue
                o = 1
                for n, s in fs:
                    names = [f[0] for f in e.m.types[e.ty]["v"][k]["f"]]
                    if n not in names:
                        c.ob(oid + ".field", False, "%s has no field %s" % (vn, n))
                        continue
                    off = e.m.foff(e.ty, k, names.index(n))
                    c.ob(oid + ".field", e.same(as_term(vslice(e.v, off, s)), rbytes("buf", o, s)), "%s.%s is not bytes %d..%d of the payload" % (vn, n, o, o + s))
                    o += s
            c.ob(oid + ".accepts", seen > 0, "a well-formed %s is refused" % vn)
            # truncated payloads are refused
            for short in sorted({0, 1, total - 1}):
                for v in w.run(dec, [buf(short)], setup):
                    c.ob(oid + ".short", v.idx() == 1, "a truncated %s is accepted" % vn)
            if enc is None:
                continue
            # encoding
            et = w.params(enc)[0]
            vals = [sym("ev_" + n, s) for n, s in fs]

            def mk(m, st):
                t = pointee(m, et)
                kk = variant(m, t, vn)
                names = [f[0] for f in m.types[t]["v"][kk]["f"]]
                order = [vals[[n for n, _ in fs].index(x)] for x in names]
                return slot(m, st, "val", t, m.enum_pieces(t, kk, order))
            for v in w.run(enc, [mk]):
                ok = v.idx() == 0
                b = v.into(0).bytes() if ok else None
                c.ob(oid + ".encode", b is not None and v.same(b, cat([u8(k)] + vals)), "%s is not encoded as its tag followed by its fields" % vn)
        for bad in (len(table), 255):
            def setup(m, st):
                reg(st, "buf", None)
                st.assume(eq(rbytes("buf", 0, 1), u8(bad)), True)
            for v in w.run(dec, [buf(128)], setup):
                c.ob(oid + ".unknown", v.idx() == 1, "unknown tag %d is accepted" % bad)
    # account structures
    for oid, enc, info, fields, total, tag in (("client.state", "state_encode", "state_info", STATE_FIELDS, STATE_LEN, 1),
                                               ("client.record", "record_encode", "record_info", REC_FIELDS, REC_LEN, 2)):
        et = w.params(enc)[0]
        vals = {n: sym("f_" + n, s) for n, _, s in fields[1:]}

        def mk(m, st):
            t = pointee(m, et)
            dt = walk_field(m, t, "discriminator")[1]
            return slot(m, st, "val", t, struct_value(m, t, discriminator=m.enum_pieces(dt, variant(m, dt, TAGS[tag]), []), **vals))
        n = 0
        for v in w.run(enc, [mk]):
            n += 1
            b = v.into(0).bytes() if v.idx() == 0 else None
            c.ob(oid + ".encode", b is not None and v.same(b, cat([u8(tag)] + [vals[x] for x, _, _ in fields[1:]])), "%s does not write the layout the program uses" % enc)
        c.ob(oid + ".encode", n > 0, "%s never returns" % enc)


def handles(c):
    """decoding from an account handle"""
    w = W(c)
    for oid, fn, fields, total, tag in (("client.info.state", "state_info", STATE_FIELDS, STATE_LEN, 1), ("client.info.record", "record_info", REC_FIELDS, REC_LEN, 2)):
        at = pointee(Interp(witness(), ClientModels()), w.params(fn)[0])

        def mk(m, st, n):
            def mem(name, ty):
                return st.mem.setdefault(("reg", name), Obj({}, m.size(ty), name))
            reg(st, "buf", None)
            off, ty = walk_field(m, at, "data")
            o2, pt = walk_field(m, ty, "ptr")
            inner = m.types[pt]["args"][0]
            ob = mem("rc", inner)
            vo, _ = walk_field(m, inner, "value", "value", "value")
            bo, _ = walk_field(m, inner, "value", "borrow", "value", "value")
            ob.cells.update({vo: ptr(("reg", "buf")), vo + 8: n, bo: c8(0)})
            a = mem("info", at)
            a.cells[off + o2] = ptr(("reg", "rc"))
            return ptr(("reg", "info"))
        n = sym("len", 8)
        for short in (False, True):
            def setup(m, st):
                st.bnd[n] = (0, MAX_DATA)
                st.assume(ult(n, c8(total)), short)
                if not short:
                    st.assume(eq(rbytes("buf", 0, 1), u8(tag)), True)
            k = 0
            for v in w.run(fn, [lambda m, st: mk(m, st, n)], setup):
                if short:
                    c.ob(oid + ".short", v.idx() == 1, "%s accepts an account shorter than %d bytes" % (fn, total))
                    continue
                c.ob(oid + ".accepts", v.idx() == 0, "%s refuses a full-size account" % fn)
                if v.idx() == 0:
                    k += 1
                    r = v.into(0)
                    for name, off, size in fields:
                        if name != "discriminator" and not name.startswith("padding"):
                            c.ob(oid + ".field", r.same(r.get(name), rbytes("buf", off, size)), "%s: field %s is not bytes %d..%d" % (fn, name, off, off + size))
            if not short:
                c.ob(oid + ".accepts", k > 0, "%s never succeeds" % fn)


def errors(c):
    w = W(c)
    et = w.params("error_code")[0]
    m0 = Interp(witness(), ClientModels())
    names = [x["n"].rsplit("::", 1)[-1] for x in m0.types[et]["v"]]
    for i, n in enumerate(ERRORS):
        if n not in names:
            c.ob("client.error.name", False, "error %s of the program is unknown to the client" % n)
            continue
        k = names.index(n)
        c.ob("client.error.name", True, "")
        for v in w.run("error_code", [lambda m, st: m.enum_pieces(et, k, [])]):
            c.ob("client.error.code", v.same(v.term(), const(6000 + i, 4)), "%s does not have the program's code %d" % (n, 6000 + i))
        for v in w.run("error_program", [lambda m, st: m.enum_pieces(et, k, [])]):
            ok = v.variant_name() == "Custom"
            c.ob("client.error.custom", ok and v.same(v.into(v.idx()).term(), const(6000 + i, 4)), "%s does not convert to the program's custom error %d" % (n, 6000 + i))
        for v in w.run("error_from", [c8(6000 + i)]):
            ok = v.idx() == 1
            c.ob("client.error.from", ok and v.into(1).variant_name() == n, "code %d is not read back as %s" % (6000 + i, n))
    # the program's own numbering
    from .program import load, ProgramModels
    pp = load()
    m = Interp(pp, ProgramModels())
    m.models.keep_errors = True
    tys = [k for k, t in pp.types.items() if t.get("adt", "").endswith("error::ErrorCode")]
    vs = [(v["n"].rsplit("::", 1)[-1], int(v["d"])) for v in pp.types[tys[0]]["v"]] if tys else []
    root = [r for r in pp.roots if "From<xorca_staking_program::error::ErrorCode>" in r and r.endswith("ProgramError>::from")]
    for i, n in enumerate(ERRORS):
        c.ob("program.error.code", (n, 6000 + i) in vs, "the program's error %s is not code %d" % (n, 6000 + i))
        if root and n in [x for x, _ in vs]:
            iid = pp.roots[root[0]][0]
            for st, v in m.call(State(), iid, [m.enum_pieces(tys[0], [x for x, _ in vs].index(n), [])], 0, None):
                w = View(m, st, pp.insts[iid]["body"]["locals"][0], v)
                ok = w.variant_name() == "Custom"
                c.ob("program.error.custom", ok and w.same(w.into(w.idx()).term(), const(6000 + i, 4)), "%s is not reported as custom error %d" % (n, 6000 + i))
    c.ob("program.error.all", len(vs) == len(ERRORS), "the program has %d errors, the published interface %d" % (len(vs), len(ERRORS)))
    c.ob("client.error.all", set(names) == set(ERRORS), "the client lists errors the program does not have: %s" % sorted(set(names) - set(ERRORS)))


def constants(c):
    w = W(c)

    def is_(oid, fn, want, what):
        for v in w.run(fn, []):
            c.ob(oid, v.same(v.term(), want), "%s" % what)

    def text(oid, fn, key, what):
        for v in w.run(fn, []):
            p, n = as_term(vslice(v.v, 0, 8)), v.st.val(as_term(vslice(v.v, 8, 8)))
            t = as_term(v.m.load_ptr(v.st, p, n.c)) if n.c else None
            s = t.c.to_bytes(t.n, "little").decode("latin1") if t is not None and t.c is not None else ""
            try:
                got = key_const(s)
            except Exception:
                got = None
            c.ob(oid, got is key, what)
    is_("client.const.program", "c_program", PROGRAM_ID, "XORCA_STAKING_PROGRAM_ID is not the deployed program")
    is_("client.const.program", "c_id", PROGRAM_ID, "ID is not the deployed program")
    for ix, (t, _, _) in INTERFACE.items():
        is_("client.const.tag", "c_tag_" + ix, u8(t), "%s_DISCRIMINATOR is not the tag the program dispatches on" % ix.upper())
    for fn, t in (("c_tag_state", "State"), ("c_tag_record", "PendingWithdraw")):
        for v in w.run(fn, []):
            c.ob("client.const.kind", v.variant_name() == t, "%s account discriminator is wrong" % t)
    is_("client.const.size", "c_len_state", c8(STATE_LEN), "State::LEN is not the size the program allocates")
    is_("client.const.size", "c_len_record", c8(REC_LEN), "PendingWithdraw::LEN is not the size the program allocates")
    is_("client.const.offset", "c_virtual_supply", const(100, 16), "VIRTUAL_XORCA_SUPPLY is not the program's offset")
    is_("client.const.offset", "c_virtual_pool", const(100, 16), "VIRTUAL_NON_ESCROWED_ORCA_AMOUNT is not the program's offset")
    is_("client.const.default", "c_default_max", u8(15), "the default number of indices searched is not the documented 15")
    text("client.const.mint", "c_orca", ORCA, "ORCA_MINT_ADDRESS is not the mint the program requires")
    text("client.const.mint", "c_xorca", XORCA, "XORCA_MINT_ADDRESS is not the mint the program requires")
    text("client.const.mint", "c_token", T_TOKEN, "TOKEN_PROGRAM_ADDRESS is not the token program the program requires")


SECTIONS = [(conversion, ["client.conv.stake.rate", "client.conv.unstake.rate"]),
            (addresses, ["client.addr.state", "client.addr.vault", "client.addr.record"]),
            (layouts, ["client.state.accepts", "client.record.accepts"]),
            (codecs, ["client.event.field", "client.update.field", "client.state.encode", "client.record.encode"]),
            (handles, ["client.info.state.field", "client.info.record.field"]),
            (errors, ["client.error.code", "program.error.code"]),
            (constants, ["client.const.program"]),
            (queries, ["client.query.rate.live", "client.query.vault.live", "client.query.state.live"]),
            (accounts_api, ["client.fetch.state.live", "client.fetch.record.live"]),
            (listing, ["client.listing.live"])]
for _ix in INTERFACE:
    SECTIONS.append((lambda c, ix=_ix: instructions(c, ix), ["client.%s.plain.data" % _ix, "client.%s.builder.data" % _ix]))
    SECTIONS.append((lambda c, ix=_ix: cpi(c, ix), ["client.%s.cpi.data" % _ix, "client.%s.cpibuilder.data" % _ix]))


def evaluate(tier="quick", want=None):
    """want: section names (None: all)"""
    c = C()
    for f, ids in SECTIONS:
        nm = f.__name__ if f.__name__ != "<lambda>" else {"plain": "instructions"}.get(ids[0].split(".")[2], "cpi")
        if want is not None and nm not in want:
            continue
        if f is listing:
            try_section(c, ids, f, tier)
        else:
            try_section(c, ids, f)
    return c


if __name__ == "__main__":
    import sys, time
    t = time.time()
    c = evaluate()
    bad = [o for o in c.out if not o[1]]
    for o in bad:
        print("FAIL", o[0], o[2][:300])
    n = {}
    for o in c.out:
        n[o[0]] = n.get(o[0], 0) + 1
    if "-v" in sys.argv:
        for k, x in sorted(n.items()):
            print(k, x)
    print(len(c.out), "obligations", len(bad), "failed", "%.1fs" % (time.time() - t), len(c.fns), "functions")
