"""Leaf models: Solana system calls, the allocator, compiler intrinsics.  Everything else is
analysed from its MIR body."""
import re
from .term import *
from .ai import Blob, UNIT, as_term, pieces, mkval, vslice, Imprecise, Obj, NeedSplit

SYSTEM = bytes(32)
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, "big")


def to_b58(b):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def key_const(s):
    return const(int.from_bytes(b58(s) if isinstance(s, str) else s, "little"), 32)


TOKEN = b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
ATA = b58("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL")
T_SYSTEM, T_TOKEN, T_ATA = key_const(SYSTEM), key_const(TOKEN), key_const(ATA)

# pinocchio::account_info::Account (checked against the extracted layout)
HDR = [("borrow_state", 0, 1), ("is_signer", 1, 1), ("is_writable", 2, 1), ("executable", 3, 1),
       ("resize_delta", 4, 4), ("key", 8, 32), ("owner", 40, 32), ("lamports", 72, 8), ("data_len", 80, 8)]
HOFF = {n: (o, s) for n, o, s in HDR}
DATA = 88
MUTABLE = ("owner", "lamports", "data_len", "data")


def acct_region(o, oid, field):
    v = o.back.get(field) if o is not None and o.back else None
    if v == "zero":
        return "zero"
    if v is None:
        return ("acct", oid[1], field)
    return ("acct", oid[1], field, v)


class Models:
    keep_errors = False
    types = None

    def __init__(self):
        self.cache = {}
        self.exact = {}
        self.rx = []
        for n in dir(self):
            f = getattr(self, n)
            for p in getattr(f, "paths", ()):
                if p.startswith("~"):
                    self.rx.append((re.compile(p[1:]), f))
                else:
                    self.exact[p] = f
        self.drops = {}

    def find(self, inst):
        p = inst["path"]
        k = (p, inst["name"])
        if k in self.cache:
            return self.cache[k]
        f = self.exact.get(p)
        if f is None and inst.get("kind") == "Intrinsic":
            f = getattr(self, "i_" + p.rsplit("::", 1)[-1], None)
        if f is None:
            for r, g in self.rx:
                if r.search(p) or r.search(inst["name"]):
                    f = g
                    break
        b = inst.get("body")
        if f is None and b is not None and b["argc"] and self.types is not None and \
                all(self.types[x]["s"] == "std::io::Error" for x in b["locals"][:b["argc"] + 1]):
            f = self.c_ioerr        # maps an opaque I/O error to an opaque I/O error
        self.cache[k] = f
        return f

    # ------------------------------------------------ accounts
    def acct_obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = Obj({}, None, {})
            st.mem[oid] = o
            st.own.add(oid)
        return o

    def wacct(self, st, oid):
        self.acct_obj(st, oid)
        o = st.wobj(oid)
        o.back = dict(o.back)
        return o

    def acct_read(self, m, st, oid, o, off, n):
        ps = []
        end = off + n
        for name, fo, fs in HDR:
            lo, hi = max(fo, off), min(fo + fs, end)
            if lo < hi:
                if name == "borrow_state":
                    t = const(0xFF, 1)
                elif name == "resize_delta":
                    t = ext(const(0, 4), lo - fo, hi - lo)
                else:
                    t = rbytes(acct_region(o, oid, name), lo - fo, hi - lo)
                ps.append((lo - off, t))
        if end > DATA:
            lo = max(DATA, off)
            ps.append((lo - off, rbytes(acct_region(o, oid, "data"), lo - DATA, end - lo)))
        return mkval(n, ps)

    def acct_read_sym(self, m, st, oid, off, n):
        o = st.mem.get(oid)
        dc = [c for c in (o.cells if o is not None else ()) if c >= DATA]
        if not dc:
            return rbytes(acct_region(o, oid, "data"), sub(off, const(DATA, 8)), n)
        return func("memsel", (("acct", oid[1], tuple((c, o.cells[c].id) for c in dc)), off), n)

    def accs_read(self, m, st, off, n):
        if n == 8:
            if off.c is not None:
                if off.c % 8 == 0:
                    return ptr(("acct", off.c // 8))
            else:
                return ptr(("acct", show(off)))
        raise Imprecise("partial read of the account list")

    def acct_write(self, m, st, oid, off, v, n):
        self.acct_obj(st, oid)
        for name, fo, fs in HDR:
            if off < fo + fs and fo < off + n:
                if name in ("borrow_state", "resize_delta"):
                    continue
                lo, hi = max(fo, off), min(fo + fs, off + n)
                st.log = st.log + (("w", oid[1], name, lo - fo, as_term(vslice(v, lo - off, hi - lo))),)
        if off + n > DATA:
            lo = max(DATA, off)
            st.log = st.log + (("w", oid[1], "data", lo - DATA, as_term(vslice(v, lo - off, off + n - lo))),)

    def acct_havoc(self, m, st, oid):
        o = self.wacct(st, oid)
        for c in [c for c in o.cells if c >= 40]:
            del o.cells[c]
        k = st.fresh(("hv", oid))
        for f in MUTABLE:
            o.back[f] = ("hv", k)

    def acct_bump(self, st, oid, fields, ver):
        o = self.wacct(st, oid)
        for f in fields:
            if f == "data":
                for c in [c for c in o.cells if c >= DATA]:
                    del o.cells[c]
            else:
                fo, fs = HOFF[f]
                for c in [c for c in o.cells if fo <= c < fo + fs]:
                    del o.cells[c]
            o.back[f] = ver

    def acct_set(self, m, st, oid, field, t):
        o = self.wacct(st, oid)
        m.put(o, HOFF[field][0], t, HOFF[field][1])

    def acct_get(self, m, st, oid, field):
        return as_term(m.read(st, oid, HOFF[field][0], HOFF[field][1]))

    # ------------------------------------------------ fallbacks
    def tuple_offs(self, m, site, sizes):
        out, p = [], 0
        for s in sizes:
            out.append(p)
            p += s
        return out

    def needs_drop(self, m, ty):
        return True

    def unknown(self, m, st, inst, args, depth, site):
        name = inst["path"]
        if inst.get("body") is None and site is not None and site.ret is not None:
            v = self.ctor(m, name, site.ret, args)
            if v is not None:
                return [(st, v)]
        u = m.stats["unknown"]
        u[name] = u.get(name, 0) + 1
        tys = site.argtys if site is not None else None
        for i, a in enumerate(args):
            for o, t in pieces(a):
                if t.op == "ptr":
                    mut = tys is None or i >= len(tys) or self.may_mutate(m, tys[i])
                    if not mut:
                        continue
                    oid = t.a[0]
                    if oid[0] == "acct" or oid[0] == "accs":
                        st.log = st.log + (("unk", name),)
                        if oid[0] == "acct":
                            self.acct_havoc(m, st, oid)
                    elif oid[0] in ("L", "H"):
                        ob = st.wobj(oid)
                        ob.cells.clear()
                        ob.back = ("havoc", name, st.fresh(("havoc", name)))
        ret = site.ret if site is not None else None
        n = m.size(ret) if ret is not None else 0
        if ret is not None and m.types[ret]["k"] == "never":
            return []
        if not n:
            return [(st, UNIT)]
        return [(st, sym(("ret", name, st.fresh(("ret", name))), n))]

    def ctor(self, m, name, ret, args):
        """an enum variant used as a function"""
        t = m.types[ret]
        if t["k"] != "adt":
            return None
        base, _, last = name.rpartition("::")
        if base.rsplit("::", 1)[-1] != t.get("adt", "").rsplit("::", 1)[-1]:
            return None
        for k, v in enumerate(t.get("v") or ()):
            if v["n"].rsplit("::", 1)[-1] == last and len(v["f"]) == len(args):
                return m.enum_pieces(ret, k, list(args))
        return None

    def may_mutate(self, m, ty, depth=0):
        t = m.types[ty]
        k = t["k"]
        if k in ("ref", "ptr"):
            return bool(t.get("mut"))
        if k in ("bool", "char", "int", "uint", "float", "str", "fndef", "fnptr"):
            return False
        if depth > 4:
            return True
        if k == "adt":
            if t["adt"].startswith(("core::fmt", "std::fmt")):
                return False
            return any(self.may_mutate(m, f[1], depth + 1) for v in t.get("v", ()) for f in v["f"])
        if k == "tuple":
            return any(self.may_mutate(m, f if isinstance(f, int) else f[1], depth + 1) for f in (t.get("f") or ()))
        if k in ("array", "slice"):
            return self.may_mutate(m, t["e"], depth + 1)
        return True

    def ret_size(self, m, site):
        return m.size(site.ret)

    # result constructor helpers
    def ok(self, m, ty, v):
        return m.enum_pieces(ty, 0, [v])

    def err(self, m, ty, v):
        return m.enum_pieces(ty, 1, [v])

    # ------------------------------------------------ pda helpers
    def seed_list(self, m, st, p, n):
        """&[&[u8]] at p, n entries -> list of terms or None"""
        out = []
        n = st.val(n)
        if n.c is None:
            return None
        for i in range(n.c):
            sp = st.val(as_term(m.load_ptr(st, add(p, const(16 * i, 8)), 8)))
            sl = st.val(as_term(m.load_ptr(st, add(p, const(16 * i + 8, 8)), 8)))
            if sl.c is None:
                out.append(func("bytes_at", (sp, sl), 1))
                continue
            if sl.c > 0:
                out.append(as_term(m.load_ptr(st, sp, sl.c)))
        return out

    @staticmethod
    def canon(st, t):
        """replace what is known to be constant"""
        mm = {}
        for x in walk(t):
            if x is not t and x in st.eqs and x.n > 0:
                mm[x] = st.eqs[x]
        return subst(t, mm) if mm else t


def model(*paths):
    def deco(f):
        f.paths = paths
        return f
    return deco


class SolanaModels(Models):
    # ------------------------------------------------ system calls
    @model("pinocchio::syscalls::sol_log_", "~::sol_log_$", "~syscalls::sol_log_(64|compute|pubkey)")
    def s_log(self, m, st, inst, a, d, site):
        return [(st, UNIT if not m.size(site.ret) else const(0, m.size(site.ret)))]

    @model("~^pinocchio_log::", "~^<.*> as pinocchio_log::")
    def s_logger(self, m, st, inst, a, d, site):
        n = m.size(site.ret) if site.ret is not None else 0
        return [(st, sym(("log", st.fresh("log")), n) if n else UNIT)]

    @model("pinocchio::syscalls::sol_log_data")
    def s_log_data(self, m, st, inst, a, d, site):
        p, n = as_term(a[0]), as_term(a[1])
        out = self.seed_list(m, st, p, n)
        if out is None:
            out = [sym("unknown event", 1)]
        st.log = st.log + (("event", tuple(out)),)
        return [(st, UNIT if not m.size(site.ret) else const(0, 8))]

    @model("pinocchio::syscalls::sol_get_clock_sysvar", "pinocchio::syscalls::sol_get_rent_sysvar",
           "pinocchio::syscalls::sol_get_fees_sysvar", "pinocchio::syscalls::sol_get_epoch_schedule_sysvar")
    def s_sysvar(self, m, st, inst, a, d, site):
        name = inst["path"].split("sol_get_")[1].split("_sysvar")[0]
        n = {"clock": 40, "rent": 17}.get(name)
        bad = st.fork()
        if n is None:
            return self.unknown(m, st, inst, a, d, site)
        m.store_ptr(st, as_term(a[0]), rbytes(name, 0, n), n)
        rs = m.size(site.ret)
        e = sym(("sysret", name), rs)
        bad.assume(eq(e, const(0, rs)), False)
        return [(st, const(0, rs)), (bad, e)]

    @model("pinocchio::sysvars::rent::Rent::minimum_balance")
    def s_rent_min(self, m, st, inst, a, d, site):
        return [(st, func("rent_min", (as_term(m.load_ptr(st, as_term(a[0]), 17)), as_term(a[1])), 8))]

    @model("pinocchio::syscalls::sol_create_program_address")
    def s_create_pda(self, m, st, inst, a, d, site):
        seeds = self.seed_list(m, st, as_term(a[0]), as_term(a[1]))
        prog = as_term(m.load_ptr(st, as_term(a[2]), 32))
        rs = m.size(site.ret)
        if seeds is None:
            return self.unknown(m, st, inst, a, d, site)
        t = func("pda", (prog, cat(seeds)), 32)
        bad = st.fork()
        m.store_ptr(st, as_term(a[3]), t, 32)
        e = func("pda_err", (prog, cat(seeds)), rs)
        bad.assume(eq(e, const(0, rs)), False)
        return [(st, const(0, rs)), (bad, e)]

    @model("pinocchio::syscalls::sol_try_find_program_address")
    def s_find_pda(self, m, st, inst, a, d, site):
        seeds = self.seed_list(m, st, as_term(a[0]), as_term(a[1]))
        prog = as_term(m.load_ptr(st, as_term(a[2]), 32))
        rs = m.size(site.ret)
        if seeds is None:
            return self.unknown(m, st, inst, a, d, site)
        base = cat(seeds)
        bump = func("bump", (prog, base), 1)
        bad = st.fork()
        m.store_ptr(st, as_term(a[3]), func("pda", (prog, cat(seeds + [bump])), 32), 32)
        m.store_ptr(st, as_term(a[4]), bump, 1)
        e = func("findpda_err", (prog, base), rs)
        bad.assume(eq(e, const(0, rs)), False)
        return [(st, const(0, rs)), (bad, e)]

    @model("pinocchio::syscalls::sol_sha256")
    def s_sha256(self, m, st, inst, a, d, site):
        seeds = self.seed_list(m, st, as_term(a[0]), as_term(a[1]))
        if seeds is None:
            return self.unknown(m, st, inst, a, d, site)
        data = cat(seeds)
        marker = b"ProgramDerivedAddress"
        h = func("sha256", (data,), 32)
        k = len(marker)
        if data.n > 32 + k:
            tail = ext(data, data.n - k, k)
            if tail.c == int.from_bytes(marker, "little"):
                h = func("pda", (ext(data, data.n - k - 32, 32), ext(data, 0, data.n - k - 32)), 32)
        m.store_ptr(st, as_term(a[2]), h, 32)
        rs = m.size(site.ret)
        return [(st, const(0, rs) if rs else UNIT)]

    @model("pinocchio::syscalls::sol_memcpy_", "~syscalls::sol_memcpy_$", "pinocchio::syscalls::sol_memmove_")
    def s_memcpy(self, m, st, inst, a, d, site):
        m.memcpy(st, as_term(a[0]), as_term(a[1]), as_term(a[2]))
        return [(st, UNIT)]

    @model("pinocchio::syscalls::sol_memset_")
    def s_memset(self, m, st, inst, a, d, site):
        self.fill(m, st, as_term(a[0]), as_term(a[1]), as_term(a[2]))
        return [(st, UNIT)]

    def fill(self, m, st, p, b, n):
        n = st.val(n)
        b = ext(b, 0, 1)
        if n.c is not None:
            if n.c:
                v = const(int.from_bytes(bytes([b.c]) * n.c, "little"), n.c) if b.c is not None else cat([b] * n.c)
                m.store_ptr(st, p, v, n.c)
            return
        oid, off = m.deref(p)
        if oid[0] == "acct" and off.c is not None and off.c >= DATA:
            # fills part of the account's data, proved in bounds like any other access
            if oid[0] in m.guarded:
                self.access(m, st, oid, off, n, True)
            whole = off.c == DATA and b.c == 0 and n is st.val(self.acct_get(m, st, oid, "data_len"))
            self.acct_bump(st, oid, ("data",), "zero" if whole else ("set", st.fresh("set")))
            return
        m.write_sym(st, oid, off, b, 1)

    @model("pinocchio::syscalls::sol_memcmp_")
    def s_memcmp(self, m, st, inst, a, d, site):
        n = st.val(as_term(a[2]))
        x = func("memcmp", (as_term(a[0]), as_term(a[1]), n), 4)
        if n.c is not None:
            x = self.cmp3(as_term(m.load_ptr(st, as_term(a[0]), n.c)), as_term(m.load_ptr(st, as_term(a[1]), n.c)), 4)
        m.store_ptr(st, as_term(a[3]), x, 4)
        return [(st, UNIT)]

    def cmp3(self, x, y, n):
        return ite(eq(x, y), const(0, n), func("memorder", (x, y), n))

    # ------------------------------------------------ cross-program invocation
    @model("pinocchio::syscalls::sol_invoke_signed_c")
    def s_invoke(self, m, st, inst, a, d, site):
        ip, infos, ninfo, sp, ns = [as_term(x) for x in a]
        L = lambda p, o, n: st.val(as_term(m.load_ptr(st, add(p, const(o, 8)), n)))
        prog = as_term(m.load_ptr(st, L(ip, 0, 8), 32))
        mp, ml, dp, dl = L(ip, 8, 8), L(ip, 16, 8), L(ip, 24, 8), L(ip, 32, 8)
        ns, ninfo = st.val(ns), st.val(ninfo)
        if ml.c is None or dl.c is None or ns.c is None or ninfo.c is None:
            st.log = st.log + (("unk", "cross-program invocation with unbounded arguments"),)
            return [(st, const(0, 8))]
        # the accounts handed over
        handed = []
        for i in range(ninfo.c):
            kp = L(infos, 56 * i, 8)
            handed.append(kp.a[0][1] if kp.op == "ptr" and kp.a[0][0] == "acct" and kp.a[1].c == 8 else None)
        metas = []
        for i in range(ml.c):
            kp = L(mp, 16 * i, 8)
            key = as_term(m.load_ptr(st, kp, 32))
            acct = kp.a[0][1] if kp.op == "ptr" and kp.a[0][0] == "acct" and kp.a[1].c == 8 else None
            if acct is None and i < len(handed) and handed[i] is not None:
                if self.acct_get(m, st, ("acct", handed[i]), "key") is key:
                    acct = handed[i]
            metas.append((acct, key, L(mp, 16 * i + 8, 1), L(mp, 16 * i + 9, 1)))
        data = as_term(m.load_ptr(st, dp, dl.c)) if dl.c else const(0, 0)
        seeds = []
        for i in range(ns.c):
            a0, n0 = L(sp, 16 * i, 8), L(sp, 16 * i + 8, 8)
            seeds.append(tuple(self.seed_list(m, st, a0, n0) or ()))
        k = sum(1 for e in st.log if e[0] == "cpi")
        pre = tuple((i, tuple((f, self.acct_get(m, st, ("acct", i), f)) for f in ("owner", "lamports", "data_len")))
                    for i in sorted({x[0] for x in metas if x[0] is not None}, key=str))
        st.log = st.log + (("cpi", k, prog, tuple(metas), data, tuple(seeds), pre),)
        g, m.guarded = m.guarded, ()        # accesses of the invoked program are its own
        dead = self.cpi_effects(m, st, k, prog, metas, data) is False
        m.guarded = g
        if dead:
            return []           # the invoked program would have failed
        return [(st, const(0, m.size(site.ret)) if m.size(site.ret) else UNIT)]

    def cpi_effects(self, m, st, k, prog, metas, data):
        ver = ("cpi", k)
        prog = st.val(prog)
        acc = lambda i: ("acct", metas[i][0]) if i < len(metas) and metas[i][0] is not None else None
        if prog is T_SYSTEM and data.n >= 4:
            tag = st.val(ext(data, 0, 4)).c
            if tag == 0 and data.n == 52 and acc(0) and acc(1):
                lam, space, owner = ext(data, 4, 8), ext(data, 12, 8), ext(data, 20, 32)
                fl = self.acct_get(m, st, acc(0), "lamports")
                self.acct_set(m, st, acc(0), "lamports", sub(fl, lam))
                self.acct_bump(st, acc(1), ("data",), "zero")
                self.acct_set(m, st, acc(1), "lamports", lam)
                self.acct_set(m, st, acc(1), "data_len", space)
                self.acct_set(m, st, acc(1), "owner", owner)
                return
            if tag == 8 and data.n == 12 and acc(0):
                self.acct_bump(st, acc(0), ("data",), "zero")
                self.acct_set(m, st, acc(0), "data_len", ext(data, 4, 8))
                return
            if tag == 1 and data.n == 36 and acc(0):
                self.acct_set(m, st, acc(0), "owner", ext(data, 4, 32))
                return
            if tag == 2 and data.n == 12 and acc(0) and acc(1):
                lam = ext(data, 4, 8)
                f, t = self.acct_get(m, st, acc(0), "lamports"), self.acct_get(m, st, acc(1), "lamports")
                self.acct_set(m, st, acc(0), "lamports", sub(f, lam))
                self.acct_set(m, st, acc(1), "lamports", add(t, lam))
                return
        if prog is T_TOKEN and data.n >= 9:
            # SPL Token: what a successful call establishes and changes (trusted model)
            tag = st.val(ext(data, 0, 1)).c
            amt = ext(data, 1, 8)
            A, S = 64, 36
            role = {(3, 9): (0, 1, None), (12, 10): (0, 2, None), (7, 9): (None, 1, 0), (14, 10): (None, 1, 0),
                    (8, 9): (0, None, 1), (15, 10): (0, None, 1)}.get((tag, data.n))
            if role is not None and all(r is None or acc(r) for r in role):
                fr, to, mint = role
                old = {r: as_term(m.read(st, acc(r), DATA + (S if r == mint else A), 8)) for r in role if r is not None}
                if m.refusals:
                    bads = [ult(old[fr], amt)] if fr is not None else [uaddo(old[mint], amt)]
                    bads += [ult(old[mint], amt)] if fr is not None and mint is not None else []
                    bads += [uaddo(old[to], amt)] if to is not None else []
                    for bad in bads:
                        s2 = st.fork()
                        if st.decide(bad) is not False and s2.assume(bad, True):
                            m.stops.append((s2, "the token program refuses"))
                if fr is not None:
                    ok = st.assume(ult(old[fr], amt), False)
                    if mint is not None:
                        ok = st.assume(ult(old[mint], amt), False) and ok
                else:
                    ok = st.assume(uaddo(old[mint], amt), False)
                if to is not None:
                    ok = st.assume(uaddo(old[to], amt), False) and ok
                if not ok:
                    return False
                for r, t in old.items():
                    up = r == to or (r == mint and fr is None)
                    o = self.wacct(st, acc(r))
                    m.put(o, DATA + (S if r == mint else A), add(t, amt) if up else sub(t, amt), 8)
                return
        for i, (ac, key, w, s) in enumerate(metas):
            if ac is None or w.c == 0:
                continue
            if prog is T_TOKEN:
                self.acct_bump(st, ("acct", ac), ("data",), ver)
            else:
                self.acct_bump(st, ("acct", ac), MUTABLE, ver)

    # ------------------------------------------------ allocator
    def heap(self, m, st, site, size):
        key = site.key()
        h = ("H", hash(key) & 0xFFFFFFFFFF, st.fresh(("H", key)))
        st.mem[h] = Obj({}, size)
        st.own.add(h)
        return ptr(h)

    @model("std::alloc::Global::alloc_impl_runtime", "std::alloc::Global::alloc_impl",
           "alloc::alloc::Global::alloc_impl_runtime")
    def a_alloc(self, m, st, inst, a, d, site):
        lay, zeroed = (a[-2], a[-1])
        size = as_term(vslice(lay, 8, 8))
        p = self.heap(m, st, site, size)
        if as_term(zeroed).c == 1 and size.c:
            m.store_ptr(st, p, const(0, size.c), size.c)
        return [(st, Blob(16, ((0, p), (8, size))))]

    @model("std::alloc::Global::grow_impl_runtime", "std::alloc::Global::shrink_impl_runtime")
    def a_grow(self, m, st, inst, a, d, site):
        # (self, ptr, old_layout, new_layout, [zeroed])
        li = [i for i, x in enumerate(a) if x.n == 16]
        lays = [a[i] for i in li]
        p = as_term(a[li[0] - 1])
        new = as_term(vslice(lays[1], 8, 8))
        q = self.heap(m, st, site, new)
        if p.op == "ptr" and p.a[0] in st.mem:
            o = st.mem[p.a[0]]
            st.mem[q.a[0]].cells = dict(o.cells)
            st.mem[q.a[0]].back = o.back
            del st.mem[p.a[0]]
        else:
            st.mem[q.a[0]].back = ("unknown heap", st.fresh("uh"))
        return [(st, Blob(16, ((0, q), (8, new))))]

    @model("alloc::alloc::exchange_malloc", "std::alloc::exchange_malloc", "~::exchange_malloc$", "~::box_new$")
    def a_box(self, m, st, inst, a, d, site):
        size = as_term(a[0]) if a and isinstance(a[0], T) and a[0].n == 8 else as_term(vslice(a[0], 8, 8))
        return [(st, self.heap(m, st, site, size))]

    @model("alloc::alloc::__rust_dealloc", "std::alloc::dealloc", "alloc::alloc::dealloc",
           "~^<std::alloc::Global as std::alloc::Allocator>::deallocate", "~Global::deallocate_impl")
    def a_free(self, m, st, inst, a, d, site):
        for x in a:
            if isinstance(x, T) and x.op == "ptr" and x.a[0][0] == "H" and x.a[0] in st.mem:
                del st.mem[x.a[0]]
                st.own.discard(x.a[0])
        return [(st, UNIT)]

    # ------------------------------------------------ intrinsics and core leaves
    def i_cold_path(self, m, st, inst, a, d, site):
        return [(st, UNIT)]
    i_assert_inhabited = i_assert_zero_valid = i_assert_mem_uninitialized_valid = i_assume = i_cold_path

    def i_black_box(self, m, st, inst, a, d, site):
        return [(st, a[0])]

    def elem(self, m, inst, i=0):
        return m.size(inst["args"][i])

    def i_arith_offset(self, m, st, inst, a, d, site):
        return [(st, add(as_term(a[0]), mul(as_term(a[1]), const(self.elem(m, inst), 8))))]

    def i_ptr_offset_from_unsigned(self, m, st, inst, a, d, site):
        x = sub(as_term(a[0]), as_term(a[1]))
        es = self.elem(m, inst)
        if x.op == "lin" and es > 1 and x.a[0] % es == 0 and all(signed(c, 8) % es == 0 for _, c in x.a[1]):
            r = const(x.a[0] // es, 8)
            for t, c in x.a[1]:
                r = add(r, mul(t, const(signed(c, 8) // es, 8)))
            return [(st, r)]
        return [(st, udiv(x, const(es, 8)))]
    i_ptr_offset_from = i_ptr_offset_from_unsigned

    def i_saturating_sub(self, m, st, inst, a, d, site):
        x, y = as_term(a[0]), as_term(a[1])
        if m.is_signed(inst["args"][0]):
            d, top = sub(x, y), 1 << (8 * x.n - 1)
            return [(st, ite(ssubo(x, y), ite(slt(x, const(0, x.n)), const(top, x.n), const(top - 1, x.n)), d))]
        return [(st, ite(ult(x, y), const(0, x.n), sub(x, y)))]

    def i_saturating_add(self, m, st, inst, a, d, site):
        x, y = as_term(a[0]), as_term(a[1])
        if m.is_signed(inst["args"][0]):
            d, top = add(x, y), 1 << (8 * x.n - 1)
            return [(st, ite(saddo(x, y), ite(slt(x, const(0, x.n)), const(top, x.n), const(top - 1, x.n)), d))]
        return [(st, ite(uaddo(x, y), const(-1, x.n), add(x, y)))]

    def i_raw_eq(self, m, st, inst, a, d, site):
        n = self.elem(m, inst)
        x, y = as_term(m.load_ptr(st, as_term(a[0]), n)), as_term(m.load_ptr(st, as_term(a[1]), n))
        return [(st, eq(self.canon1(st, x), self.canon1(st, y)))]

    def canon1(self, st, t):
        v = st.eqs.get(t)
        return v if v is not None else t

    def i_compare_bytes(self, m, st, inst, a, d, site):
        n = st.val(as_term(a[2]))
        if n.c is not None:
            return [(st, self.cmp3(as_term(m.load_ptr(st, as_term(a[0]), n.c)), as_term(m.load_ptr(st, as_term(a[1]), n.c)), 4))]
        return [(st, func("memcmp", (as_term(a[0]), as_term(a[1]), n), 4))]

    def i_write_bytes(self, m, st, inst, a, d, site):
        self.fill(m, st, as_term(a[0]), as_term(a[1]), mul(as_term(a[2]), const(self.elem(m, inst), 8)))
        return [(st, UNIT)]
    i_volatile_set_memory = i_write_bytes

    def i_copy(self, m, st, inst, a, d, site):
        m.memcpy(st, as_term(a[1]), as_term(a[0]), mul(as_term(a[2]), const(self.elem(m, inst), 8)))
        return [(st, UNIT)]
    i_copy_nonoverlapping = i_copy

    def i_ctpop(self, m, st, inst, a, d, site):
        x = as_term(a[0])
        return [(st, const(bin(x.c).count("1"), 4) if x.c is not None else func("ctpop", (x,), 4))]

    def i_bswap(self, m, st, inst, a, d, site):
        x = as_term(a[0])
        if x.c is not None:
            return [(st, const(int.from_bytes(x.c.to_bytes(x.n, "little"), "big"), x.n))]
        return [(st, cat([ext(x, i, 1) for i in reversed(range(x.n))]))]

    def i_disjoint_bitor(self, m, st, inst, a, d, site):
        return [(st, bor(as_term(a[0]), as_term(a[1])))]

    def i_size_of_val(self, m, st, inst, a, d, site):
        n = m.size(inst["args"][0])
        if n is not None:
            return [(st, const(n, 8))]
        t = m.types[inst["args"][0]]
        if t["k"] in ("slice", "str"):
            return [(st, mul(as_term(vslice(a[0], 8, 8)), const(m.size(t["e"]) if t["k"] == "slice" else 1, 8)))]
        return self.unknown(m, st, inst, a, d, site)

    def i_align_of_val(self, m, st, inst, a, d, site):
        t = m.types[inst["args"][0]]
        if t.get("align"):
            return [(st, const(t["align"], 8))]
        if t["k"] == "slice":
            return [(st, const(m.types[t["e"]]["align"], 8))]
        return self.unknown(m, st, inst, a, d, site)

    def i_integer_min(self, m, st, inst, a, d, site):
        x, y = as_term(a[0]), as_term(a[1])
        sg = m.is_signed(inst["args"][0])
        return [(st, ite(lt(y, x, sg), y, x))]

    def i_integer_max(self, m, st, inst, a, d, site):
        x, y = as_term(a[0]), as_term(a[1])
        sg = m.is_signed(inst["args"][0])
        return [(st, ite(lt(x, y, sg), y, x))]

    def i_rotate_right(self, m, st, inst, a, d, site):
        x, y = as_term(a[0]), as_term(a[1])
        if x.c is not None and y.c is not None:
            s = y.c % (8 * x.n)
            return [(st, const(x.c >> s | x.c << (8 * x.n - s), x.n))]
        return [(st, func("ror", (x, y), x.n))]

    def i_abort_immediate(self, m, st, inst, a, d, site):
        return []
    i_abort = i_abort_immediate

    @model("~^core::panicking::", "~^std::panicking::", "~slice_index_fail", "~len_mismatch_fail", "~handle_alloc_error",
           "~^alloc::raw_vec::handle_error", "~unwrap_failed", "~expect_failed", "~^std::rt::begin_panic",
           "~^core::slice::index::slice_.*_fail", "~panic_cold", "~capacity_overflow", "~unreachable_default_msg",
           "~::panic_display", "~^core::option::unwrap_failed")
    def p_panic(self, m, st, inst, a, d, site):
        return []

    @model("core::str::<impl str>::len", "core::str::<impl str>::as_ptr", "core::str::<impl str>::as_bytes")
    def c_str(self, m, st, inst, a, d, site):
        p = inst["path"]
        if p.endswith("len"):
            return [(st, as_term(vslice(a[0], 8, 8)))]
        if p.endswith("as_ptr"):
            return [(st, as_term(vslice(a[0], 0, 8)))]
        return [(st, a[0])]

    @model("~::precondition_check$", "~^std::ub_checks::", "~^core::ub_checks::")
    def c_ub(self, m, st, inst, a, d, site):
        return [(st, UNIT if not m.size(site.ret) else FALSE)]

    # text formatting never influences program behaviour: results are opaque
    @model("~base58::", "~ToString>::to_string", "~^core::fmt::", "~^std::fmt::", "~^alloc::fmt::", "~ as std::fmt::",
           "~^alloc::string::", "~^std::string::String::(from|push|new)")
    def t_text(self, m, st, inst, a, d, site):
        return self.unknown(m, st, inst, a, d, site)

    # io::Error values are opaque
    @model("~^std::io::Error::", "~^core::io::error::", "~^alloc::io::error", "~^<std::io::Error as", "~^std::io::error",
           "~drop_glue::<std::io::Error>", "~drop_glue::<std::string::String>", "~drop_glue::<std::io::")
    def c_ioerr(self, m, st, inst, a, d, site):
        n = m.size(site.ret) if site.ret is not None else 0
        if n == 8:
            return [(st, ptr(("ioerr",)))]       # non-null, otherwise opaque
        return [(st, sym(("ioerr", st.fresh("ioerr")), n) if n else UNIT)]
