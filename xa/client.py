"""Abstract interpretation of the Rust client crate: each public entry is summarised for symbolic
arguments; RPC answers are opaque functions of the queried address."""
from .extract import dump
from .term import *
from .ai import *
from .models import *
from .ai import pieces, vslice, as_term, mkval, Blob, Obj, tag_size

FN = {}
PROGRAM = key_const("StaKE6XNKVVhG8Qu9hDJBqCW3eRe7MDGLz17nJZetLT")


def walk_field(m, ty, *names):
    """(offset, type) of a nested struct field"""
    off = 0
    for n in names:
        fs = m.types[ty]["v"][0]["f"]
        i = [k for k, f in enumerate(fs) if f[0] == n][0]
        off += m.foff(ty, None, i)
        ty = fs[i][1]
    return off, ty


def vec_value(m, ty, p, n, cap=None):
    """value of a Vec of type ty with the given buffer and length"""
    o = lambda *x: walk_field(m, ty, *x)[0]
    ps = [(o("buf", "inner", "cap"), cap or n), (o("buf", "inner", "ptr"), p), (o("len"), n)]
    return mkval(m.size(ty), sorted(ps, key=lambda x: x[0]))


def vec_parts(m, ty, v):
    """(pointer, length) of a Vec value"""
    g = lambda *x: as_term(vslice(v, walk_field(m, ty, *x)[0], 8))
    return g("buf", "inner", "ptr"), g("len")


def struct_value(m, ty, **fields):
    ps = []
    for k, v in fields.items():
        o, _ = walk_field(m, ty, k)
        ps += [(o + q, x) for q, x in pieces(v)]
    return mkval(m.size(ty), sorted(ps, key=lambda x: x[0]))


def result_args(m, ty):
    t = m.types[ty]
    return t["v"][0]["f"][0][1], t["v"][1]["f"][0][1]


def err_value(m, st, ty, v):
    """Err(v) of Result type ty with an opaque payload; the payload does not read as the Ok niche"""
    r = m.enum_pieces(ty, 1, [v])
    mu = m.types[ty].get("multi")
    if mu and mu["enc"] != "direct" and mu["enc"][0] == 1:
        _, a, b, ns = mu["enc"]
        ts = tag_size(mu["tag"])
        tg = as_term(vslice(r, mu["at"], ts))
        for k in range(a, b + 1):
            st.assume(eq(tg, const(int(ns) + k - a, ts)), False)
    return r


class ClientModels(SolanaModels):
    keep_errors = False
    kind = None             # key term -> what lives there ("absent", "state", "record", "token", "mint", "other"); None: anything
    online = False          # the node answers every request and program addresses exist

    def seeds_of(self, m, st, v):
        return self.seed_list(m, st, as_term(vslice(v, 0, 8)), as_term(vslice(v, 8, 8)))

    # ------------------------------------------------ addresses
    @model("solana_pubkey::Pubkey::try_find_program_address", "solana_pubkey::Pubkey::find_program_address")
    def k_find(self, m, st, inst, a, d, site):
        seeds = self.seeds_of(m, st, a[0])
        if seeds is None:
            return self.unknown(m, st, inst, a, d, site)
        prog = as_term(m.load_ptr(st, as_term(a[1]), 32))
        base = cat(seeds)
        b = func("bump", (prog, base), 1)
        k = func("pda", (prog, cat(seeds + [b])), 32)
        st.log = st.log + (("seeds", tuple(s.n for s in seeds)),)
        opt = inst["path"].endswith("try_find_program_address")
        tt = m.types[site.ret]["v"][1]["f"][0][1] if opt else site.ret
        v = mkval(m.size(tt), sorted([(m.foff(tt, None, 0), k), (m.foff(tt, None, 1), b)], key=lambda x: x[0]))
        if not opt:
            return [(st, v)]
        if self.online:
            return [(st, m.enum_pieces(site.ret, 1, [v]))]
        bad = st.fork()
        bad.assume(func("nopda", (prog, base), 1), True)
        return [(st, m.enum_pieces(site.ret, 1, [v])), (bad, m.enum_pieces(site.ret, 0, []))]

    @model("solana_pubkey::Pubkey::create_program_address")
    def k_create(self, m, st, inst, a, d, site):
        seeds = self.seeds_of(m, st, a[0])
        if seeds is None:
            return self.unknown(m, st, inst, a, d, site)
        prog = as_term(m.load_ptr(st, as_term(a[1]), 32))
        bad = st.fork()
        ok, er = result_args(m, site.ret)
        return [(st, m.enum_pieces(site.ret, 0, [func("pda", (prog, cat(seeds)), 32)])),
                (bad, err_value(m, bad, site.ret, sym("pdaerr", m.size(er))))]

    @model("<solana_pubkey::Pubkey as std::str::FromStr>::from_str", "solana_pubkey::Pubkey::from_str_const", "core::str::<impl str>::parse")
    def k_parse(self, m, st, inst, a, d, site):
        if inst["path"].endswith("::parse") and not m.types[result_args(m, site.ret)[0]].get("adt", "").endswith("Pubkey"):
            return self.unknown(m, st, inst, a, d, site)
        n = st.val(as_term(vslice(a[0], 8, 8)))
        t = as_term(m.load_ptr(st, as_term(vslice(a[0], 0, 8)), n.c)) if n.c else None
        k = None
        if t is not None and t.c is not None:
            try:
                k = key_const(t.c.to_bytes(t.n, "little").decode())
            except Exception:
                k = None
        if inst["path"].endswith("_const"):
            return [(st, k)] if k is not None else self.unknown(m, st, inst, a, d, site)
        ok, er = result_args(m, site.ret)
        out = []
        if k is None:
            bad = st.fork()
            out.append((bad, err_value(m, bad, site.ret, sym("keyerr", m.size(er)))))
            k = func("parsekey", (as_term(vslice(a[0], 0, 8)), n), 32)
        return out + [(st, m.enum_pieces(site.ret, 0, [k]))]

    # ------------------------------------------------ RPC
    def account(self, m, st, ty, key):
        """Account value fetched from address `key`"""
        oid = ("reg", ("data", key))
        if oid not in st.mem:
            st.mem[oid] = Obj({}, None, ("data", key))
        n = func("data_len", (key,), 8)
        st.bnd[n] = (0, MAX_DATA)
        dty = walk_field(m, ty, "data")[1]
        return struct_value(m, ty, lamports=func("lamports", (key,), 8), data=vec_value(m, dty, ptr(oid), n),
                            owner=func("owner", (key,), 32), executable=func("exec", (key,), 1),
                            rent_epoch=func("epoch", (key,), 8))

    def lives(self, st, key):
        """conditions of the kind of account assumed at `key`; False: none exists"""
        k = self.kind(key) if self.kind else None
        if k == "absent":
            return False
        d = lambda o, n=1: rbytes(("data", key), o, n)
        n = func("data_len", (key,), 8)
        if k in ("state", "record"):
            st.assume(eq(n, const({"state": 2048, "record": 1024}[k], 8)), True)
            st.assume(eq(d(0), const({"state": 1, "record": 2}[k], 1)), True)
            st.assume(eq(func("owner", (key,), 32), PROGRAM), True)
        elif k == "token":
            st.assume(eq(n, const(165, 8)), True)
            st.assume(eq(d(108), const(1, 1)), True)
            for o in (72, 109, 129):
                self.option(st, d, o)
        elif k == "mint":
            st.assume(eq(n, const(82, 8)), True)
            st.assume(eq(d(45), const(1, 1)), True)
            for o in (0, 46):
                self.option(st, d, o)
        elif k == "other":
            st.assume(eq(func("owner", (key,), 32), PROGRAM), False)
        return True

    @staticmethod
    def option(st, d, o):
        """a four-byte option tag"""
        st.bnd[d(o)] = (0, 1)
        for i in (1, 2, 3):
            st.assume(eq(d(o + i), const(0, 1)), True)

    def failed(self, m, st, site, what):
        if self.online:
            return []
        bad = st.fork()
        bad.assume(func("rpc_fails", (const(len(st.log), 8),), 1), True)
        er = result_args(m, site.ret)[1]
        bad.log = bad.log + (("rpcfail", what),)
        return [(bad, err_value(m, bad, site.ret, sym(("rpcerr", what), m.size(er))))]

    @model("~RpcClient::get_account$", "~RpcClient::get_account_data$")
    def r_account(self, m, st, inst, a, d, site):
        key = as_term(m.load_ptr(st, as_term(a[1]), 32))
        out = self.failed(m, st, site, "get_account")
        st.log = st.log + (("rpc", "account", (key,)),)
        ok, er = result_args(m, site.ret)
        if not self.lives(st, key):
            return out + [(st, err_value(m, st, site.ret, sym(("rpcerr", "absent"), m.size(er))))]
        if inst["path"].endswith("_data"):
            v = self.account_data(m, st, ok, key)
        else:
            v = self.account(m, st, ok, key)
        return out + [(st, m.enum_pieces(site.ret, 0, [v]))]

    def account_data(self, m, st, ty, key):
        oid = ("reg", ("data", key))
        if oid not in st.mem:
            st.mem[oid] = Obj({}, None, ("data", key))
        n = func("data_len", (key,), 8)
        st.bnd[n] = (0, MAX_DATA)
        return vec_value(m, ty, ptr(oid), n)

    @model("~RpcClient::get_multiple_accounts$")
    def r_accounts(self, m, st, inst, a, d, site):
        p, n = as_term(vslice(a[1], 0, 8)), st.val(as_term(vslice(a[1], 8, 8)))
        if n.c is None:
            return self.unknown(m, st, inst, a, d, site)
        keys = tuple(as_term(m.load_ptr(st, add(p, const(32 * i, 8)), 32)) for i in range(n.c))
        out = self.failed(m, st, site, "get_multiple_accounts")
        st.log = st.log + (("rpc", "accounts", keys),)
        vt, _ = result_args(m, site.ret)
        et = m.types[vt]["args"][0]                       # Option<Account>
        at = m.types[et]["v"][1]["f"][0][1]
        es = m.size(et)
        h = self.heap(m, st, site, const(es * max(n.c, 1), 8))
        for i, k in enumerate(keys):
            here = self.lives(st, k)
            v = m.enum_pieces(et, 1, [self.account(m, st, at, k)]) if here else m.enum_pieces(et, 0, [])
            m.store_ptr(st, add(h, const(es * i, 8)), v, es)
        return out + [(st, m.enum_pieces(site.ret, 0, [vec_value(m, vt, h, n)]))]

    # ------------------------------------------------ calls from other programs
    @model("~^<solana_account_info::AccountInfo<.*> as std::clone::Clone>::clone")
    def i_clone(self, m, st, inst, a, d, site):
        return [(st, m.load_ptr(st, as_term(a[0]), m.size(site.ret)))]

    @model("~^solana_cpi::invoke", "~^solana_program::program::invoke")
    def i_cpi(self, m, st, inst, a, d, site):
        ixty = m.types[site.argtys[0]]["e"]
        aty = m.types[m.types[site.argtys[1]]["e"]]["e"]
        p, n = as_term(vslice(a[1], 0, 8)), st.val(as_term(vslice(a[1], 8, 8)))
        if n.c is None:
            return self.unknown(m, st, inst, a, d, site)
        ko = walk_field(m, aty, "key")[0]
        keys = []
        for i in range(n.c):
            k = as_term(m.load_ptr(st, add(p, const(i * m.size(aty) + ko, 8)), 8))
            keys.append(as_term(m.load_ptr(st, k, 32)))
        sd = (as_term(vslice(a[2], 0, 8)), as_term(vslice(a[2], 8, 8))) if len(a) > 2 else (const(0, 8), const(0, 8))
        # read the instruction now: its buffers may be released afterwards
        st.log = st.log + (("cpi", self.instruction(m, st, ixty, m.load_ptr(st, as_term(a[0]), m.size(ixty))), tuple(keys), sd),)
        bad = st.fork()
        return [(st, m.enum_pieces(site.ret, 0, [])), (bad, err_value(m, bad, site.ret, sym("cpierr", m.size(result_args(m, site.ret)[1]))))]

    @staticmethod
    def instruction(m, st, ty, v):
        """(program id, ((key, signer, writable), ...), payload) of an Instruction value"""
        o, vt = walk_field(m, ty, "accounts")
        p, n = vec_parts(m, vt, vslice(v, o, m.size(vt)))
        n = st.val(n)
        mt = m.types[vt]["args"][0]
        metas = None
        if n.c is not None:
            g = lambda i, f: as_term(m.load_ptr(st, add(p, const(i * m.size(mt) + walk_field(m, mt, f)[0], 8)), m.size(walk_field(m, mt, f)[1])))
            metas = tuple((g(i, "pubkey"), g(i, "is_signer"), g(i, "is_writable")) for i in range(n.c))
        o, vt = walk_field(m, ty, "data")
        p, n = vec_parts(m, vt, vslice(v, o, m.size(vt)))
        n = st.val(n)
        data = as_term(m.load_ptr(st, p, n.c)) if n.c is not None else None
        return (as_term(vslice(v, walk_field(m, ty, "program_id")[0], 32)), metas, data)

    # destructors that only release what the value owns have no observable effect; those of guards
    # holding a mutable borrow (e.g. the length guard of Vec::extend) are executed
    @model("~drop_glue::<")
    def t_drop(self, m, st, inst, a, d, site):
        ty = inst["args"][0] if inst.get("args") else None
        if ty is None or self.writes_back(m, ty) and inst.get("body") is not None:
            return self.body_of(m, st, inst, a, d, site)
        return [(st, UNIT)]

    def body_of(self, m, st, inst, a, d, site):
        f = self.cache[(inst["path"], inst["name"])]
        self.cache[(inst["path"], inst["name"])] = None
        try:
            return m.call(st, m.p.insts.index(inst), a, d, site)
        finally:
            self.cache[(inst["path"], inst["name"])] = f

    def writes_back(self, m, ty, seen=None):
        seen = set() if seen is None else seen
        if ty in seen:
            return False
        seen.add(ty)
        t = m.types[ty]
        if t["k"] == "ref":
            return bool(t.get("mut"))
        if t["k"] == "adt" and t.get("adt", "").rsplit("::", 1)[-1] in ("Rc", "Arc", "Weak"):
            return False
        if t["k"] == "adt" and t.get("adt", "").endswith("NonNull"):
            e = m.types[t["args"][0]]
            return e["k"] == "adt" and e.get("adt", "").rsplit("::", 1)[-1] in ("Vec", "String", "VecDeque")
        if t["k"] == "ptr":
            return False
        kids = [f[1] for v in t.get("v") or () for f in v["f"]]
        if t.get("e") is not None:
            kids.append(t["e"])
        if t["k"] in ("tuple", "closure"):
            kids += [x for x in t.get("f") or () if isinstance(x, int)]
        return any(self.writes_back(m, k, seen) for k in kids)

    # reference counts of the account handles are bookkeeping of the caller's runtime
    @model("~^<(std|alloc)::rc::Rc<.*> as std::ops::Drop>::drop", "~^<(std|alloc)::(rc::Rc|sync::Arc)<.*>(, .*)?> as core::ops::Drop>::drop")
    def i_rcdrop(self, m, st, inst, a, d, site):
        return [(st, UNIT)]

    # error text and error conversions are opaque
    @model("~^anyhow::error", "~^anyhow::__private", "~^anyhow::fmt", "~^anyhow::kind", "~^<anyhow::Error as", "~Error as std::convert::From<.*Error>>::from$", "~ as std::string::ToString>", "~ as std::error::Error>")
    def t_error(self, m, st, inst, a, d, site):
        if inst["path"] == "<T as std::convert::From<T>>::from":
            return [(st, a[0])]
        return self.unknown(m, st, inst, a, d, site)

_p = {}


def prog(feat="default"):
    if feat not in _p:
        _p[feat] = Prog(dump("xorca", feat))
    return _p[feat]


def witness():
    if "xw" not in _p:
        _p["xw"] = Prog(dump("xw"))
    return _p["xw"]


def run(name, args, p=None, setup=None, models=None, keep=False):
    """-> (interp, [(state, value)], return type)"""
    p = p or prog()
    m = Interp(p, models or ClientModels())
    m.models.keep_errors = keep
    if name not in p.roots:
        raise KeyError(name)
    iid = p.roots[name][0]
    st = State()
    if setup:
        setup(m, st)
    if callable(args):
        args = args(m, st, iid)
    res = m.call(st, iid, args, 0, None)
    return m, res, p.insts[iid]["body"]["locals"][0]


def reg(st, name, n, t=None):
    """a caller-owned object: opaque bytes, or holding term t"""
    st.mem[("reg", name)] = Obj({}, n, name) if t is None else Obj({o: x for o, x in pieces(t)}, n, name)
    return ptr(("reg", name))
