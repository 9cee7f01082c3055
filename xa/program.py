"""Analysis of the on-chain program from its instruction entry point."""
import time
from .extract import dump
from .term import *
from .ai import *
from .models import *

IX_LEN = sym("ix_len", 8)
N_ACC = sym("n_accounts", 8)
PROG = rbytes("program_id", 0, 32)


class ProgramModels(SolanaModels):
    def access(self, m, st, oid, off, n, write):
        """every touch of an account's data, the instruction bytes or the account list must be
        proved to lie inside it under the conditions that hold at that point"""
        kind = oid[0]
        if isinstance(n, T):
            o8 = off if isinstance(off, T) else const(off, 8)
            end = add(o8, n)
            if kind == "acct":
                end, ln, what = sub(end, const(DATA, 8)), self.acct_get(m, st, oid, "data_len"), "data of account %s" % (oid[1],)
            elif kind == "ix":
                ln, what = IX_LEN, "instruction data"
            else:
                ln, what = mul(N_ACC, const(8, 8)), "account list"
        elif kind == "acct":
            if not isinstance(off, T):
                if off + n <= DATA:
                    return
                end = const(off + n - DATA, 8)
            else:
                end = add(off, const(n - DATA, 8))
            ln = self.acct_get(m, st, oid, "data_len")
            what = "data of account %s" % (oid[1],)
        elif kind == "ix":
            end, ln, what = add(off if isinstance(off, T) else const(off, 8), const(n, 8)), IX_LEN, "instruction data"
        else:
            end, ln, what = add(off if isinstance(off, T) else const(off, 8), const(n, 8)), mul(N_ACC, const(8, 8)), "account list"
            if end.c is not None:
                end, ln = const((end.c + 7) // 8, 8), N_ACC
        fr, blk = m.cur
        k = (m.p.insts[fr.iid]["path"], what, "write" if write else "read", show(end))
        f = fr
        own = None
        while f is not None:
            i = m.p.insts[f.iid]
            if i["crate"] == m.p.d["crate"]:
                own = i["path"]
                break
            f = f.site.fr if f.site is not None else None
        ok = st.decide(ult(ln, end)) is False
        if ok and isinstance(off, T) and off.c is None or ok and isinstance(n, T):
            # ... and the end of the accessed range does not wrap around
            o8, n8 = off if isinstance(off, T) else const(off, 8), n if isinstance(n, T) else const(n, 8)
            ok = st.rng(o8)[1] + st.rng(n8)[1] < 1 << 64 or st.decide(uaddo(o8, n8)) is False
        c = m.access.setdefault(k, [0, 0, own])
        c[0 if ok else 1] += 1


def load():
    return Prog(dump("xorca_staking_program"))


def analyse(p=None, trace=False, refusals=False):
    """refusals: keep every way to fail apart (and collect panics) instead of joining them"""
    p = p or load()
    m = Interp(p, ProgramModels(), trace)
    if refusals:
        m.refusals, m.models.keep_errors, m.k_part = True, True, 4000
    m.guarded = ("acct", "ix", "accs")
    iid = p.roots["xorca_staking_program::entrypoint::process_instruction"][0]
    st = State()
    st.mem[("reg", "program_id")] = Obj({}, 32, "program_id")
    args = [ptr(("reg", "program_id")), Blob(16, ((0, ptr(("accs",))), (8, N_ACC))),
            Blob(16, ((0, ptr(("ix",))), (8, IX_LEN)))]
    for t in (N_ACC, IX_LEN):
        st.bnd[t] = (0, 1 << 32)
    try:
        res = m.call(st, iid, args, 0, None)
    except Imprecise as e:
        if __name__ != "__main__":
            raise
        print("IMPRECISE", e)
        for x in e.stack:
            print("   ", x[:150])
        if not trace:
            raise SystemExit(2)
        for k, n in sorted(m.prof.items(), key=lambda x: -x[1])[:40]:
            print(n, p.insts[k]["name"][:120])
        for k, c in m.multi.items():
            print(p.insts[k]["name"][:130], c)
        raise SystemExit(2)
    return m, iid, res


if __name__ == "__main__":
    import sys
    t0 = time.time()
    m, iid, res = analyse(trace='-t' in sys.argv)
    rt = m.p.insts[iid]["body"]["locals"][0]
    print(len(res), "exits", m.steps, "steps", round(time.time() - t0, 1), "s; joins", m.stats["joins"])
    print(m.stats["unknown"])
    print(sum(c[0] for c in m.access.values()), "accesses proved;", sum(c[1] for c in m.access.values()), "not")
    for k, c in m.access.items():
        if c[1]:
            print("   UNPROVED", k, c)
    for s, v in res:
        s.mem[("R",)] = Obj({o: t for o, t in pieces(v)})
        d = s.val(m.discr(s, ("R",), 0, rt, 8))
        print("EXIT", d, "facts", len(s.facts))
        if d.c == 0 or "-a" in sys.argv:
            for e in s.log:
                print("   ", str(e)[:1500])
            if "-f" in sys.argv:
                for f, b in s.facts.items():
                    print("      ", "" if b else "NOT", f)
