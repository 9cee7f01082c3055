#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property from /repo's current sources.

Exit 0: every obligation of the property is discharged on every path.  Exit 1 with a VIOLATION
line: some obligation is not, or the sources cannot be analysed (fail closed)."""
import fnmatch, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def known_findings():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property="):
                pid, _, rest = l[len("known: property="):].partition(" ")
                key, _, what = rest.partition(" :: ")
                out.setdefault(pid, {})[key] = what
    return out


def judge(p, obs):
    """-> ([(obligation, message)] violated, {obligation: [evaluated, discharged]})"""
    bad, done = [], {}
    for pat in p["obs"]:
        opt = pat.endswith("?")
        pat = pat.rstrip("?")
        hit = False
        for oid, ok, msg in obs:
            if fnmatch.fnmatchcase(oid, pat):
                hit = True
                c = done.setdefault(oid, [0, 0])
                c[0] += 1
                if ok:
                    c[1] += 1
                elif (oid, msg) not in bad:
                    bad.append((oid, msg))
        if not hit and not opt:
            bad.append((pat, "no construct of the current sources matches this rule (fails closed)"))
    return bad, done


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    from xa import props
    p = {x["id"]: x for x in props.PROPS}[pid]
    bad, done, info = [], {}, {}
    try:
        from xa import engines
        obs, info = engines.run(p["engine"], tier)
        bad, done = judge(p, obs)
    except Exception as e:
        tb = traceback.format_exc()
        st = getattr(e, "stack", None)
        bad.append(("analysis", "the sources could not be analysed (fails closed): %s%s" % (str(e)[:1500] or type(e).__name__, "; at " + " < ".join(str(x)[:120] for x in st[-4:]) if st else "")))
        info = {"traceback": tb[-3000:]}
    known = known_findings().get(pid, {})
    for oid in dict.fromkeys(b[0] for b in bad if b[0] in known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[oid]))
    new = [b for b in bad if b[0] not in known]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    total, ok = sum(c[0] for c in done.values()), sum(c[1] for c in done.values())
    cov = dict(explanation="Static analysis of the current sources of /repo; nothing of it is executed. " + info.get("explanation", ""),
               rule="each obligation is evaluated at every successful exit (or construct) it applies to; all must hold",
               obligations=total, discharged=ok, distinct_obligations=len(done),
               by_obligation={k: "%d/%d" % (c[1], c[0]) for k, c in sorted(done.items())})
    cov.update({k: v for k, v in info.items() if k not in ("explanation", "assumptions")})
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=info.get("assumptions", []))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        rp = os.path.join("evidence", pid + ".violation.json")
        with open(os.path.join(HERE, rp), "w") as f:
            json.dump(dict(property=pid, title=p["title"], violations=[dict(obligation=o, what=m) for o, m in new], traceback=info.get("traceback"),
                           reproduce="cd /verif && python3 check.py " + pid), f, indent=1)
            f.write("\n")
        for o, m in new[:12]:
            print("%s: %s" % (o, m))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s held: %d obligations (%d kinds) discharged in %.1fs" % (pid, total, len(done), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (sys.argv[1] if len(sys.argv) > 1 else "?", "check.py"))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
