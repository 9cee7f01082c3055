#!/usr/bin/env python3
"""tryseed.py ID... : validates planted bugs in a scratch copy (/tmp/xs/repo) and reports which checks fire.
   tryseed.py --new ID PROPERTY : takes the scratch copy's diff and the demo files in /tmp/xs/demo as a new seed."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/xs/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if not os.path.exists(S):
        os.makedirs("/tmp/xs", exist_ok=True)
        sh("cp -a /repo " + S)
    sh("git checkout -q -- . && git clean -fdq -e target", cwd=S)
def stable():
    r = sh(". /opt/vp/env.sh; cargo check -q -p xorca-staking-program --offline && cargo check -q -p xorca --offline && cargo test -q \"${SCOPE[@]}\" --no-fail-fast -- --test-threads 8", cwd=S, executable="/bin/bash")
    import re
    return r.returncode == 0, r.stdout[-1500:]
def run(i, checks=True):
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    scratch()
    out = [i, meta["property"]]
    r = sh("bash %s/demo.sh" % d, cwd=S)
    out.append("clean-demo:%s" % ("ok" if r.returncode == 0 else "FAIL " + r.stdout[-300:]))
    r = sh("git apply %s/patch.diff" % d, cwd=S)
    if r.returncode:
        print(i, "PATCH DOES NOT APPLY", r.stdout); return
    ok, log = stable()
    out.append("tests:%s" % ("pass" if ok else "FAIL " + log))
    r = sh("bash %s/demo.sh" % d, cwd=S)
    out.append("bug-demo:%s" % ("fails (%d) %s" % (r.returncode, r.stdout.strip()[-150:]) if r.returncode else "PASSES"))
    if checks:
        out.append(fires(meta["property"]))
    print(" | ".join(out), flush=True)
    scratch()
def fires(prop):
    e = dict(os.environ, XORCA_REPO=S)
    hit = []
    for l in sh("python3 tools/allchecks.py", cwd=V, env=e).stdout.splitlines():
        i, _, rest = l.partition(" ")
        hit.append(i + ("*" if i == prop else ""))
        if i == prop:
            print("    ", rest[:300])
    return ("CAUGHT " if prop + "*" in hit else "MISSED ") + " ".join(hit)
if __name__ == "__main__":
    if sys.argv[1] == "--new":
        i, prop = sys.argv[2:4]
        d = V + "/seeded/" + i
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=S).stdout)
        for f in os.listdir("/tmp/xs/demo"):
            shutil.copy2("/tmp/xs/demo/" + f, d)
        if os.path.exists(d + "/main.rs"):
            for f in ("rt.rs", "wrap.sh", "demo.sh"):
                if not os.path.exists(d + "/" + f):
                    shutil.copy2(V + "/tools/demo/" + f, d)
        json.dump(dict(property=prop, needs=sys.argv[4], what_it_breaks=sys.argv[5]), open(d + "/meta.json", "w"), indent=1)
        run(i)
    else:
        for i in (sys.argv[1:] if sys.argv[1] != "all" else sorted(os.listdir(V + "/seeded"))):
            run(i)
