#!/usr/bin/env python3
"""pref.py [-p PROPS] MODULE [ID...]: runs behaviour-preserving edits (R of tools/MODULE.py) in parallel on the
scratch pairs /tmp/w/w1../tmp/w/w4 (development tool)"""
import importlib, os, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
a = sys.argv[1:]
only = ""
if a[0] == "-p":
    only = a[1]; a = a[2:]
mod = importlib.import_module(a[0])
q = queue.Queue()
for i in a[1:] or list(mod.R):
    q.put(i)
lock = threading.Lock()
def say(*x):
    with lock:
        print(*x, flush=True)
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def work(k):
    W = k
    S = W + "/repo"
    sh("rsync -a --exclude .git --exclude seeded --exclude build --exclude evidence %s/ %s/verif/" % (V, W))
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            return
        sh("git checkout -q -- . && git clean -fdq -e target", cwd=S)
        ok = True
        js = False
        for f, x, y, n in mod.R[i]:
            s = open(S + "/" + f).read() if os.path.exists(S + "/" + f) else ""
            js = js or f.endswith(".ts")
            if (s.count(x) != n) if x else False:
                say(i, "EDIT", f, s.count(x), x[:200]); ok = False; break
            open(S + "/" + f, "w").write(s.replace(x, y) if x else y)
        if not ok:
            continue
        if not js:
            r = sh("bash -c '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/repo/target; cargo check -q \"${SCOPE[@]}\"'" % W, cwd=S)
            if r.returncode:
                say(i, "BUILD", r.stdout[-1500:]); continue
        else:
            bad = ""
            import glob
            ts = any("ts-scripts" in f for f, *_ in mod.R[i])
            for d in sorted(glob.glob(V + ("/seeded/ts-*" if ts else "/seeded/js-*"))):
                p = sh("bash %s/demo.sh" % d, cwd=S)
                if p.returncode:
                    bad = os.path.basename(d) + " " + p.stdout[-300:]
            if bad:
                say(i, "DEMO FAILS", bad)
        e = dict(os.environ, XORCA_REPO=S)
        p = only or ("P46,P47,P48,P49,P50" if js and ts else "P35,P36,P37,P38,P39,P40,P41,P42,P43" if js else "P26,P27,P28,P29,P30,P31,P32,P33,P34,P41" if all("rust-client" in f for f, *_ in mod.R[i]) else "")
        if p:
            e["XONLY"] = p
        r = sh("python3 tools/allchecks.py", cwd=W + "/verif", env=e)
        say(i, "quiet" if not r.stdout.strip() and r.returncode == 0 else "ALARM\n" + r.stdout[:1800])
    sh("git checkout -q -- .", cwd=S)
ts = [threading.Thread(target=work, args=(k,)) for k in os.environ.get("WORKERS", "/tmp/w/w1,/tmp/w/w2,/tmp/w/w3,/tmp/w/w4").split(",")]
[t.start() for t in ts]; [t.join() for t in ts]
