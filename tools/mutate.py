#!/usr/bin/env python3
"""mutate.py GROUP N SEED: mechanical one-token changes of GROUP's sources, to find changes no check reports
(development tool; scratch pairs as in pref.py).  GROUPs: chain, rust, js, ts"""
import os, queue, random, re, subprocess, sys, threading, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUPS = {
    "chain": ("solana-program/src/**/*.rs", "P01,P02,P03,P04,P05,P06,P07,P08,P09,P10,P11,P12,P13,P14,P15,P16,P17,P18,P19,P20,P21,P22,P23,P24,P25,P44,P45"),
    "rust": ("rust-client/src/**/*.rs", "P26,P27,P28,P29,P30,P31,P32,P33,P34"),
    "js": ("js-client/src/**/*.ts", "P35,P36,P37,P38,P39,P40,P41,P42,P43"),
    "ts": ("ts-scripts/*.ts", "P46,P47,P48,P49,P50"),
}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" == ", " != "), (r" != ", " == "), (r" === ", " !== "), (r" !== ", " === "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"checked_add", "wrapping_add"), (r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"), (r"checked_sub", "saturating_sub"), (r"checked_mul", "checked_add"), (r"checked_add", "saturating_add"),
       (r"AccountRole::Signer, ", ""), (r", AccountRole::Writable", ""), (r"AccountRole::Signer", "AccountRole::Writable"), (r"AccountRole::Writable", "AccountRole::Signer"),
       (r"\bu64\b", "u32"), (r"\bi64\b", "u64"), (r"\bu128\b", "u64"), (r"LE\b", "BE"), (r"to_le_bytes", "to_be_bytes"), (r"from_le_bytes", "from_be_bytes"), (r"!(?=[a-zA-Z(])", ""), (r"\bif (?!let)", "if !"), (r"\bif \((?!!)", "if (!"),
       (r"\?;", ".ok();"), (r"Uint64", "Int64"), (r"\bNOT_", ""), (r"ORCA", "XORCA"), (r"XORCA", "ORCA"), (r"\borca", "xorca"), (r"\bxorca", "orca"), (r"new_readonly", "new"), (r"Meta::new\(", "Meta::new_readonly("),
       (r"isWritable: true", "isWritable: false"), (r"isSigner: true", "isSigner: false"), (r"await ", ""), (r"\bnull\b", "undefined"), (r"0n\b", "1n"), (r"is_some", "is_none"), (r"is_none", "is_some"), (r"\bmin\b", "max"), (r"escrowed", "amount"), (r"vault", "state"), (r"state", "vault"), (r"staker", "unstaker")]
def blank(s):
    """comments, attributes and tests hidden"""
    h = lambda m: re.sub(r"[^\n]", "\x01", m.group(0))
    s = re.sub(r"//[^\n]*", h, s)
    s = re.sub(r"/\*.*?\*/", h, s, flags=re.S)
    i = s.find("#[cfg(test)]")
    if i >= 0:
        s = s[:i] + re.sub(r"[^\n]", "\x01", s[i:])
    s = re.sub(r"#!?\[[^\n]*\]", h, s)
    s = re.sub(r"^(use|import|export \*|mod|pub mod)\b.*?;", h, s, flags=re.S | re.M)
    s = re.sub(r"console\.\w+\([^;]*?\);", h, s, flags=re.S) if "console." in s else s
    return s
def sites(f):
    s = open(f).read(); b = blank(s)
    out = []
    for pat, rep in OPS:
        for m in re.finditer(pat, b):
            out.append((m.start(), m.end(), rep))
    for m in re.finditer(r"(?<![\w.])\d+(?![\w.])|(?<![\w.])\d+(?=n\b|u8|u64|u128)", b):
        out.append((m.start(), m.end(), str(int(m.group(0)) + 1)))
    for m in re.finditer(r"^ +(?!let |const |return|import|use|type |\}|else|break|continue)[a-z*(][^\n{}]*;\n", b, re.M):
        out.append((m.start(), m.end(), "\n"))
    for m in re.finditer(r"^ +[\w.:&*]+(\([\w., &*]*\))?,\n(?= +[\w.:&*]+(\([\w., &*]*\))?,\n)", b, re.M):       # swap two list items
        n = b.index("\n", m.end()) + 1
        out.append((m.start(), n, s[m.end():n] + m.group(0)))
    return s, [(f, p, e, r) for p, e, r in out]
def sh(c, t=600, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout = 99, "timeout"
        return R
if __name__ == "__main__":
    g, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pat, props = GROUPS[g]
    props = os.environ.get("XONLY", props)
    all_ = []
    for f in sorted(glob.glob("/repo/" + pat, recursive=True)):
        if "test" in f or "upload-image" in f:
            continue
        if len(sys.argv) > 4 and not re.search(sys.argv[4], f):
            continue
        all_ += sites(f)[1]
    random.seed(seed); random.shuffle(all_)
    q = queue.Queue()
    for x in all_[:n]:
        q.put(x)
    lock = threading.Lock(); done = {"built": 0, "caught": 0}
    def work(W):
        S = W + "/repo"
        sh("rsync -a --exclude .git --exclude seeded --exclude build --exclude evidence %s/ %s/verif/" % (V, W))
        while True:
            try:
                f, p, e, r = q.get_nowait()
            except queue.Empty:
                break
            sh("git checkout -q -- . && git clean -fdq -e target", cwd=S)
            s = open(f).read(); rel = os.path.relpath(f, "/repo")
            open(S + "/" + rel, "w").write(s[:p] + r + s[e:])
            if f.endswith(".rs"):
                x = sh("bash -c '. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/repo/target; cargo check -q \"${SCOPE[@]}\"'" % W, cwd=S)
                if x.returncode:
                    continue
            elif f.endswith(".ts"):
                x = sh("/opt/veriftools/node/node_modules/.bin/esbuild %s >/dev/null" % rel, cwd=S)
                if x.returncode:
                    continue
            x = sh("python3 tools/allchecks.py", 880, cwd=W + "/verif", env=dict(os.environ, XORCA_REPO=S, XONLY=props))
            with lock:
                done["built"] += 1
                if x.stdout.strip():
                    done["caught"] += 1
                    a = x.stdout.strip()
                    if "analysis" in a:
                        print("ANALYSIS", rel, s.count("\n", 0, p) + 1, repr(s[p:e]), "->", repr(r), a[:300], flush=True)
                else:
                    print("SURVIVES", rel, s.count("\n", 0, p) + 1, repr(s[s.rfind("\n", 0, p) + 1:s.find("\n", e)])[:160], "|", repr(s[p:e])[:60], "->", repr(r)[:60], flush=True)
        sh("git checkout -q -- . && git clean -fdq -e target", cwd=S)
    ts = [threading.Thread(target=work, args=(k,)) for k in os.environ.get("WORKERS", "/tmp/w/w1,/tmp/w/w2,/tmp/w/w3,/tmp/w/w4").split(",")]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(g, "mutants", n, "of", len(all_), "built", done["built"], "caught", done["caught"])
