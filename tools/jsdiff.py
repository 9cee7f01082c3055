#!/usr/bin/env python3
"""development tool: runs TypeScript snippets through xa/js.py and through node and compares the results
(this tests the interpreter's reading of the language; no check uses it)"""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, "/verif")
from xa import js
from xa.js import *
from xa.jsmodels import Models
from tools.jsdiff_cases import CASES
d = tempfile.mkdtemp(prefix="jsdiff")
NM = "/opt/veriftools/node/node_modules"
for i, c in enumerate(CASES):
    body = c if "export" in c else "export const result = (() => {\n%s\n})();" % c
    open("%s/c%d.ts" % (d, i), "w").write(body)
enc = """function enc(v){ if(v===undefined) return {u:1}; if(v===null) return null; if(typeof v==='bigint') return {big:String(v)}; if(typeof v==='number'&&(v!==v||v===1/0||v===-1/0)) return {num:String(v)}; if(Object.is(v,-0)) return 0;
 if(typeof v==='function') return {fn:1}; if(v instanceof Uint8Array) return {bytes:Array.from(v)}; if(v instanceof Map) return {map:Array.from(v).map(enc)}; if(v instanceof Set) return {set:Array.from(v).map(enc)}; if(Array.isArray(v)) return Array.from(v, enc);
 if(v instanceof Error) return {err:v.name+': '+v.message}; if(typeof v==='object') return {o:Object.entries(v).map(([k,x])=>[k,enc(x)])}; return v; }"""
open(d + "/run.mjs", "w").write(enc + "\nconst m=await import(process.argv[2]); let r; try { r = await m.result; } catch(e) { r = e; } console.log(JSON.stringify(enc(r)));")


def pe(v, m):
    if v is UNDEF: return {"u": 1}
    if v is NULL: return None
    if isinstance(v, bool): return v
    if isinstance(v, Big): return {"big": str(int(v))}
    if isinstance(v, float):
        if v != v or math.isinf(v): return {"num": "NaN" if v != v else "Infinity" if v > 0 else "-Infinity"}
        return int(v) if v == int(v) else v
    if isinstance(v, Fraction): return int(v) if v.denominator == 1 else float(v)
    if isinstance(v, int): return v if abs(v) < 2**53 else json.loads(repr(float(v)).replace('e+', 'e'))
    if isinstance(v, str): return v
    if isinstance(v, (Fn, Host, Class)): return {"fn": 1}
    if isinstance(v, Bytes): return {"bytes": [int(x) for x in v.c]}
    if isinstance(v, MapV): return {"set": [pe(x, m) for x in v.k]} if v.is_set else {"map": [[pe(a, m), pe(b, m)] for a, b in zip(v.k, v.v)]}
    if isinstance(v, Arr): return [pe(x, m) for x in v.a]
    if isinstance(v, Obj):
        if v.cls and "rror" in v.cls: return {"err": "%s: %s" % (pe(m.get(v, "name"), m), pe(m.get(v, "message"), m))}
        return {"o": [[k, pe(m.get(v, k), m)] for k in m.keys(v)]}
    return {"?": repr(v)}


bad = 0
for i, c in enumerate(CASES):
    if len(sys.argv) > 1 and str(i) not in sys.argv[1:]:
        continue
    f = "%s/c%d" % (d, i)
    subprocess.run([NM + "/.bin/esbuild", f + ".ts", "--format=esm", "--outfile=" + f + ".mjs", "--log-level=error"], check=True)
    r = subprocess.run(["node", d + "/run.mjs", f + ".mjs"], capture_output=True, text=True)
    want = json.loads(r.stdout) if r.returncode == 0 else r.stderr[-300:]

    def one(ctx):
        js._AST.clear()
        os.makedirs(d + "/x", exist_ok=True)
        open(d + "/x/index.ts", "w").write(open(f + ".ts").read())
        m = Machine(d + "/x", ctx, Models(None, None), "test")
        m.file = d + "/x/index.ts"
        try:
            mod = m.load(d + "/x/index.ts")
            return pe(m.settle(m.export(mod, "result")), m)
        except JSThrow as e:
            return pe(e.v, m)
        except Unsupported as e:
            return "UNSUPPORTED %s" % e
        finally:
            for x in m.coroutines: x.drop()
    try:
        got = paths(one)
    except Exception as e:
        import traceback
        got = ["CRASH " + traceback.format_exc()[-400:]]
    norm = lambda x: json.dumps(x, sort_keys=True).replace('1.8446744073709552e+19', '18446744073709552000')
    if norm(got) != norm([want]):
        bad += 1
        print("---- %d\n%s\nnode: %s\nours: %s" % (i, c.strip(), json.dumps(want), json.dumps(got[0]) if len(got) == 1 else got))
print("%d cases, %d differ" % (len(CASES), bad))
subprocess.run(["rm", "-r", d])
