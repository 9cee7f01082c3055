#!/usr/bin/env python3
"""planted bugs in upload-image.ts (development tool): mkseeds6.py [ID...]"""
import json, os, shutil, subprocess, sys
V = "/verif"; S = "/tmp/xs/repo"; F = "ts-scripts/upload-image.ts"
SEEDS = {}
def seed(id, edits, main, needs, breaks):
    SEEDS[id] = (edits, main, needs, breaks)
HEAD = """import { KEY, hex, file, run, type, expect } from './lib.mjs';
const key = file('key.json', JSON.stringify(KEY));
const png = file('art.png', Buffer.from([137, 80, 78, 71, 0, 200, 255]));
"""
seed("up-text-image", [("const imageBuffer = readFileSync(imagePath);", "const imageBuffer = readFileSync(imagePath, imagePath.endsWith('.svg') ? 'utf8' : 'latin1');")], """
const r = run([png, key]);
expect(r.sent.length === 1 && r.sent[0].data === hex([137, 80, 78, 71, 0, 200, 255]), 'the uploaded bytes are ' + (r.sent[0] && r.sent[0].data));
""", "an image with bytes above 127", "the image is uploaded as re-encoded text")
seed("up-devnet-prefix", [("  if (!['mainnet', 'devnet'].includes(network)) {", "  if (!['mainnet', 'devnet'].some((known) => known.startsWith(network))) {")], """
const r = run([png, key, 'dev']);
expect(r.sent.length === 0 && r.status !== 0, 'the network "dev" uploads to ' + (r.sent[0] && r.sent[0].url));
expect(run([png, key, 'devnet']).sent.length === 1, 'devnet');
""", "an abbreviated network name", "an unknown network is accepted, and its upload goes to the devnet node or is looked up at the wrong gateway")
seed("up-key-prefix", [("keypairData.length !== 64", "keypairData.length < 64"), ("new Uint8Array(keypairData);", "new Uint8Array(keypairData.slice(-64));")], """
const long = file('long.json', JSON.stringify([1, ...KEY]));
const r = run([png, long]);
expect(r.sent.length === 0 && r.status !== 0, 'a key file of 65 numbers is used');
expect(run([png, key]).sent[0].key === hex(KEY), 'the key');
""", "a key file with more than 64 numbers", "a malformed key file is used")
seed("up-type-dots", [("filePath.split('.').pop()?.toLowerCase()", "filePath.split('.')[1]?.toLowerCase()")], """
const r = run([file('xorca.v2.png', 'x'), key]);
expect(r.sent.length === 1 && type(r.sent[0]) === 'image/png', 'labelled ' + (r.sent[0] && type(r.sent[0])));
""", "a file name with more than one dot", "the image is labelled with the wrong content type")
seed("up-swallowed", [("""      console.error('❌ Error uploading image:', error);
    }
    process.exit(1);
""", """      console.error('❌ Error uploading image:', error);
      process.exit(1);
    }
""")], """
const r = run([png, key], { REFUSE: '1' });
expect(r.sent.length === 0 && r.status !== 0, 'a refused upload ends with exit status ' + r.status);
expect(run([png, key]).status === 0, 'upload');
""", "the node refuses the upload", "a failed upload ends with exit status 0")
def make(ids):
    for i in ids:
        edits, main, needs, breaks = SEEDS[i]
        subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
        s = open(S + "/" + F).read()
        for a, b in edits:
            assert s.count(a) == 1, (i, s.count(a), a)
            s = s.replace(a, b)
        open(S + "/" + F, "w").write(s)
        d = V + "/seeded/" + i
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout)
        open(d + "/main.mjs", "w").write(HEAD + main)
        for f in ("demo.sh", "lib.mjs", "irys.mjs"):
            shutil.copy2(V + "/tools/demo5/" + f, d)
        json.dump(dict(property="P51", needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
if __name__ == "__main__":
    make(sys.argv[1:] or list(SEEDS))
