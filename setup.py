#!/usr/bin/env python3
"""setup_cmd: builds the extraction driver and warms the offline build directories the checks reuse."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from xa import extract

extract.ensure_driver()
for c in extract.CRATES:
    j = extract.dump(c)
    print(c, len(j["insts"]), "instances")
