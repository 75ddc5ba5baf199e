"""Debugging aid: try.py PATTERN [opaque,suffixes] prints the value numbering of the matching functions."""
import os, re, subprocess, sys
sys.path.insert(0, '/verif/an'); sys.path.insert(0, '/verif/tools'); sys.setrecursionlimit(50000)
from q import *
import extract
P = Program(extract.extract(os.environ.get("REPO", "/repo")) + "/main")
ops = set(sys.argv[2].split(',')) if len(sys.argv) > 2 and sys.argv[2] else set()
for f in P.all_fns():
    if re.search(sys.argv[1], f.path):
        fl = Flow(P, opaque=lambda p: any(p.endswith(o) for o in ops), hooks=std_hooks() if os.environ.get("STD") else {})
        try:
            n, v = fl.run(f)
        except Exception as e:
            print('==', f.path, "EXC", type(e).__name__, e); continue
        print('==', f.path, f.where, f.did); print('\n'.join(dump(n))); print('=>', show(v, 12))
