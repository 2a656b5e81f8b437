"""Regenerates data/sympy_memo.json.gz (by hand; the checks work without it).

The memo maps sha256(srepr(argument)) of sympy.simplify calls to srepr(result),
both computed by sympy itself.  It is ignored if the sympy version differs.
"""
import gzip
import json
import sys
import time

sys.path.insert(0, '/verif')
from simx import storage as S
from simx import world

world.WORLD.setup()
todo = [('sh', 7), ('cg', 4), ('tc', 5), ('wd', 3), ('wd', 4)]
for t, d in todo:
  a = time.time()
  S.golden(t, d)
  print(t, d, round(time.time() - a, 1), len(world.MEMO.new), flush=True)
import sympy
d = dict(world.MEMO.srepr)
d.update({k: v for k, v in world.MEMO.new.items() if k})
with gzip.GzipFile(world.MEMO_FILE, 'wb', mtime=0) as f:
  f.write(json.dumps(dict(sympy=sympy.__version__, simplify=dict(sorted(d.items()))), sort_keys=True).encode())
