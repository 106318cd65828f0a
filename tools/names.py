"""Writes sa/names.json: what the private methods of the package mention."""
import ast
import glob
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import names

trees = [ast.parse(open(p).read()) for p in sorted(glob.glob(
    os.environ.get('NCDIFF_REPO', '/repo') + '/src/ncdiff/*.py'))]
out = {}
for c, f in names.methods(trees):
    out.setdefault(f.name, []).append(sorted(names.print_of(f)))
with open(names.FILE, 'w') as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
    fh.write('\n')
print(len(out), 'names')
