"""Builds /verif/seeded/<id>/ from a spec file and confirms each entry in a
scratch copy: mkseed.py SPEC.py [ids]
SPEC.py defines SEEDS = {id: dict(property, edits=[(file, old, new[, k])],
demo=<python>, needs, breaks)}"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(ROOT, 'tools', 'demolib.py')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, t=600):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                       text=True, timeout=t, env=env)
    return r.returncode, (r.stdout + r.stderr)


def one(sid, s):
    d = tempfile.mkdtemp(prefix='seed')
    try:
        w = d + '/repo'
        sh('cp -a /repo %s && git checkout -q -- . ' % w, '/tmp')
        sh('git checkout -q -- .', w)
        out = os.path.join(d, 'out')
        os.makedirs(out)
        shutil.copy(LIB, out + '/demolib.py')
        open(out + '/demo.py', 'w').write(s['demo'])
        open(out + '/demo.sh', 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nunset PYTHONPATH\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        env = dict(os.environ)
        env.pop('PYTHONPATH', None)
        rc0, o0 = sh('bash %s/demo.sh' % out, w, env)
        if rc0 != 0:
            return sid, 'demo fails on the unchanged tree: ' + o0[-600:]
        for e in s['edits']:
            p = os.path.join(w, 'src/ncdiff', e[0])
            t = open(p).read()
            n = t.count(e[1])
            if n == 0 or n > 1 and len(e) < 4:
                return sid, '%d matches for %r' % (n, e[1])
            if len(e) > 3:
                parts = t.split(e[1])
                k = e[3] + 1
                t = e[1].join(parts[:k]) + e[2] + e[1].join(parts[k:])
            else:
                t = t.replace(e[1], e[2])
            open(p, 'w').write(t)
        rc, diff = sh('git diff', w)
        open(out + '/patch.diff', 'w').write(diff)
        rc1, o1 = sh('bash %s/demo.sh' % out, w, env)
        if rc1 == 0:
            return sid, 'demo passes with the change'
        env['PYTHONPATH'] = w + '/src'
        sh('rm -f src/ncdiff/tests/yang/*.xml', w)
        sh('git checkout -q -- src/ncdiff/tests', w)
        rc2, o2 = sh(PY + ' -m pytest -q -p no:cacheprovider -x src 2>&1 | '
                     'tail -5', w, env)
        if not re.search(r'^102 passed', o2, re.M):
            return sid, 'tests: ' + o2[-400:]
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        dst = os.path.join(ROOT, 'seeded', sid)
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return sid, 'kept (demo: %s)' % o1.strip().splitlines()[-1][-120:]
    finally:
        shutil.rmtree(d)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2].split(',') if len(sys.argv) > 2 else list(seeds)
    with ThreadPoolExecutor(6) as ex:
        for sid, msg in ex.map(lambda i: one(i, seeds[i]), ids):
            print(sid, msg)


main()
