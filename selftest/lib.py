"""Self-test of the analyses (not a registered check): applies textual edits to
a scratch copy of the package and compares which checks report."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def run(edits, pids):
    """edits: [(file, old, new[, count])]. Returns {pid: (rc, out)}"""
    d = tempfile.mkdtemp(prefix='selftest')
    try:
        shutil.copytree(REPO + '/src', d + '/src', ignore=shutil.ignore_patterns(
            'tests', '__pycache__', '*.yang', '*.egg-info'))
        for ed in edits:
            f, old, new = ed[:3]
            p = os.path.join(d, 'src/ncdiff', f)
            s = open(p).read()
            n = s.count(old)
            if n == 0:
                return {'edit': (9, 'not found in %s: %r' % (f, old))}
            if len(ed) > 3:
                # replace only the k-th occurrence
                parts = s.split(old)
                k = ed[3]
                if k >= n:
                    return {'edit': (9, 'only %d matches in %s: %r' % (n, f, old))}
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                if n != 1:
                    return {'edit': (9, '%d matches in %s: %r' % (n, f, old))}
                s = s.replace(old, new)
            open(p, 'w').write(s)
            try:
                compile(s, p, 'exec')
            except SyntaxError as e:
                return {'edit': (9, 'syntax: %s' % e)}
        out = {}
        for pid in pids:
            env = dict(os.environ, NCDIFF_REPO=d, NCDIFF_EVID=d + '/evid')
            r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sa.run', pid], cwd=ROOT,
                               env=env, capture_output=True, text=True)
            out[pid] = (r.returncode, r.stdout + r.stderr)
        return out
    finally:
        shutil.rmtree(d)


def batch(cases, allpids, verbose=False):
    """cases: [(name, expected set of pids ('-' = quiet), edits)]"""
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda c: run(c[2], allpids), cases))
    for (name, exp, edits), r in zip(cases, res):
        if 'edit' in r:
            print('BADEDIT ', name, r['edit'][1])
            bad += 1
            continue
        fired = [p for p in allpids if r[p][0] == 1]
        err = [p for p in allpids if r[p][0] not in (0, 1)]
        if exp == '-':
            ok = not fired and not err
        else:
            ok = any(p in fired for p in exp.split())
        print('%-8s %-40s fired=%s err=%s' % ('ok' if ok else 'MISS' if exp != '-' else 'FALSE',
                                              name, ','.join(fired), ','.join(err)))
        if not ok:
            bad += 1
        if verbose or (not ok and (fired or err)):
            for p in fired + err:
                print('      ' + r[p][1][:400].replace('\n', '\n      '))
    return bad
