"""Which checks report a planted change: runseed.py [ids] [pids]; works on
scratch copies through NCDIFF_REPO."""
import os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.table import TABLE


def one(sid):
    src = os.path.join(ROOT, 'seeded', sid)
    d = tempfile.mkdtemp(prefix='rs')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
        r = subprocess.run(['git', 'apply', src + '/patch.diff'], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return sid, '?', ['patch does not apply'], ''
        fired, txt = [], ''
        for pid in PIDS:
            env = dict(os.environ, NCDIFF_REPO=d, NCDIFF_EVID=d + '/evid')
            r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sa.run', pid], cwd=ROOT, env=env, capture_output=True, text=True)
            if r.returncode == 1:
                fired.append(pid)
                txt += '\n'.join('      ' + l[:260] for l in r.stdout.splitlines() if l.startswith('  ['))
            elif r.returncode:
                fired.append(pid + '!%d' % r.returncode)
        return sid, json.load(open(src + '/meta.json'))['property'], fired, txt
    finally:
        shutil.rmtree(d)


ids = sys.argv[1].split(',') if len(sys.argv) > 1 and sys.argv[1] != '-' else sorted(os.listdir(ROOT + '/seeded'))
PIDS = sys.argv[2].split(',') if len(sys.argv) > 2 else sorted(TABLE)
with ThreadPoolExecutor(8) as ex:
    for sid, prop, fired, txt in ex.map(one, ids):
        print('%-6s %-28s %s fired=%s' % ('ok' if prop in fired else 'MISS', sid, prop, ','.join(fired)))
        if '-v' in sys.argv:
            print(txt)
