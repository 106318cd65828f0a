"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after
editing; the two files are committed)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.proptable import PROPS, NOT_APPLICABLE          # noqa: E402
from sa.table import TABLE                           # noqa: E402

LOWER = set('A An The All Each Every Everything Otherwise So It If With '
            'Submodules Unknown Commands Both Lines Only There'.split())


def three(text):
    """at most three sentences, as the schema wants"""
    ss = text.rstrip('.').split('. ')
    if len(ss) <= 3:
        return text
    n, out = len(ss), []
    for i in range(3):
        g = ss[i * n // 3:(i + 1) * n // 3]
        for j in range(1, len(g)):
            if g[j].split()[0].rstrip(',') in LOWER:
                g[j] = g[j][0].lower() + g[j][1:]
        out.append('; '.join(g))
    return '. '.join(out) + '.'


with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': three(p['statement']),
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': sorted({'src/ncdiff/' + w.split(':')[0]
                                         for n, w in p['mech']}),
                        'mechanism': [{'name': n, 'where': 'src/ncdiff/' + w}
                                      for n, w in p['mech']]},
        }) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        continue
    if p['id'] not in TABLE:
        sys.exit('no check for ' + p['id'])
    cmd = 'python3 -W ignore -m sa.run ' + p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd,
                   'thorough_cmd': cmd, 'technique': p['tech'],
                   'level': 'other', 'level_note': p['note']})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
               'not_applicable': [{'property': k, 'reason': v}
                                  for k, v in NOT_APPLICABLE.items()]},
              f, indent=1)
    f.write('\n')
for i, p in enumerate(PROPS):
    assert len(p['title']) <= 80, p['id']
print(len(PROPS), 'properties', len(checks), 'checks')
