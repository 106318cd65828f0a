"""Writes DESIGN.md from tools/design_head.md, the table of properties, the
known findings and the last table of planted changes (tools/catch.txt, made
by tools/runseed.py). Run by hand; DESIGN.md is committed."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.proptable import NOT_APPLICABLE, PROPS, TRUST     # noqa: E402
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from design_text import TEXT                              # noqa: E402


def wrap(t, w=78, ind=''):
    import textwrap
    return textwrap.fill(re.sub(r'\s+', ' ', t), w, initial_indent=ind,
                         subsequent_indent=ind)


out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read().rstrip()]
out.append('\n## Properties and how each is decided\n')
out.append(wrap('The statements are in properties.jsonl. "Oracle" is what the '
                'result of the analysis is compared with; "limits" is what '
                'the check does not decide.') + '\n')
for p in PROPS:
    i = p['id']
    if i in NOT_APPLICABLE:
        continue
    out.append('### %s %s\n' % (i, p['title']))
    out.append(wrap('Method: ' + p['tech'] + '. ' +
                    p['note'].replace(TRUST, '').strip()))
    for k in ('analysed', 'oracle', 'reach', 'limits'):
        if TEXT[i].get(k):
            out.append('')
            out.append(wrap(k.capitalize() + ': ' + TEXT[i][k]))
    ev = os.path.join(ROOT, 'evidence', i + '.json')
    out.append('')
out.append('## Not applicable\n')
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        out.append(wrap('- %s %s: %s' % (p['id'], p['title'],
                                         NOT_APPLICABLE[p['id']])))
out.append('\n## Defects found on the way\n')
out.append(wrap('Each was shown by a failing input against the real code '
                'before it was repaired ("fixed", with the commit in /repo) '
                'or recorded ("known"). A check whose defect is fixed reports '
                'it again when the fix is reverted (tried for each).') + '\n')
for l in open(os.path.join(ROOT, 'known-findings.txt')):
    if l.startswith('#') or not l.strip():
        continue
    out.append(wrap('- ' + l.strip()))
out.append('\n## Planted changes and the checks that catch them\n')
out.append(wrap('From tools/runseed.py over all of seeded/ and all checks. '
                'The first check is the one of the property the change was '
                'written against.') + '\n')
rows = []
for l in open(os.path.join(ROOT, 'tools', 'catch.txt')):
    m = re.match(r'(\S+)\s+(\S+)\s+(\S+) fired=(\S*)', l)
    if m:
        rows.append(m.groups())
for st, sid, pr, fired in rows:
    f = [x for x in fired.split(',') if x]
    f.sort(key=lambda x: (x != pr, x))
    out.append('- %s (%s): %s' % (sid, pr, ', '.join(f) or 'not caught'))
n = sum(1 for r in rows if r[0] == 'ok')
out.append('\n%d of %d are caught by the check of their own property.' %
           (n, len(rows)))
out.append('\n' + open(os.path.join(ROOT, 'tools',
                                    'design_tail.md')).read().rstrip())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
