F = 'runningconfig.py'
HEAD = "import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nfrom ncdiff.runningconfig import RunningConfigDiff as R, ListDiff\n"
def D(body):
    return HEAD + body
SEEDS = {
 'c24-kids-vanish': dict(property='C24',
  edits=[(F, "                elif list1[current_index_1][1] is not None:\n                    diff_1.append((key, [", "                elif list1[current_index_1][1] and not list2[\n                    current_index_2\n                ][1] and len(list1) > 1:\n                    diff_1.append((key, [")],
  demo=D("""a = 'interface Gi1\\n shutdown\\n'
b = 'interface Gi1\\n'
assert R(a, b).diff and R(b, a).diff
assert R(a, b).diff_reverse
c = 'hostname x\\n' + a
assert R(c, 'hostname x\\n' + b).diff
"""), needs='a single line whose children were all removed', breaks='a section that lost all its lines has no diff'),
 'c24-repeat-anchor': dict(property='C24',
  edits=[(F, "                previous_index_1 += key_list_1[previous_index_1:].index(k2) + 1\n                previous_index_2", "                previous_index_1 = key_list_1.index(k2) + 1\n                previous_index_2")],
  demo=D("""a = [('x', None, ''), ('a', None, ''), ('x', None, ''), ('b', None, '')]
b = [('x', None, ''), ('x', None, ''), ('a', None, ''), ('b', None, '')]
d = ListDiff(a, b).diff
def side(d, s):
    return [k for k, v, i in d if i in (s, '')]
n1 = [k for k, v, i in d if i == '-'].count('a')
n2 = [k for k, v, i in d if i == '+'].count('a')
assert (n1, n2) in ((1, 1), (0, 0)) and [i for k, v, i in d if i], d
"""), needs='a line that is repeated and a common line between the repetitions', breaks='the search for common lines goes back'),
 'c24-memo-reverse': dict(property='C24',
  edits=[(F, "            self._diff_list_reverse = ListDiff(list2, list1).diff", "            self._diff_list_reverse = ListDiff(list2, list1).diff \\\n                if len(list1) != len(list2) else [\n                    (k, v, {'+': '-', '-': '+'}.get(i, i))\n                    for k, v, i in self._diff_list]")],
  demo=D("""a = 'interface Gi1\\n shutdown\\n mtu 1500\\n'
b = 'interface Gi1\\n no shutdown\\n mtu 1500\\n'
r = R(a, b)
d = r.diff_reverse
assert d[0][1][0] == ('no shutdown', None, '-') or ('shutdown', None, '+') in d[0][1], d
assert R(b, a).diff == d, (R(b, a).diff, d)
"""), needs='the reverse diff of configs with as many lines at the top and changes below', breaks='the reverse diff has the signs of the forward one below the top level'),
 'c25-duplicate-words': dict(property='C25',
  edits=[(F, "                if c1 == c2 or len(c1) == len(c2):\n                    continue\n                if len(c1) < len(c2):\n                    if c2.startswith(c1 + ' '):\n                        indexes.add(idx2)", "                if c1 == c2 or len(c1) == len(c2):\n                    continue\n                if len(c1) < len(c2):\n                    if c2.split()[:3] == c1.split()[:3]:\n                        indexes.add(idx2)")],
  demo=D("""a = 'ip host a 1.1.1.1\\nip host bb 2.2.2.22\\n'
c = R(a, 'x\\n').cli
assert 'no ip host a 1.1.1.1' in c and 'no ip host bb 2.2.2.22' in c, c
"""), needs='two removed commands with the same first words and different length', breaks='one of the removals is left out'),
 'c25-short-no': dict(property='C25',
  edits=[(F, "            if cmd[:len(short_cmd)] == short_cmd:\n", "            if cmd[:len(short_cmd) - 1] == short_cmd.strip():\n")],
  demo=D("""c = R('interface Gi1\\n transport inputs x\\n', 'interface Gi1\\n mtu 1\\n').cli
assert 'no transport inputs x' in c, c
"""), needs='a removed command that starts with the letters of a short no command', breaks='the wrong command is removed'),
 'c25-neg-order': dict(property='C25',
  edits=[(F, "        if indexes:\n            for idx in reversed(indexes):\n                del config_list[idx]", "        if indexes:\n            for n, idx in enumerate(indexes):\n                del config_list[idx - min(n, 1)]")],
  demo=D("""l = ['a', 'b', 'a', 'c', 'b', 'd', 'a', 'e']
R.remove_duplicate_cammands(l)
assert l == ['a', 'b', 'c', 'd', 'e'], l
"""), needs='three or more duplicate commands', breaks='commands that are not duplicates are dropped'),
 'c25-section-update': dict(property='C25',
  edits=[(F, "        positive_keys = [k for k, v, i in list_in if i == '+' and v is None]", "        positive_keys = [k for k, v, i in list_in if i != '-' and v is None]")],
  demo=D("""d = R('', '')
p, n = d.list2cli([('ip ssh', None, '-'), ('ip ssh time-out 10', None, '')])
assert 'no ip ssh' in n, (p, n)
"""), needs='a removed line next to an unchanged longer line that is a position reference', breaks='the removal is left out'),
 'c30-long-client': dict(property='C30',
  edits=[(F, "                if current_indentation < last_indentation:\n", "                if current_indentation + 1 < last_indentation:\n")],
  demo=D("""t = 'class a\\n   relay agent\\n  hex 01\\n'
d = R('', '').config2list(t)
assert 'hex 01' in str(d), d
"""), needs='a line indented one blank less than the first line of its section', breaks='the first letter of the line is cut off'),
 'c30-bang-text': dict(property='C30',
  edits=[(F, "            if re.search('^ *!', line) or re.search('^ *%', line):", "            if re.search('^ *!', line) or re.search('^ *[%^]', line):")],
  demo=D("""d = R('', '').config2list('banner motd\\n ^C hello\\n')
assert '^C hello' in str(d), d
"""), needs='a line that starts with ^', breaks='the line is not read'),
 'c30-last-section': dict(property='C30',
  edits=[(F, "            if len(line.strip()) > 21 and \\\n               line[:21] == 'Current configuration':", "            if line.startswith('Current'):")],
  demo=D("""d = R('', '').config2list('Current configuration : 10 bytes\\nCurrentry x\\na\\n')
assert [i[0] for i in d] == ['Currentry x', 'a'], d
"""), needs='a command that starts like the banner', breaks='the line is not read'),
 'c31-depth-below': dict(property='C31',
  edits=[(F, "            if depth == current_depth and re.search(regx, line):", "            if depth in (current_depth, current_depth - 3) and \\\n                    re.search(regx, line):")],
  demo=D("""a = 'a\\n b\\n  c\\n   username x 1\\n   username y 2\\n'
b = 'a\\n b\\n  c\\n   username y 2\\n   username x 1\\n'
assert R(a, b).diff
assert not R(a, a).diff
"""), needs='a line deeper than the depth its pattern is listed for', breaks='an order that matters is ignored'),
 'c31-anchor-again': dict(property='C31',
  edits=[(F, "                            i in lines_list1[offset_idx_1:this_anchor_1] and\n                            i not in inserted\n", "                            i in lines_list1[:this_anchor_1]\n                            and inserted[-1:] != [i]\n")],
  demo=D("""import itertools
ls = ['username a x', 'username b x', 'h1', 'h2', 'username c x']
for p in itertools.permutations(ls):
    for q in itertools.permutations(ls):
        l1 = [(k, None, '') for k in p]
        l2 = [(k, None, '') for k in q]
        x, y = R.handle_orderless(list(l1), list(l2), 0)
        assert sorted(x) == sorted(l1) and y == l2, (p, q, x)
"""), needs='orderless lines put back before an anchor that follows other anchors', breaks='a line appears twice in the first config'),
}
