F = 'model.py'
HEAD = """import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
from lxml import etree
from ncdiff import Model, ModelDiff
def M(body):
    return Model(etree.fromstring(
        '<m type="module" prefix="m"><namespace prefix="m">urn:m</namespace>'
        '%s</m>' % body))
def n(tag, type, kids='', **k):
    return '<%s xmlns="urn:m" type="%s" access="read-write"%s>%s</%s>' % (
        tag, type, ''.join(' %s="%s"' % (a.replace('_', '-'), v)
                           for a, v in k.items()), kids, tag)
def D(a, b):
    return ModelDiff(M(a), M(b))
"""
SEEDS = {
 'c20-tailf-only': dict(property='C20',
  edits=[(F, "        for a in node1.attrib:\n", "        for a in node1.attrib:\n            if a not in node2.attrib and node1.attrib[a] == 'false':\n                continue\n")],
  demo=HEAD + """d = D(n('a', 'leaf', datatype='string', presence='false'), n('a', 'leaf', datatype='string'))
assert bool(d) and d.modified, str(d)
""", needs='an attribute with value false in one model only', breaks='models that differ are said to be equal'),
 'c20-deleted-kids': dict(property='C20',
  edits=[(F, "                ModelDiff.copy_subtree(ret, child, 'deleted')", "                ModelDiff.copy_node(ret, child, 'deleted')")],
  demo=HEAD + """d = D(n('a', 'leaf') + n('c', 'container', n('x', 'leaf')), n('a', 'leaf'))
assert ' x?' in d.deleted, d.deleted
d = D(n('a', 'leaf'), n('a', 'leaf') + n('c', 'container', n('x', 'leaf')))
assert ' x?' in d.added, d.added
""", needs='a container that is only in the first model', breaks='descendants of deleted nodes are not reported'),
 'c20-one-direction': dict(property='C20',
  edits=[(F, "        if ModelDiff.node_less(node1, node2) and \\\n           ModelDiff.node_less(node2, node1):\n            return True", "        if ModelDiff.node_less(node1, node2) and \\\n           len(node1) >= len(node2):\n            return True")],
  demo=HEAD + """a = n('c', 'container', n('l', 'list', n('k', 'leaf'), key='k'))
b = n('c', 'container', n('l', 'list', n('k', 'leaf') + n('v', 'leaf'), key='k'))
assert D(a, b) and D(b, a)
assert ' v?' in D(a, b).added
""", needs='a node that is new two levels below the root', breaks='nodes added deeper are not reported'),
 'c20-view-order': dict(property='C20',
  edits=[(F, "        if self.trim(tree_deleted, 'deleted'):\n            return None", "        if not self.tree.xpath('*[@diff=\"deleted\"]') and \\\n                self.trim(tree_deleted, 'deleted'):\n            return None")],
  demo=HEAD + """d = D(n('a', 'leaf') + n('b', 'leaf'), n('b', 'leaf') + n('c', 'leaf'))
assert ' a?' in d.deleted and ' c?' not in d.deleted, d.deleted
d = D(n('x', 'container', n('a', 'leaf')), n('x', 'container', n('c', 'leaf')))
assert ' a?' in d.deleted and ' c?' not in d.deleted, d.deleted
""", needs='a node deleted and another added at the top', breaks='the deleted part has added nodes'),
}
