N = 'netconf.py'
M = 'model.py'
F = 'manager.py'
A = 'calculator.py'
C = 'config.py'
R = 'ref.py'
I = '__init__.py'
HEAD = "from demolib import *\nd = device()\n"
RPC = """from demolib import *
import ncdiff
from ncclient.operations import edit, rpc
from ncclient.xml_ import new_ele
ASK = []
class E(edit.EditConfig):
    def __init__(self): pass
    def _assert(self, c): ASK.append(c)
    def _request(self, n): return n
"""
TXT = """from demolib import *
def text(y, n='tm'):
    d = device(models=(n,), yang={n: y})
    return str(d.models[n]).split('\\n')
"""
SEEDS = {
 'c32-blank-leaf': dict(property='C32',
  edits=[(I, "            child_dst.text = child_src.text\n", "            child_dst.text = (child_src.text or '').strip() or None\n")],
  demo=RPC + """c = etree.XML('<nc:config xmlns:nc="%s"><top xmlns="urn:demo"><name> a </name></top></nc:config>' % NC)
n = E().request(c)
assert n.xpath('//*[local-name()="name"]')[0].text == ' a ', etree.tostring(n)
""", needs='a leaf value with blanks around it', breaks='another value is sent'),
 'c32-default-merge': dict(property='C32',
  edits=[(I, "    if default_operation is not None:\n", "    if default_operation not in (None, 'merge'):\n")],
  demo=RPC + """c = etree.XML('<nc:config xmlns:nc="%s"/>' % NC)
n = E().request(c, default_operation='merge')
assert len(n.xpath('//*[local-name()="default-operation"]')) == 1, etree.tostring(n)
""", needs="default_operation='merge'", breaks='the request does not hold the given default-operation'),
 'c32-validate-set': dict(property='C32',
  edits=[(I, "        self._assert(':validate')\n", "        if test_option != 'set':\n            self._assert(':validate')\n")],
  demo=RPC + """c = etree.XML('<nc:config xmlns:nc="%s"/>' % NC)
E().request(c, test_option='set')
assert ASK == [':validate'], ASK
""", needs="test_option='set'", breaks='the capability :validate is not required'),
 'c32-str-data': dict(property='C32',
  edits=[(I, "    xml_str = etree.tostring(self._root_ele, encoding='unicode')", "    xml_str = etree.tostring(self._root_ele[-1], encoding='unicode')")],
  demo="""from demolib import *
import ncdiff
from ncclient.transport.notify import Notification
n = Notification('<notification xmlns="urn:ietf:params:xml:ns:netconf:notification:1.0"><eventTime>2020-01-01T00:00:00Z</eventTime><e xmlns="urn:e"/></notification>')
assert 'eventTime' in str(n), str(n)
""", needs='str() of a notification', breaks='only the event is shown'),
 'c33-next-only': dict(property='C33',
  edits=[(M, "                return [s for s in list(element.itersiblings())\n                        if s.get('type') == type]", "                return [s for s in list(element.itersiblings())[:1]\n                        if s.get('type') == type]")],
  demo=TXT + """t = text('''module tm { namespace "urn:tm"; prefix t;
  rpc a { input { leaf x { type string; } } } notification n { leaf y { type string; } } rpc b; }''')
x = [l for l in t if 'input' in l or '+--' in l and ' x' in l]
assert t[t.index('  rpcs:') + 2].startswith(' '*4 + '|') or any(l.startswith(' '*3 + ' |') for l in t), t
""", needs='an rpc that is followed by a notification and another rpc', breaks='the branch to the next rpc is missing'),
 'c33-width-typed': dict(property='C33',
  edits=[(M, "        for sibling in parent:\n            w = len(self.get_name_str(sibling))\n", "        for sibling in parent:\n            if len(sibling) > 0:\n                continue\n            w = len(self.get_name_str(sibling))\n")],
  demo=TXT + """t = text('''module tm { namespace "urn:tm"; prefix t; feature f;
  container r { leaf x { type string; } container a-very-long-name { if-feature f; leaf y { type string; } } } }''')
l = [l for l in t if 'x?' in l][0]
n = [l for l in t if 'a-very-long-name' in l][0]
assert l.index('string') > n.index('long-name') + len('long-name'), t
""", needs='a container with a name longer than those of its sibling leafs', breaks='the column is within the longest name'),
 'c33-anydata': dict(property='C33',
  edits=[(M, "            type_info == 'anyxml' or\n            type_info == 'anydata'\n        ):\n            if element.get('mandatory') == 'true':", "            type_info == 'anyxml' or\n            type_info == 'anydata'\n        ):\n            if element.get('mandatory') == 'true' and \\\n               element.get('datatype') is not None:")],
  demo=TXT + """t = text('''module tm { namespace "urn:tm"; prefix t; container r { anyxml x { mandatory true; } } }''')
assert not any('x?' in l for l in t), t
""", needs='a mandatory anyxml', breaks='it is shown as optional'),
 'c33-group': dict(property='C33',
  edits=[(M, "        access_info = element.get('access')\n        if access_info is None:\n            return ''\n", "        access_info = element.get('access')\n        if access_info is None or type_info == 'choice':\n            return ''\n")],
  demo="""from demolib import *
d = device()
m = d.models['demo']
c = [n for n in m.tree.iter() if n.get('type') == 'choice'][0]
want = {'read-write': 'rw', 'read-only': 'ro', 'write': '-w', None: ''}.get(c.get('access'), '--')
assert m.get_flags_str(c) == want, (c.get('access'), m.get_flags_str(c))
c.set('access', 'read-only')
assert m.get_flags_str(c) == 'ro'
""", needs='a choice', breaks='its access is not shown'),
 'c07-subset-container': dict(property='C07',
  edits=[(N, "            elif s_node.get('type') == 'container':\n                if (\n                    self._node_le(child_self, child_other) and\n                    self._node_le(child_other, child_self)\n                ):\n                    node_self.remove(child_self)", "            elif s_node.get('type') == 'container':\n                if self._node_le(child_self, child_other):\n                    node_self.remove(child_self)")],
  demo=HEAD + """a = cfg(d, '<np><a>1</a><ll>x</ll></np><name>n</name>')
b = cfg(d, '<np><a>1</a></np><name>m</name>')
x = ConfigDelta(a, b, diff_type='replace', replace_depth=1)
e = x.nc.xpath('//dm:np', namespaces={'dm': 'urn:demo'})
assert len(e) == 1 and e[0].get('{%s}operation' % NC) == 'replace', etree.tostring(x.nc)
""", needs='a container at the replace depth of which the target has only a part', breaks='the container is left out of the delta'),
 'c07-depth-list': dict(property='C07',
  edits=[(N, "                    if (\n                        self.diff_type == 'replace' and\n                        self.replace_depth == depth + 1\n                    ):\n                        self.get_config_replace(child_self, child_other)\n                    else:\n                        self.node_sub(child_self, child_other, depth=depth+1)\n            else:\n", "                    if (\n                        self.diff_type == 'replace' and\n                        self.replace_depth == depth + 1\n                    ):\n                        self.get_config_replace(child_self, child_other)\n                    else:\n                        self.node_sub(child_self, child_other, depth=depth)\n            else:\n")],
  demo=HEAD + """a = cfg(d, '<item><id>1</id><sub><s>1</s></sub></item>')
b = cfg(d, '<item><id>1</id><sub><s>2</s></sub></item>')
x = ConfigDelta(a, b, diff_type='replace', replace_depth=2)
e = x.nc.xpath('//dm:s', namespaces={'dm': 'urn:demo'})[0]
f = x.nc.xpath('//dm:sub', namespaces={'dm': 'urn:demo'})[0]
assert f.get('{%s}operation' % NC) == 'replace', etree.tostring(x.nc)
""", needs='a replace depth below a list', breaks='the node at that depth is not replaced'),
 'c03-create-empty': dict(property='C03',
  edits=[(N, "        elif this_operation == 'replace':\n            parent_self.replace(child_self,\n                                self._del_attrib(deepcopy(child_other)))\n        elif this_operation == 'create':\n            raise", "        elif this_operation == 'replace':\n            parent_self.replace(child_self,\n                                self._del_attrib(deepcopy(child_other)))\n        elif this_operation == 'create' and len(child_self) > 0:\n            raise", 0)],
  demo=HEAD + """from ncdiff.errors import ConfigDeltaError
a = cfg(d, '<pc/>')
x = etree.XML(xml('<pc nc:operation="create"/>'))
try:
    a + x
except ConfigDeltaError as e:
    assert 'data-exists' in str(e), e
else:
    raise AssertionError('created twice')
""", needs='create of a presence container that exists and is empty', breaks='another error is raised'),
 'c03-key-merge': dict(property='C03',
  edits=[(N, "        this_operation = child_other.get(operation_tag, default='merge')\n        if this_operation == 'merge':\n            self._merge_text(child_other, child_self)\n", "        this_operation = child_other.get(operation_tag, default='merge')\n        if this_operation == 'merge':\n            if child_other.text or child_self.text is None:\n                self._merge_text(child_other, child_self)\n")],
  demo=HEAD + """a = cfg(d, '<name>x</name>')
x = etree.XML(xml('<name/>'))
r = a + x
assert not r.xpath('//dm:name')[0].text, r
""", needs='a leaf that is merged with an empty value', breaks='the old value stays'),
 'c04-last-two': dict(property='C04',
  edits=[(N, "                    if siblings[-1] != child_self:\n                        siblings[-1].addnext(child_self)", "                    if siblings[0] == child_self:\n                        siblings[-1].addnext(child_self)")],
  demo=HEAD + """a = cfg(d, '<otag>a</otag><otag>b</otag><otag>c</otag>')
x = etree.XML(xml('<otag yang:insert="last">b</otag>'))
r = [e.text for e in (a + x).xpath('//dm:otag')]
assert r == ['a', 'c', 'b'], r
""", needs='an entry in the middle that is to be the last one', breaks='it stays where it is'),
 'c05-two-levels': dict(property='C05',
  edits=[(A, "        for ele in element.iter():\n            for attribute", "        for ele in [element] + [e for e in element.iter() if len(e) == 0]:\n            for attribute")],
  demo=HEAD + """a = cfg(d, '<name>x</name>')
x = etree.XML(xml('<np nc:operation="create"><deep nc:operation="create"><z>1</z></deep></np>'))
r = a + x
assert all(not e.attrib for e in r.ele.iter()), r
""", needs='an operation on a container inside a created one', breaks='the attribute stays in the config'),
 'c11-iid-inherit': dict(property='C11',
  edits=[(R, "                if url is not None:\n                    default_url = url\n", "                if default_url is None:\n                    default_url = url\n")],
  demo="""from demolib import *
d = device(models=('demo', 'aug'), yang={'aug': 'module aug { namespace "urn:aug"; prefix au; import demo { prefix dm; } augment "/dm:top/dm:np" { container ac { leaf al { type string; } } } }'})
def c(t):
    return Config(d, '<nc:config xmlns:nc="%s" xmlns:dm="urn:demo" xmlns:au="urn:aug"><top xmlns="urn:demo"><ref>%s</ref></top></nc:config>' % (NC, t))
assert c('/dm:top/dm:np/au:ac') != c('/dm:top/dm:np/dm:ac')
""", needs='a path through nodes of two modules', breaks='different paths are equal'),
 'c12-below-deprecated': dict(property='C12',
  edits=[(C, "            if len(child) > 0:\n                self._validate_node(child)\n", "            if len(child) > 0 and child_schema_node.get('status') != 'deprecated':\n                self._validate_node(child)\n")],
  demo="""from demolib import *
Y = {'dep': 'module dep { namespace "urn:dep"; prefix q; container r { container s { status deprecated; leaf a { type string; } leaf b { type string; status obsolete; } } } }'}
d = device(models=('dep',), yang=Y)
c = Config(d, '<nc:config xmlns:nc="%s"><r xmlns="urn:dep"><s><a>1</a><b>1</b></s></r></nc:config>' % NC)
assert not c.xpath('//q:b') and c.xpath('//q:a'), c
""", needs='an obsolete leaf inside a deprecated container', breaks='the obsolete leaf stays'),
 'c13-some-defaults': dict(property='C13',
  edits=[(C, "                    set(values) == set(defaults)\n", "                    set(values) <= set(defaults)\n")],
  demo=HEAD + """c = cfg(d, '<dtag>a</dtag><name>x</name>')
assert c.xpath('//dm:dtag'), c
""", needs='a leaf-list with some of its default values', breaks='entries are removed that are not the default'),
 'c14-nested': dict(property='C14',
  edits=[(C, "            if filtrates:\n                config._node_filter", "            filtrates -= ancestors\n            if filtrates:\n                config._node_filter")],
  demo=HEAD + """c = cfg(d, '<np><a>1</a><deep><z>1</z></deep></np><name>x</name>')
r = c.filter('//dm:np|//dm:z')
assert r.xpath('//dm:a') and r.xpath('//dm:z') and not r.xpath('//dm:name'), r
""", needs='selected elements inside each other', breaks='the outer one loses its content'),
 'c22-memo': dict(property='C22',
  edits=[(F, "            for child in parent.getchildren():\n                schema_node = self.get_schema_node(child)\n                if schema_node.get('access') == 'read-only':\n                    parent.remove(child)", "            done = set()\n            for child in parent.getchildren():\n                if child.tag in done:\n                    continue\n                schema_node = self.get_schema_node(child)\n                if schema_node.get('type') == 'leaf-list':\n                    done.add(child.tag)\n                if schema_node.get('access') == 'read-only':\n                    parent.remove(child)")],
  demo="""from demolib import *
Y = {'ro': 'module ro { namespace "urn:ro"; prefix q; container r { leaf a { type string; } leaf-list s { config false; type string; } } }'}
d = device(models=('ro',), yang=Y)
c = d.extract_config('<nc:data xmlns:nc="%s"><r xmlns="urn:ro"><a>1</a><s>1</s><s>2</s></r></nc:data>' % NC)
assert not c.xpath('//q:s') and c.xpath('//q:a'), c
""", needs='a read-only leaf-list with two entries', breaks='the second entry stays'),
 'c10-raw-order': dict(property='C10',
  edits=[(A, "            return list(filter(lambda x:\n                               self._same_text(child_self, x),\n                               peers))", "            return list(filter(lambda x:\n                               child_self.text == x.text,\n                               peers))")],
  demo="""from demolib import *
Y = {'ol': 'module ol { namespace "urn:ol"; prefix q; import types { prefix tp; } container r { leaf-list s { ordered-by user; type identityref { base tp:base-id; } } } }'}
d = device(models=('ol',), yang=Y)
def c(p):
    return Config(d, '<nc:config xmlns:nc="%s"><r xmlns="urn:ol" xmlns:%s="urn:types"><s>%s:red</s><s>%s:blue</s></r></nc:config>' % (NC, p, p, p))
assert c('a') == c('b')
""", needs='a user-ordered leaf-list of identityrefs with different prefixes', breaks='equal configs are different'),
 'c09-lt': dict(property='C09',
  edits=[(A, "        return self._node_le(self.etree2, self.etree1) and \\\n               not self._node_le(self.etree1, self.etree2)", "        return self._node_le(self.etree2, self.etree1) and \\\n               len(list(self.etree1.iter())) > len(list(self.etree2.iter()))")],
  demo=HEAD + """a = cfg(d, '<item><id>1</id><v>2</v></item>')
assert a > cfg(d, '<item><id>1</id></item>')
b = cfg(d, '<name>x</name>')
c = cfg(d, '<name>x</name>')
c.ele[0][0].set('a', 'b')
assert c > b
""", needs='configs that differ in an attribute only', breaks='> is not containment without equality'),
}
