N = 'netconf.py'
F = 'manager.py'
G = 'composer.py'
HEAD = "from demolib import *\nd = device()\n"
NSP = "{'dm': 'urn:demo'}"
CONN = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
from ncclient import transport
import ncdiff.manager as m
LOG = []
class S:
    transport = None
    fail = None
    _server_capabilities = []
    connected = True
    def __init__(self, h): pass
    def load_known_hosts(self): LOG.append('hosts')
    def connect(self, *a, **k):
        LOG.append('connect')
        if self.fail: raise self.fail
    def close(self): LOG.append('close')
transport.SSHSession = S
'''
SEEDS = {
 'c06-choice-container': dict(property='C06',
  edits=[(N, "            if s_node.getparent().get('type') == 'case':\n                # key: choice node, value: case node\n", "            if s_node.getparent().get('type') == 'case' and \\\n               s_node.get('type') != 'container':\n                # key: choice node, value: case node\n")],
  demo="""from demolib import *
Y = {'chm': 'module chm { namespace "urn:chm"; prefix q; container r { leaf z { type string; } choice c { case a { container ca { leaf x { type string; } } } case b { leaf y { type string; } } } } }'}
d = device(models=('chm',), yang=Y)
def c(t):
    return Config(d, '<nc:config xmlns:nc="%s"><r xmlns="urn:chm"><z>1</z>%s</r></nc:config>' % (NC, t))
n = (c('<ca><x>1</x></ca>') - c('<y>1</y>')).nc
assert not n.xpath('//q:y', namespaces={'q': 'urn:chm'}), etree.tostring(n)
""", needs='a choice whose new case is a container', breaks='data of the replaced case is deleted explicitly'),
 'c06-key-strip': dict(property='C06',
  edits=[(N, "                for key in keys:\n                    key_node = child_other.find(key)\n                    e = etree.SubElement(child_self, key, nsmap=key_node.nsmap)\n                    e.text = key_node.text\n            elif (\n                s_node.get('type') == 'container' and\n                s_node.get('presence') != 'true' and\n                self.preferred_delete == 'delete'\n            ):\n                self.set_delete_operation(child_self, child_other)",
          "                for key in keys:\n                    key_node = child_other.find(key)\n                    e = etree.SubElement(child_self, key, nsmap=key_node.nsmap)\n                    e.text = key_node.text.split('.')[0] if key != keys[0] \\\n                        else key_node.text\n            elif (\n                s_node.get('type') == 'container' and\n                s_node.get('presence') != 'true' and\n                self.preferred_delete == 'delete'\n            ):\n                self.set_delete_operation(child_self, child_other)")],
  demo=HEAD + """a = cfg(d, '<two><k1>x</k1><k2>1.5</k2></two>')
n = (cfg(d, '<name>n</name>') - a).nc
assert n.xpath('//dm:two/dm:k2', namespaces={'dm': 'urn:demo'})[0].text == '1.5', etree.tostring(n)
""", needs='deletion of a list entry with a dot in its second key', breaks='the deletion names another entry'),
 'c07-new-merge': dict(property='C07',
  edits=[(N, "            if self.diff_type == 'replace':\n                child_self.set(operation_tag, 'replace')\n            elif self.preferred_create == 'replace':", "            if (\n                self.diff_type == 'replace' and\n                self.replace_depth > depth + 1\n            ):\n                child_self.set(operation_tag, 'replace')\n            elif self.preferred_create == 'replace':")],
  demo=HEAD + """a = cfg(d, '<np><a>1</a></np>')
b = cfg(d, '<np><a>1</a></np><item><id>1</id></item>')
x = ConfigDelta(a, b, diff_type='replace', replace_depth=1)
e = x.nc.xpath('//dm:item', namespaces={'dm': 'urn:demo'})[0]
assert e.get('{%s}operation' % NC) == 'replace', etree.tostring(x.nc)
""", needs='a new node at the replace depth', breaks='the new node is not marked replace'),
 'c08-key-first': dict(property='C08',
  edits=[(N, "                                \"[{}='{}']\".format(ids[k], key_nodes[k].text)\n                                for k in keys\n                            ]\n                            item.set(key_tag, ''.join(id_list))\n\n    def set_create", "                                \"[{}='{}']\".format(ids[k], key_nodes[k].text)\n                                for k in keys if key_nodes[k].text\n                            ]\n                            item.set(key_tag, ''.join(id_list[:2]))\n\n    def set_create")],
  demo="""from demolib import *
Y = {'ord': 'module ord { namespace "urn:ord"; prefix q; container r { list l { key "a b c"; ordered-by user; leaf a { type string; } leaf b { type string; } leaf c { type string; } } } }'}
d = device(models=('ord',), yang=Y)
def c(*t):
    return Config(d, '<nc:config xmlns:nc="%s"><r xmlns="urn:ord">%s</r></nc:config>' % (NC, ''.join('<l><a>%s</a><b>%s</b><c>%s</c></l>' % tuple(x) for x in t)))
n = (c('111', '112', '113') - c('111', '113')).nc
ks = [e.get('{%s}key' % YG) for e in n.iter('{urn:ord}l')]
assert any(k and "c='2'" in k for k in ks), ks
""", needs='a user-ordered list with three keys', breaks='the reference entry is ambiguous'),
 'c08-equal-entries': dict(property='C08',
  edits=[(N, "                        for child in child_other.getchildren():\n                            schema_node = self.device.get_schema_node(child)\n                            if not schema_node.get('is_key'):\n                                child_other.remove(child)\n                    else:", "                        for child in child_other.getchildren():\n                            schema_node = self.device.get_schema_node(child)\n                            if not schema_node.get('is_key'):\n                                child_other.remove(child)\n                        if child_self.getnext() is None and \\\n                           len(in_s_and_in_o) > 2:\n                            node_self.remove(child_self)\n                    else:")],
  demo=HEAD + """def o(*ids):
    return cfg(d, ''.join('<oitem><id>%s</id></oitem>' % i for i in ids))
dl = o(2, 1, 3) - o(1, 2, 3)
ks = [e.findtext('{urn:demo}id') for e in dl.nc.iter('{urn:demo}oitem')]
assert ks == ['2', '1', '3'], ks
""", needs='three common entries of which the last one keeps its place', breaks='the last entry has no place in the delta'),
 'c26-stale-namespaces': dict(property='C26',
  edits=[(F, "        self.compiler = ModelCompiler(folder)\n        self._namespaces = None\n", "        self.compiler = ModelCompiler(folder)\n        if download == 'force':\n            self._namespaces = None\n")],
  demo="""from demolib import *
d = device()
d.namespaces
import tempfile
with tempfile.TemporaryDirectory() as t:
    open(t + '/o.yang', 'w').write('module o { namespace "urn:o"; prefix oo; }')
    d.scan_models(folder=t, download='ignore')
    assert d.namespaces == [('o', 'oo', 'urn:o')], d.namespaces
""", needs='scan_models() called again with another folder', breaks='namespaces are those of the first folder'),
 'c26-reload': dict(property='C26',
  edits=[(F, "                          if self.roots[k.split(' ')[0]] != m.name}\n", "                          if self.roots[k.split(' ')[0]] != m.name or\n                          ' ' not in k}\n")],
  demo="""from demolib import *
d = device()
c = cfg(d, '<name>n</name>')
e = c.ele[0]
s1 = d.get_schema_node(e)
d.load_model('demo')
s2 = d.get_schema_node(e)
assert s1 is not s2 and s2 in list(d.models['demo'].tree.iter()), 'node of the old model'
""", needs='a model loaded again after its root was looked up', breaks='root schema nodes are those of the old model'),
 'c26-regex': dict(property='C26',
  edits=[(F, "            if match:\n                modules.append(match.group(1))", "            if match and '&revision' in capability:\n                modules.append(match.group(1))")],
  demo="""from demolib import *
d = ModelDevice(Session(['urn:a?module=a&revision=2020-01-01', 'urn:b?module=b', 'urn:c?module=c&features=x']), DefaultDeviceHandler())
assert d.models_loadable == ['a', 'b', 'c'], d.models_loadable
""", needs='a module capability without revision', breaks='the module is not loadable'),
 'c28-no-transport': dict(property='C28',
  edits=[(F, "        if session.transport:\n            session.close()\n        raise\n", "        if session.transport and not isinstance(ex, transport.SSHError):\n            session.close()\n        raise\n")],
  demo=CONN + """S.transport = object()
S.fail = transport.AuthenticationError('no')
try:
    m.connect(host='h', hostkey_verify=False)
except transport.AuthenticationError:
    pass
assert LOG == ['connect', 'close'], LOG
""", needs='an SSH failure after the transport is up', breaks='the session stays open'),
 'c28-hosts': dict(property='C28',
  edits=[(F, "    if \"hostkey_verify\" not in kwargs or kwargs[\"hostkey_verify\"]:", "    if \"hostkey_verify\" not in kwargs or kwargs[\"hostkey_verify\"] is True:")],
  demo=CONN + """try:
    m.connect(host='h', hostkey_verify=1)
except Exception:
    pass
assert LOG[0] == 'hosts', LOG
""", needs='hostkey_verify given as a true value other than True', breaks='known hosts are not loaded'),
 'c28-timeout-zero': dict(property='C28',
  edits=[(F, "            if arg in kwargs:\n                setattr(self, arg, kwargs[arg])", "            if kwargs.get(arg):\n                setattr(self, arg, kwargs[arg])")],
  demo="""from demolib import *
from ncclient.operations import RaiseMode
d = ModelDevice(Session([]), DefaultDeviceHandler(), raise_mode=RaiseMode.NONE)
assert d.raise_mode == RaiseMode.NONE, d.raise_mode
""", needs='an option given with a false value', breaks='the option is ignored'),
 'c29-special-first': dict(property='C29',
  edits=[(F, "            if c == 1:\n                return matches[0][dst[0]]\n", "            if c == 1 and dst[0] != Tag.NAME:\n                return matches[0][dst[0]]\n            if c == 1 and not tag.startswith('{'):\n                return matches[0][dst[0]]\n            if c == 1:\n                return matches[0][Tag.NAME].split('.')[0]\n")],
  demo="""from demolib import *
from ncdiff.composer import Tag
d = device(models=('a.b',), yang={'a.b': 'module a.b { namespace "urn:ab"; prefix ab; leaf x { type string; } }'})
assert d.convert_tag('', '{urn:ab}x', dst=Tag.JSON_NAME) == ('urn:ab', 'a.b:x'), d.convert_tag('', '{urn:ab}x', dst=Tag.JSON_NAME)
""", needs='a module whose name has a dot, written by name', breaks='the name of another module is written'),
 'c29-default-ns': dict(property='C29',
  edits=[(F, "        elif dst[1] == Tag.OMIT_BY_INHERITANCE:\n            if default_ns == tag_ns:", "        elif dst[1] == Tag.OMIT_BY_INHERITANCE:\n            if default_ns and tag_ns.startswith(default_ns):")],
  demo="""from demolib import *
from ncdiff.composer import Tag
d = device(models=('demo', 'demox'), yang={'demox': 'module demox { namespace "urn:demo:x"; prefix dx; leaf x { type string; } }'})
r = d.convert_tag('urn:demo', '{urn:demo:x}x', dst=Tag.XPATH)
assert r == ('urn:demo:x', 'dx:x'), r
""", needs='a namespace that starts with the default namespace', breaks='the prefix is left out'),
 'c29-keys': dict(property='C29',
  edits=[(G, "                                key_node = node.find(key)\n                                if key_node is not None:", "                                key_node = node.find(key)\n                                if key_node is not None and \\\n                                   (index < len(nodes)-1 or '][' not in ret[-40:]):")],
  demo="""from demolib import *
d = device()
c = cfg(d, '<two><k1>x</k1><k2>y</k2></two>')
Y = {'k3': 'module k3 { namespace "urn:k3"; prefix q; list l { key "a b c"; leaf a { type string; } leaf b { type string; } leaf c { type string; } } }'}
d = device(models=('k3',), yang=Y)
c = Config(d, '<nc:config xmlns:nc="%s"><l xmlns="urn:k3"><a>1</a><b>2</b><c>3</c></l></nc:config>' % NC)
r = d.get_xpath(c.ele[0])
assert r == '/q:l[a="1"][b="2"][c="3"]', r
""", needs='a list with three keys', breaks='the path leaves out a key'),
 'c29-in-use': dict(property='C29',
  edits=[(F, "                child.get('type') == 'container' and\n                child.get('presence') != 'true'\n            ):\n                default_nodes += self.default_in_use(child)", "                child.get('type') == 'container' and\n                child.get('presence') is None\n            ):\n                nodes = self.default_in_use(child)\n                if len(nodes) < len(child):\n                    default_nodes += nodes")],
  demo="""from demolib import *
Y = {'du': 'module du { namespace "urn:du"; prefix q; container r { container s { leaf a { type string; default "x"; } } } }'}
d = device(models=('du',), yang=Y)
r = d.models['du'].tree[0]
assert [x.tag for x in d.default_in_use(r)] == ['{urn:du}a'], d.default_in_use(r)
""", needs='a container in which every node has a default', breaks='the defaults of that container are not listed'),
}
