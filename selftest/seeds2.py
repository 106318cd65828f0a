F = 'config.py'
HEAD = "from demolib import *\nd = device()\n"
def D(body):
    return HEAD + body
SEEDS = {
 'c12-second-key': dict(property='C12',
  edits=[(F, "                for key in c.keys:", "                for key in c.keys[:1]:")],
  demo=D("""from ncdiff.errors import ConfigError
try:
    cfg(d, '<two><k1>a</k1><v>1</v></two>')
except ConfigError:
    pass
else:
    raise SystemExit('list entry without its second key accepted')
"""), needs='a list with two keys and an entry that lacks the second', breaks='an incomplete list entry passes validation'),
 'c12-key-attribute': dict(property='C12',
  edits=[(F, "            for tag in operation_tag, insert_tag, value_tag, key_tag:", "            for tag in operation_tag, insert_tag, value_tag:")],
  demo=D("""from ncdiff.errors import ConfigError
try:
    cfg(d, '<oitem yang:key="[id=1]"><id>2</id><v>1</v></oitem>')
except ConfigError:
    pass
else:
    raise SystemExit('key attribute accepted in a config')
"""), needs='a config whose list entry carries only a yang:key attribute', breaks='edit-config attributes pass validation'),
 'c13-case-insensitive': dict(property='C13',
  edits=[(F, "                child.text == child_schema_node.get('default')", "                (child.text or '').lower() == child_schema_node.get('default').lower()")],
  demo=D("""c = cfg(d, '<np><a>1</a><b>X</b></np>')
assert c.xpath('//dm:b'), 'value that is not the default was trimmed'
"""), needs='a leaf whose value differs from its default only in case', breaks='configured data that is not the default disappears'),
 'c14-deep-siblings': dict(property='C14',
  edits=[(F, "                    if s_node.get('is_key') or child in filtrates:\n                        continue", "                    if s_node.get('is_key') or child in filtrates or \\\n                            len(child) == 1 and child in ancestors:\n                        continue")],
  demo=D("""E = '''module extra { namespace "urn:extra"; prefix ex; list l { key k; leaf k { type string; } container a { container b { leaf x { type string; } leaf y { type string; } } } } }'''
d1 = device(models=('extra',), yang={'extra': E})
X = '<nc:config xmlns:nc="%s"><l xmlns="urn:extra"><k>1</k><a><b><x>1</x><y>2</y></b></a></l></nc:config>' % NC
c = Config(d1, X)
r = c.filter('//ex:x')
assert not r.xpath('//ex:y') and r.xpath('//ex:k') and r.xpath('//ex:x'), str(r)
"""), needs='a selected node below a container with one child in a list entry', breaks='unrelated siblings of the selected node are kept'),
 'c15-first-model': dict(property='C15',
  edits=[(F, "        return sorted(list(set(self.config1.models + self.config2.models)))", "        return sorted(set(self.config1.models) & set(self.config2.models))")],
  demo=D("""from ncdiff.errors import ModelMissing, ModelIncompatible
E = '''module extra { namespace "urn:extra"; prefix ex; leaf e { type string; } }'''
d1 = device(models=('demo', 'extra'), yang={'extra': E})
d2 = device()
a = Config(d1, '<nc:config xmlns:nc="%s"><e xmlns="urn:extra">1</e></nc:config>' % NC)
b = cfg(d2, '<name>x</name>')
try:
    ConfigDelta(config_src=b, config_dst=a)
except (ModelMissing, ModelIncompatible):
    pass
else:
    raise SystemExit('incompatible configs were added')
"""), needs='two configs on different devices using different models', breaks='a config with a model unknown to the other device is combined'),
 'c15-url': dict(property='C15',
  edits=[(F, "            url2 = [i[2] for i in self.config2.device.namespaces", "            url2 = [i[2] for i in self.config1.device.namespaces")],
  demo=D("""from ncdiff.errors import ModelMissing, ModelIncompatible
from ncdiff.config import ConfigCompatibility
class Dev:
    models_loadable = ['m']
    def __init__(self, u): self.namespaces = [('m', 'p', u)]
class C:
    models = ['m']
    def __init__(self, u): self.device = Dev(u)
try:
    ConfigCompatibility(C('urn:a'), C('urn:b')).namespaces_compatible
except ModelIncompatible:
    pass
else:
    raise SystemExit('different URLs are compatible')
"""), needs='two devices that use different URLs for the same model', breaks='models with different URLs count as compatible'),
 'c27-reorder-keys': dict(property='C27',
  edits=[(F, "            if schema_node.get('is_key') == \"true\":\n                num_keys += 1", "            if schema_node.get('is_key') == \"true\":\n                num_keys = 1")],
  demo=D("""a = cfg(d, '<two><k1>x</k1><k2>y</k2></two>')
b = cfg(d, '<two><k1>x</k1><k2>y</k2><v>1</v></two>')
for s in range(1, 40):
    dl = ConfigDelta(config_src=a, config_dst=b, random_depth=2, random_seed=s)
    e = dl.nc.xpath('//dm:two', namespaces={'dm': 'urn:demo'})[0]
    assert [etree.QName(x).localname for x in e][:2] == ['k1', 'k2'], str(dl)
"""), needs='a list with two keys at the depth that is reordered', breaks='the second key is moved behind other leaves'),
 'c27-seed-zero': dict(property='C27',
  edits=[(F, "        if self.random_depth is not None and self.random_seed is not None:", "        if self.random_depth is not None and self.random_seed:")],
  demo=D("""a = cfg(d, '')
b = cfg(d, '<name>1</name><mtu>5</mtu>')
n = [x.tag for x in ConfigDelta(a, b).nc[0]]
r = [x.tag for x in ConfigDelta(a, b, random_depth=1, random_seed=0).nc[0]]
assert n != r and sorted(n) == sorted(r), (n, r)
"""), needs='random_seed=0', breaks='the requested reordering does not happen with seed 0'),
}
