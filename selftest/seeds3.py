F = 'manager.py'
HEAD = "from demolib import *\n"
def D(body):
    return HEAD + body
EXEC = '''
from ncclient import manager as ncm, operations
d = device(models=('demo', 'types'))
SENT = []
class R: pass
ncm.Manager.execute = lambda self, cls, *a, **k: SENT.append((cls, a, k)) or R()
'''
SEEDS = {
 'c16-purge-exact': dict(property='C16',
  edits=[(F, "                          if self.roots[k.split(' ')[0]] != m.name}", "                          if ' ' in k or self.roots[k] != m.name}")],
  demo=D("""d = device()
c = cfg(d, '<name>x</name>')
old = d.get_schema_node(c.ele[0][0])
d.load_model('demo')
new = d.get_schema_node(c.ele[0][0])
t = new
while t.getparent() is not None:
    t = t.getparent()
assert t is d.models['demo'].tree, 'schema node of the replaced model'
"""), needs='a model that is loaded again after its nodes were looked up', breaks='schema nodes of the replaced model are returned below its roots'),
 'c16-nested-choice': dict(property='C16',
  edits=[(F, "            if not ids_1 < ids_2:\n                return False", "            if not ids_1 < ids_2 or len(ids_2 - ids_1) > 3:\n                return False")],
  demo=D("""E = '''module extra { namespace "urn:extra"; prefix ex; container a { choice c { case d { choice e { case f { leaf k { type string; } } } } } } }'''
d = device(models=('extra',), yang={'extra': E})
c = Config(d, '<nc:config xmlns:nc="%s"><a xmlns="urn:extra"><k>1</k></a></nc:config>' % NC)
assert d.get_schema_node(c.ele[0][0]).tag == '{urn:extra}k'
"""), needs='a choice nested in a case of another choice', breaks='data of nested choices has no schema node'),
 'c16-keys-sorted': dict(property='C16',
  edits=[('composer.py', "        nodes = list(filter(lambda x: x.get('is_key'),", "        nodes = list(filter(lambda x: x.get('is_key') and\n                            x.get('access') == 'read-write' and\n                            x.get('default') is None,")] ,
  demo=D("""pass
"""), needs='-', breaks='-'),
 'c21-get-readonly': dict(property='C21',
  edits=[(F, "                         if v in models and\n                            get_access_type(v, k) == 'read-write']", "                         if v in models and\n                            get_access_type(v, k) != 'read-only']")],
  demo=D(EXEC + """
d.models['demo'].tree[1].set('access', 'write-only')
d.execute('get_config', models=['demo'])
f = SENT[0][2]['filter']
assert len(f) == len([x for x in d.models['demo'].tree if x.get('access') == 'read-write']), etree.tostring(f)
"""), needs='a model with a root that is neither read-write nor read-only (an rpc)', breaks='get_config asks for roots that are no configuration'),
 'c21-candidate': dict(property='C21',
  edits=[(F, "            if 'target' not in kwargs and \\\n               'urn:ietf:params:netconf:capability:candidate:1.0' not in \\\n               self.server_capabilities and \\\n", "            if 'target' not in kwargs and \\\n               not any(c.endswith(':confirmed-commit:1.1') for c in\n                       self.server_capabilities) and \\\n")],
  demo=D(EXEC + """
d._session._server_capabilities = ['urn:ietf:params:netconf:capability:candidate:1.0', 'urn:ietf:params:netconf:capability:writable-running:1.0']
d.execute('edit_config', cfg(d, '<name>x</name>'))
assert 'target' not in SENT[0][2], SENT
"""), needs='a device with both candidate and writable-running but without confirmed-commit', breaks='edit_config changes running although the device has a candidate'),
 'c21-check-subset': dict(property='C21',
  edits=[(F, "            missing_models = set(models) - set(self.models_loaded)\n            if missing_models:", "            missing_models = set(models) - set(self.models_loaded)\n            if missing_models and not set(models) & set(self.models_loaded):")],
  demo=D(EXEC + """
from ncdiff.errors import ModelMissing
try:
    d.execute('get_config', models=['demo', 'unknown'])
except ModelMissing:
    pass
else:
    raise SystemExit('request for a model that is not loaded')
"""), needs='several models, some loaded and some not', breaks='the request is sent without the missing model'),
 'c22-list-state': dict(property='C22',
  edits=[(F, "                elif len(child) > 0:\n                    remove_read_only(child)", "                elif len(child) > 1:\n                    remove_read_only(child)")],
  demo=D("""d = device()
class Reply:
    ok = True
    data = None
r = Config(d, '<nc:config xmlns:nc="%s"><top xmlns="urn:demo"><ro>1</ro></top></nc:config>' % NC)
out = d.extract_config(r.ele)
assert not out.xpath('//dm:ro'), str(out)
"""), needs='a container whose only child is state data', breaks='state data stays in the extracted config'),
}
del SEEDS['c16-keys-sorted']
