F = 'model.py'
HEAD = """import os, sys, tempfile
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
from ncdiff.model import ModelCompiler
NS = {'m': 'urn:m', 'b': 'urn:b'}
def write(d, **mods):
    for k, v in mods.items():
        with open(os.path.join(d, k + '.yang'), 'w') as f:
            f.write(v)
def mod(name, body, pre=''):
    return ('module %s { namespace "urn:%s"; prefix %s; %s revision 2024-01-01; %s }'
            % (name, name, name, pre, body))
tmp = tempfile.TemporaryDirectory()
d = tmp.name
def node(model, path):
    r = model.tree.xpath(path, namespaces=NS)
    assert len(r) == 1, (path, r)
    return r[0]
"""
SEEDS = {
 'c19-default-empty': dict(property='C19',
  edits=[(F, "        if sm is not None and len(sm) > 0:\n            n.set('default', \",\".join(map(lambda x: x.arg, sm)))",
          "        if sm is not None and len(sm) > 0 and \\\n           any(x.arg for x in sm):\n            n.set('default', \",\".join(map(lambda x: x.arg, sm)))")],
  demo=HEAD + """write(d, m=mod('m', '''container c { leaf x { type string; default q; } leaf y { type string; default ""; } }'''))
m = ModelCompiler(d).compile('m')
assert node(m, '//m:x').get('default') == 'q'
assert node(m, '//m:y').get('default') == ''
""", needs='a leaf whose default is the empty string', breaks='the default of a leaf is not recorded'),
 'c19-ordered': dict(property='C19',
  edits=[(F, "            if child.keyword == 'leaf-list':\n                sm = child.search_one('ordered-by')",
          "            if child.keyword == 'leaf-list':\n                sm = child.search_one('min-elements') or \\\n                    child.search_one('ordered-by')")],
  demo=HEAD + """write(d, m=mod('m', '''leaf-list p { ordered-by user; type string; }
leaf-list q { ordered-by user; min-elements 1; type string; }'''))
m = ModelCompiler(d).compile('m')
assert node(m, '//m:p').get('ordered-by') == 'user'
assert node(m, '//m:q').get('ordered-by') == 'user'
""", needs='a leaf-list ordered by the user that has min-elements', breaks='ordered-by user is lost'),
 'c19-mode': dict(property='C19',
  edits=[(F, "                else:\n                    self.depict_a_schema_node(module, n, c, mode=mode)",
          "                else:\n                    if mode in ['input', 'output'] and \\\n                       child.keyword in ['choice', 'case']:\n                        mode = 'rpc'\n                    self.depict_a_schema_node(module, n, c, mode=mode)")],
  demo=HEAD + """write(d, m=mod('m', '''rpc r { input { leaf i { type string; } } output {
 leaf o { type string; } choice k { case a { leaf z { type string; } } } } }'''))
m = ModelCompiler(d).compile('m')
assert node(m, '//m:i').get('access') == 'write'
assert node(m, '//m:o').get('access') == 'read-only'
assert node(m, '//m:z').get('access') == 'read-only'
""", needs='a choice in the output of an rpc', breaks='output nodes are said to be writable'),
 'c19-cache': dict(property='C19',
  edits=[(F, "        self._write_to_cache(module, st)\n\n        return Model(st)",
          "        model = Model(st)\n        self._write_to_cache(module, model.tree)\n\n        return model")],
  demo=HEAD + """write(d, m=mod('m', 'leaf a { type string; }'))
m1 = ModelCompiler(d).compile('m')
m2 = ModelCompiler(d).compile('m')
assert m1.prefixes == m2.prefixes and m2.prefixes, m2.prefixes
""", needs='a model that is compiled twice in the same folder', breaks='the cached model has no namespaces'),
 'c19-depends': dict(property='C19',
  edits=[(F, "            if list(filter(lambda i: i.get('module') == module,\n                           m.findall('./imports/import'))):\n                depends.add(m.get('id'))",
          "            if m.find('./augments') is not None and \\\n               list(filter(lambda i: i.get('module') == module,\n                           m.findall('./imports/import'))):\n                depends.add(m.get('id'))")],
  demo=HEAD + """write(d, m=mod('m', '''identity base; leaf i { type identityref { base base; } } '''),
 b=mod('b', '''identity one { base m:base; } ''', 'import m { prefix m; }'))
c = ModelCompiler(d)
assert c.get_dependencies('m') == (set(), {'b'}), c.get_dependencies('m')
assert 'b:one' in node(c.compile('m'), '//m:i').get('values', '')
""", needs='a module that only derives an identity of the compiled one', breaks='dependent modules are not loaded, so values are missing'),
 'c19-key-inherited': dict(property='C19',
  edits=[(F, "            if hasattr(child, 'i_is_key'):\n                n.set('is_key', 'true')",
          "            if hasattr(child, 'i_is_key') and sm is None:\n                n.set('is_key', 'true')")],
  demo=HEAD + """write(d, m=mod('m', '''list l { key "a b"; leaf a { type string; } leaf b { mandatory true; type string; } }'''))
m = ModelCompiler(d).compile('m')
assert node(m, '//m:a').get('is_key') == 'true'
assert node(m, '//m:b').get('is_key') == 'true'
""", needs='a key leaf that has a mandatory statement', breaks='a list key is not marked'),
}
