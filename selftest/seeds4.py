N = 'netconf.py'
F = 'config.py'
M = 'manager.py'
HEAD = "from demolib import *\n"
def D(body):
    return HEAD + body
SEEDS = {
 'c01-sub-shared': dict(property='C01',
  edits=[(N, """        ele1 = deepcopy(self.etree1)
        ele2 = deepcopy(self.etree2)
        if self.diff_type == 'replace' and""", """        ele1 = deepcopy(self.etree1)
        # only the nodes to be created come from the second tree
        ele2 = self.etree2 if self.preferred_create == 'replace' else \\
            deepcopy(self.etree2)
        if self.diff_type == 'replace' and""")],
  demo=D("""d = device()
a = cfg(d, '<name>x</name>')
b = cfg(d, '<name>y</name><otag>1</otag><otag>2</otag><item><id>1</id><v>2</v></item>')
sa, sb = str(a), str(b)
x = ConfigDelta(a, b, preferred_create='replace')
str(x.nc); str(x.nc)
assert str(a) == sa and str(b) == sb, str(b)
y = ConfigDelta(b, a, preferred_create='replace')
str(y.nc)
assert str(a) == sa and str(b) == sb, str(a)
"""), needs="preferred_create 'replace', then using the operand again", breaks='computing a delta moves or marks nodes of an operand'),
 'c01-filter-miss': dict(property='C01',
  edits=[(F, "        config = type(self)(self.device,  deepcopy(self.ele))\n        results = config.xpath(*args, **kwargs)", "        config = self if len(self.ele) == 0 else \\\n            type(self)(self.device, deepcopy(self.ele))\n        results = config.xpath(*args, **kwargs)")],
  demo=D("""d = device()
a = Config(d)
f = a.filter('//nothing')
b = cfg(d, '<name>x</name>')
f.ele.append(b.ele[0])
assert len(a.ele) == 0 and f is not a
"""), needs='filtering an empty config and filling the result', breaks='the filtered config shares its tree with the operand'),
 'c01-text-normal': dict(property='C01',
  edits=[(N, """        if self.diff_type == 'minimum-replace' and self.replace_xpath:
            namespaces""", """        if ele1.get(operation_tag) == 'replace':
            self.etree1.set(operation_tag, 'replace')
        if self.diff_type == 'minimum-replace' and self.replace_xpath:
            namespaces""")],
  demo=D("""pass
"""), needs='-', breaks='-'),
 'c02-default-moved': dict(property='C02',
  edits=[(M, "        default_nodes = []\n        for child in schema_node:", "        default_nodes = []\n        for child in schema_node:\n            if child.get('default') == '':\n                child.attrib.pop('default')")],
  demo=D("""E = '''module extra { namespace "urn:extra"; prefix ex; container a { leaf k { type string; default ""; } leaf l { type string; } } }'''
d = device(models=('extra',), yang={'extra': E})
n = d.models['extra'].tree[0]
before = etree.tostring(n)
d.default_in_use(n)
assert etree.tostring(n) == before
"""), needs='a leaf whose default is the empty string, after default_in_use was called', breaks='the schema forgets the default'),
 'c02-validated-mark': dict(property='C02',
  edits=[(F, "            if len(child) > 0:\n                self._trim_defaults(child)\n", "            if len(child) > 0:\n                self._trim_defaults(child)\n            elif child_schema_node.get('type') == 'list' and len(node) == 1:\n                child_schema_node.set('presence', 'false')\n")],
  demo=D("""d = device()
t = etree.tostring(d.models['demo'].tree)
c = cfg(d, '<name>x</name><np><deep><dl/></deep></np>')
assert etree.tostring(d.models['demo'].tree) == t
"""), needs='a config with an empty list entry that is the only child of its parent', breaks='reading a config changes the schema tree'),
 'c23-text-with-kids': dict(property='C23',
  edits=[(N, "    if element.text is not None:\n        new_child.text = element.text\n", "    if element.text is not None and element.text.strip():\n        new_child.text = element.text\n")],
  demo=D("""d = device()
c = Config(d, etree.XML(xml('<name>  </name>')))
assert c.ele[0][0].text == '  ', repr(c.ele[0][0].text)
"""), needs='a leaf whose value consists of white space only', breaks='the value is lost when the config is read'),
 'c23-edit-config': dict(property='C23',
  edits=[(N, "        _copy_elements(ret, element.xpath('/nc:edit-config/nc:config/*',", "        _copy_elements(ret, element.xpath('/nc:edit-config/nc:config/*[*]',")],
  demo=D("""E = '''module extra { namespace "urn:extra"; prefix ex; leaf k { type string; } }'''
d = device(models=('extra',), yang={'extra': E})
c = Config(d, '<nc:edit-config xmlns:nc="%s"><nc:config><k xmlns="urn:extra">1</k></nc:config></nc:edit-config>' % NC)
assert len(c.ele) == 1 and c.ele[0].text == '1'
"""), needs='an edit-config with a top-level leaf', breaks='top-level leafs are lost'),
 'c10-text-spaces': dict(property='C10',
  edits=[('calculator.py', "        if self_text == other_text:\n            return True", "        if self_text.split() == other_text.split():\n            return True")],
  demo=D("""pass"""), needs='-', breaks='-'),
}
del SEEDS['c01-text-normal'], SEEDS['c10-text-spaces']
