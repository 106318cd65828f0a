N = 'netconf.py'
K = 'calculator.py'
HEAD = "from demolib import *\nd = device()\n"
def D(body):
    return HEAD + body
SEEDS = {
 'c03-remove-emptied-list': dict(property='C03',
  edits=[(N, "                if (\n                    s_node.get('type') == 'container' and\n                    s_node.get('presence') != 'true'\n                ):\n                    node_sum.remove(child_self)",
             "                if (\n                    s_node.get('type') == 'container' and\n                    child_other.get(operation_tag) is None\n                ):\n                    node_sum.remove(child_self)")],
  demo=D("""c = cfg(d, '<pc><a>1</a></pc>')
r = c + etree.fromstring(xml('<pc><a nc:operation="delete"/></pc>'))
assert r.xpath('//dm:pc'), 'presence container lost'
"""), needs='a delta that empties a presence container', breaks='a presence container that becomes empty disappears from the sum'),
 'c03-create-existing-leaflist': dict(property='C03',
  edits=[(N, "        if this_operation == 'merge' or \\\n           this_operation == 'replace':\n            if s_node.get('ordered-by') == 'user' and", "        if this_operation == 'merge' or \\\n           this_operation == 'replace' or \\\n           child_other.get(insert_tag) is not None:\n            if s_node.get('ordered-by') == 'user' and")],
  demo=D("""from ncdiff.errors import ConfigDeltaError
c = cfg(d, '<otag>a</otag><otag>b</otag>')
try:
    c + etree.fromstring(xml('<otag nc:operation="create" yang:insert="first">b</otag>'))
except ConfigDeltaError:
    pass
else:
    raise SystemExit('create of existing entry accepted')
"""), needs='an existing user-ordered leaf-list entry created again with an insert attribute', breaks='data-exists is not reported'),
 'c04-before-existing-list': dict(property='C04',
  edits=[(N, "                if sibling != child_self:\n                    sibling.addprevious(child_self)", "                if sibling != child_self:\n                    sibling.addnext(child_self)")],
  demo=D("""c = cfg(d, '<oitem><id>1</id></oitem><oitem><id>2</id></oitem><oitem><id>3</id></oitem>')
r = c + etree.fromstring(xml('<oitem yang:insert="before" yang:key="[id=\\'2\\']"><id>3</id></oitem>'))
ids = [x.text for x in r.xpath('//dm:oitem/dm:id')]
assert ids == ['1', '3', '2'], ids
"""), needs='an existing user-ordered list entry moved before another entry', breaks='the entry lands behind the reference entry'),
 'c05-container-replace-attr': dict(property='C05',
  edits=[(N, "            node_sum.append(self._del_attrib(deepcopy(child_other)))", "            e = deepcopy(child_other)\n            e.attrib.pop(operation_tag, None)\n            node_sum.append(e)")],
  demo=D("""c = cfg(d, '<name>n</name>')
r = c + etree.fromstring(xml('<np nc:operation="create"><deep><dl nc:operation="create"><k>1</k></dl></deep></np>'))
assert not [a for e in r.ele.iter() for a in e.attrib], str(r)
"""), needs='a created container with operations on descendants', breaks='operation attributes stay in the resulting config'),
 'c06-delete-list-one-key': dict(property='C06',
  edits=[(N, "                for key in keys:\n                    key_node = child_other.find(key)\n                    e = etree.SubElement(child_self, key, nsmap=key_node.nsmap)\n                    e.text = key_node.text", "                for key in keys:\n                    key_node = child_other.find(key)\n                    e = etree.SubElement(child_self, key, nsmap=key_node.nsmap)\n                    e.text = child_other[0].text")],
  demo=D("""a = cfg(d, '<two><k1>x</k1><k2>y</k2></two>')
b = cfg(d, '<name>n</name>')
n = (b - a).nc
assert n.xpath('//dm:two/dm:k2', namespaces={'dm': 'urn:demo'})[0].text == 'y', etree.tostring(n)
"""), needs='deletion of an entry of a list with two keys', breaks='the deletion names the wrong entry'),
 'c06-changed-leaf-of-key-sibling': dict(property='C06',
  edits=[(N, "                if self._node_le(child_self, child_other) and \\\n                   self._node_le(child_other, child_self):\n                    node_self.remove(child_self)\n                    node_other.remove(child_other)\n                else:", "                if self._node_le(child_self, child_other) and \\\n                   len(child_self) == len(child_other):\n                    node_self.remove(child_self)\n                    node_other.remove(child_other)\n                else:", 0)],
  demo=D("""a = cfg(d, '<np><a>1</a><deep><z>1</z><dl><k>1</k></dl></deep></np>')
b = cfg(d, '<np><a>1</a><deep><z>1</z></deep></np>')
dl = b - a
assert a + dl == b, str(dl)
"""), needs='containers with equally many children where only a deeper node is missing in the target', breaks='a deletion inside the container is not part of the delta'),
 'c07-depth': dict(property='C07',
  edits=[(N, "                        self.diff_type == 'replace' and\n                        self.replace_depth == depth + 1\n                    ):\n                        self.get_config_replace(child_self, child_other)\n                    else:\n                        self.node_sub(child_self, child_other, depth=depth+1)", "                        self.diff_type == 'replace' and\n                        self.replace_depth == depth + 1\n                    ):\n                        self.get_config_replace(child_self, child_other)\n                    else:\n                        self.node_sub(child_self, child_other, depth=1)", 1)],
  demo=D("""Y = {'deepm': 'module deepm { namespace "urn:deepm"; prefix q; container r { list l { key k; leaf k { type string; } container s { list m { key n; leaf n { type string; } container t { leaf u { type string; } leaf w { type string; } } } } } } }'}
d = device(models=('deepm',), yang=Y)
def c(u):
    return Config(d, '<nc:config xmlns:nc="%s"><r xmlns="urn:deepm"><l><k>1</k><s><m><n>1</n><t><u>%s</u><w>k</w></t></m></s></l></r></nc:config>' % (NC, u))
x = ConfigDelta(c('1'), c('2'), diff_type='replace', replace_depth=3)
n = etree.tostring(x.nc).decode()
ops = [(e.tag.split('}')[1]) for e in x.nc.iter() if e.get('{%s}operation' % NC) == 'replace']
assert ops == ['t'] or ops == ['m'], (ops, n)
x = ConfigDelta(c('1'), c('2'), diff_type='replace', replace_depth=4)
ops4 = [(e.tag.split('}')[1]) for e in x.nc.iter() if e.get('{%s}operation' % NC) == 'replace']
assert ops4 != ops, ops4
"""), needs="diff_type 'replace' with a depth below a nested list", breaks='the replace operation ends up at another level'),
 'c08-after-key': dict(property='C08',
  edits=[(N, "                    i = sequence.index(item)\n                    if i == 0:\n                        item.set(insert_tag, 'first')", "                    i = sequence.index(item)\n                    if i == 0 or item.get(operation_tag) == 'create':\n                        item.set(insert_tag, 'first')")],
  demo=D("""a = cfg(d, '<oitem><id>1</id></oitem><oitem><id>2</id></oitem>')
b = cfg(d, '<oitem><id>1</id></oitem><oitem><id>2</id></oitem><oitem><id>3</id></oitem>')
dl = ConfigDelta(a, b, preferred_create='create')
assert a + dl == b, str(dl)
"""), needs="preferred_create 'create' and a new user-ordered entry that is not the first", breaks='the new entry is put first'),
 'c09-delta-bool': dict(property='C09',
  edits=[('config.py', "        if self.config_src == self.config_dst:\n            return False", "        if self.config_dst <= self.config_src:\n            return False")],
  demo=D("""a = cfg(d, '<name>n</name><mtu>9</mtu>')
b = cfg(d, '<name>n</name>')
assert bool(b - a)
"""), needs='a delta that only removes data', breaks='the delta is reported as empty'),
 'c10-order-first-only': dict(property='C10',
  edits=[(K, "                    if peers_of_immediate_elder_sibling[0] not in \\\n                            elder_siblings_of_peer:", "                    if elder_siblings_of_peer and \\\n                            peers_of_immediate_elder_sibling[0] not in \\\n                            elder_siblings_of_peer:")],
  demo=D("""a = cfg(d, '<otag>a</otag><otag>b</otag>')
b = cfg(d, '<otag>b</otag><otag>a</otag>')
assert a != b and b != a
assert not a <= b
"""), needs='two user-ordered entries swapped', breaks='a different order is taken as contained'),
 'c11-idref-in-list': dict(property='C11',
  edits=[('ref.py', "            if match.group(1) in node.nsmap:\n                return node.nsmap[match.group(1)], match.group(2)\n            elif match.group(1) in [ns[0] for ns in self.device.namespaces]:\n                name_to_url = {ns[0]: ns[2] for ns in self.device.namespaces}\n                return name_to_url[match.group(1)], match.group(2)\n            else:\n                raise ConfigError(\"unknown prefix '{}' in the node with tag \" \\\n                                  \"{}\" \\\n                                  .format(match.group(1), node.tag))\n        else:\n            # RFC7950 section 9.10.3", "            if match.group(1) in [ns[0] for ns in self.device.namespaces]:\n                name_to_url = {ns[0]: ns[2] for ns in self.device.namespaces}\n                return name_to_url[match.group(1)], match.group(2)\n            elif match.group(1) in node.nsmap:\n                return node.nsmap[match.group(1)], match.group(2)\n            else:\n                raise ConfigError(\"unknown prefix '{}' in the node with tag \" \\\n                                  \"{}\" \\\n                                  .format(match.group(1), node.tag))\n        else:\n            # RFC7950 section 9.10.3")],
  demo=D("""Y = {'shade': 'module shade { namespace "urn:shade"; prefix sh; import types { prefix tp; } identity red { base tp:base-id; } }'}
d = device(models=('demo',), yang=Y)
a = cfg(d, '<color xmlns:shade="urn:types">shade:red</color>')
b = cfg(d, '<color>tp:red</color>')
assert a == b
"""), needs='a prefix declared in the document that is also the name of another module', breaks='the identity is resolved to the wrong module'),
}
