import sys
from lib import batch
F = 'manager.py'
G = 'composer.py'
CASES = [
 ('known list ignores special prefixes', 'C29', [(F, "                return [i[1] for i in self.namespaces] + \\\n                       list(special_prefixes.values())", "                return [i[1] for i in self.namespaces]")]),
 ('known urls wrong', 'C29', [(F, "                return [i[2] for i in self.namespaces] + \\\n                       list(special_prefixes.keys())", "                return [i[2] for i in self.namespaces] + \\\n                       list(special_prefixes.values())")]),
 ('unknown accepted', 'C29', [(F, "                if ret.group(1) in possible_part1():\n                    return (ret.group(1), ret.group(2))\n                else:\n                    raise ValueError(\"namespace '{}' in tag '{}' cannot be \" \\\n                                     \"found in namespaces of any models\" \\\n                                     .format(ret.group(1), tag))", "                return (ret.group(1), ret.group(2))")]),
 ('unknown is bare', 'C29', [(F, "                    raise ValueError(\"namespace '{}' in tag '{}' cannot be \" \\\n                                     \"found in namespaces of any models\" \\\n                                     .format(ret.group(1), tag))", "                    return ('', tag)")]),
 ('several: first', 'C29', [(F, "            if c > 1:\n                raise ModelError(\"device supports more than one {} '{}': {}\" \\\n                                 .format(Tag.STR[src[0]], ns, matches))\n            if c == 1:", "            if c >= 1:")]),
 ('several: c>2', 'C29', [(F, "            if c > 1:\n", "            if c > 2:\n")]),
 ('dst of src', 'C29', [(F, "            if c == 1:\n                return matches[0][dst[0]]", "            if c == 1:\n                return matches[0][src[0]]")]),
 ('match dst', 'C29', [(F, "            matches = [i for i in self.namespaces if i[src[0]] == ns]", "            matches = [i for i in self.namespaces if i[dst[0]] == ns]")]),
 ('bare in no-omit', 'C29', [(F, "        if src[1] == Tag.NO_OMIT and not tag_ns:\n", "        if src[1] == Tag.NO_OMIT and not tag_ns and not default_ns:\n")]),
 ('omit always default', 'C29', [(F, "        if dst[1] == Tag.NO_OMIT:\n            return tag_ns, format", "        if dst[1] == Tag.NO_OMIT and default_ns != tag_ns:\n            return tag_ns, format"), (F, "        else:\n            raise ValueError(\"unknown value", "        elif dst[1] == Tag.NO_OMIT:\n            return tag_ns, tag_name\n        else:\n            raise ValueError(\"unknown value")]),
 ('module omission: bare', 'C29', [(F, "        elif dst[1] == Tag.OMIT_BY_MODULE:\n            if default_ns == tag_ns:", "        elif dst[1] == Tag.OMIT_BY_MODULE:\n            if not default_ns or default_ns == tag_ns:")]),
 ('return default ns', 'C29', [(F, "        elif dst[1] == Tag.OMIT_BY_MODULE:\n            if default_ns == tag_ns:\n                return tag_ns, format_tag('', tag_name)\n            else:\n                return tag_ns,", "        elif dst[1] == Tag.OMIT_BY_MODULE:\n            if default_ns == tag_ns:\n                return tag_ns, format_tag('', tag_name)\n            else:\n                return default_ns,")]),
 ('format of src', 'C29', [(F, "                return dst[2][1].format(tag_ns, tag_name)", "                return src[2][1].format(tag_ns, tag_name)")]),
 ('split by dst', 'C29', [(F, "            ret = re.search(src[2][0], tag)", "            ret = re.search(dst[2][0], tag)")]),
 ('name is tag', 'C29', [(F, "                    return (ret.group(1), ret.group(2))", "                    return (ret.group(1), tag)")]),
 ('special reversed', 'C29', [(F, "special = [('', v, k) for k, v in", "special = [('', k, v) for k, v in")]),
 ('special off', 'C29', [(F, "            if src[0] != Tag.NAME and dst[0] != Tag.NAME:\n                special", "            if src[0] != Tag.NAME and dst[0] == Tag.PREFIX:\n                special")]),
 ('special first', 'C29', [(F, "            matches = [i for i in self.namespaces if i[src[0]] == ns]\n            c = len", "            if src[0] == Tag.PREFIX and dst[0] == Tag.NAMESPACE and ns == 'nc':\n                return 'nc'\n            matches = [i for i in self.namespaces if i[src[0]] == ns]\n            c = len")]),
 ('prefix match', 'C29', [(F, "            matches = [i for i in self.namespaces if i[src[0]] == ns]", "            matches = [i for i in self.namespaces if i[src[0]].startswith(ns)]")]),
 ('ns: first of several', 'C29', [(F, "        if len(matches) > 1:\n            raise ValueError(\"more than one {}", "        if len(matches) > 2:\n            raise ValueError(\"more than one {}")]),
 ('ns: none', 'C29', [(F, "        if len(matches) == 0:\n            raise ValueError(\"{} '{}' is not claimed by this device\" \\\n                             .format(Tag.STR[src], ns))", "        if len(matches) == 0:\n            return ns")]),
 ('ns: wrong', 'C29', [(F, "        return matches[0][dst]", "        return matches[0][src]")]),
 ('ns: defaults', 'C29', [(F, "src=Tag.NAMESPACE, dst=Tag.NAME", "src=Tag.NAMESPACE, dst=Tag.PREFIX")]),
 ('tag: json name', 'C29', [(G, "JSON_NAME = (NAME, OMIT_BY_INHERITANCE, COLON)", "JSON_NAME = (NAME, NO_OMIT, COLON)")]),
 ('tag: regex', 'C29', [(G, r"COLON = [r'^(.+):(.+)$'", r"COLON = [r'^(.+?):(.+)$'")]),
 ('tag: brace greedy', 'C29', [(G, r"BRACE = [r'^\{(.+)\}(.+)$'", r"BRACE = [r'^\{(.+?)\}(.+)$'")]),
 ('xpath: leaf-list last', 'C29', [(G, "if n.schema_node.get('type') == 'leaf-list' and \\\n                           not (index == len(nodes)-1 and not instance):", "if n.schema_node.get('type') == 'leaf-list' and instance:")]),
 ('xpath: list last', 'C29', [(G, "                            n.schema_node.get('type') == 'list' and\n                            not (index == len(nodes)-1 and not instance)", "                            n.schema_node.get('type') == 'list' and\n                            instance")]),
 ('xpath: list always', 'C29', [(G, "                            n.schema_node.get('type') == 'list' and\n                            not (index == len(nodes)-1 and not instance)", "                            n.schema_node.get('type') == 'list'")]),
 ('xpath: first key', 'C29', [(G, "                            for key in n.keys:", "                            for key in n.keys[:1]:")]),
 ('xpath: break', 'C29', [(G, "                                    ret += '[{}=\"{}\"]'.format(id,\n                                                              key_node.text)", "                                    ret += '[{}=\"{}\"]'.format(id,\n                                                              key_node.text)\n                                    break")]),
 ('xpath: key text', 'C29', [(G, "                                                              key_node.text)", "                                                              node.text)")]),
 ('xpath: key ns', 'C29', [(G, "                                id = self.device.convert_tag(default_ns, key,\n                                                             dst=type)[1]", "                                id = self.device.convert_tag('', key,\n                                                             dst=type)[1]")]),
 ('xpath: key notation', 'C29', [(G, "                                id = self.device.convert_tag(default_ns, key,\n                                                             dst=type)[1]", "                                id = self.device.convert_tag(default_ns, key,\n                                                             dst=Tag.XPATH)[1]")]),
 ('xpath: step ns', 'C29', [(G, "                default_ns, id = self.device.convert_tag(default_ns, node.tag,\n                                                         dst=type)", "                id = self.device.convert_tag(default_ns, node.tag,\n                                                         dst=type)[1]")]),
 ('xpath: ytool preds', 'C29', [(G, "                if self.is_config and type != Tag.YTOOL:", "                if self.is_config:")]),
 ('xpath: schema preds', 'C29', [(G, "                if self.is_config and type != Tag.YTOOL:", "                if type != Tag.YTOOL:")]),
 ('xpath: model ns', 'C29', [(G, "convert(self.model_ns, nodes, type)", "convert('', nodes, type)")]),
 ('xpath: instance lost', 'C29', [(F, "get_xpath(type, instance=instance)", "get_xpath(type)")]),
 ('xpath: type lost', 'C29', [(F, "get_xpath(type, instance=instance)", "get_xpath(Tag.XPATH, instance=instance)")]),
 ('is_config parent', 'C29', [(G, "root = list(self.node.iterancestors())[-1]", "root = list(self.node.iterancestors())[0]")]),
 ('inuse: presence', 'C29', [(F, "                child.get('type') == 'container' and\n                child.get('presence') != 'true'", "                child.get('type') == 'container'")]),
 ('inuse: leaf-list', 'C29', [(F, "                child.get('type') in ('leaf', 'leaf-list') and\n", "                child.get('type') in ('leaf',) and\n")]),
 ('inuse: lists', 'C29', [(F, "                child.get('type') == 'container' and\n                child.get('presence') != 'true'", "                child.get('type') in ('container', 'list') and\n                child.get('presence') != 'true'")]),
 ('inuse: no recursion', 'C29', [(F, "                    default_nodes += self.default_in_use(default_case_node)\n", "")]),
 ('inuse: recursion choice', 'C29', [(F, "                    default_nodes += self.default_in_use(default_case_node)\n", "                    default_nodes += self.default_in_use(child)\n")]),
 ('inuse: empty default', 'C29', [(F, "                child.get('type') in ('leaf', 'leaf-list') and\n                child.get('default') is not None\n", "                child.get('type') in ('leaf', 'leaf-list') and\n                child.get('default')\n")]),
 ('inuse: case ns', 'C29', [(F, "                    default_ns=default_ns,\n                    tag=default_case,", "                    default_ns='',\n                    tag=default_case,")]),
 ('inuse: return in loop', 'C29', [(F, "                    default_nodes += self.default_in_use(default_case_node)\n", "                    default_nodes += self.default_in_use(default_case_node)\n                    return default_nodes\n")]),
 # refactorings
 ('ref: match', '-', [(F, "            ret = re.search(src[2][0], tag)", "            ret = re.match(src[2][0], tag)")]),
 ('ref: groups', '-', [(F, "                if ret.group(1) in possible_part1():\n                    return (ret.group(1), ret.group(2))", "                part1, part2 = ret.groups()\n                if part1 in possible_part1():\n                    return (part1, part2)")]),
 ('ref: merged omit', '-', [(F, "        elif dst[1] == Tag.OMIT_BY_INHERITANCE:\n            if default_ns == tag_ns:\n                return tag_ns, format_tag('', tag_name)\n            else:\n                return tag_ns, format_tag(convert(tag_ns), tag_name)\n        elif dst[1] == Tag.OMIT_BY_MODULE:", "        elif dst[1] in (Tag.OMIT_BY_INHERITANCE, Tag.OMIT_BY_MODULE):")]),
 ('ref: loop matches', '-', [(F, "            matches = [i for i in self.namespaces if i[src[0]] == ns]\n            c = len(matches)", "            matches = []\n            for i in self.namespaces:\n                if i[src[0]] == ns:\n                    matches.append(i)\n            c = len(matches)")]),
 ('ref: unpack', '-', [(F, "            if c == 1:\n                return matches[0][dst[0]]", "            if c == 1:\n                match, = matches\n                return match[dst[0]]")]),
 ('ref: early raise', '-', [(F, "            ret = re.search(src[2][0], tag)\n            if ret:\n", "            ret = re.search(src[2][0], tag)\n            if ret is None:\n                return ('', tag)\n            if True:\n"), (F, "                                     .format(ret.group(1), tag))\n            else:\n                return ('', tag)\n", "                                     .format(ret.group(1), tag))\n")]),
 ('ref: ns', '-', [(F, "        if len(matches) == 0:\n            raise", "        if not matches:\n            raise")]),
 ('ref: ns2', '-', [(F, "        matches = [t for t in self.namespaces if t[src] == ns]", "        matches = list(filter(lambda t: t[src] == ns, self.namespaces))")]),
 ('ref: ns3', '-', [(F, "        return matches[0][dst]", "        found = matches[0]\n        return found[dst]")]),
 ('ref: is_config', '-', [(G, "        root = list(self.node.iterancestors())[-1]\n        if root.tag == config_tag:\n            return True\n        else:\n            return False", "        *_, root = self.node.iterancestors()\n        return root.tag == config_tag")]),
 ('ref: is_config2', '-', [(G, "        root = list(self.node.iterancestors())[-1]\n        if root.tag == config_tag:\n            return True\n        else:\n            return False", "        root = list(self.node.iterancestors())[-1]\n        return root.tag == config_tag")]),
 ('ref: xpath last', '-', [(G, "            for index, node in enumerate(nodes):\n", "            last = len(nodes) - 1\n            for index, node in enumerate(nodes):\n                keyless = index == last and not instance\n"), (G, "                           not (index == len(nodes)-1 and not instance):", "                           not keyless:"), (G, "                            n.schema_node.get('type') == 'list' and\n                            not (index == len(nodes)-1 and not instance)", "                            n.schema_node.get('type') == 'list' and\n                            not keyless")]),
 ('ref: xpath node is', '-', [(G, "                           not (index == len(nodes)-1 and not instance):", "                           not (node is self.node and not instance):"), (G, "                            n.schema_node.get('type') == 'list' and\n                            not (index == len(nodes)-1 and not instance)", "                            n.schema_node.get('type') == 'list' and\n                            (instance or node is not self.node)")]),
 ('ref: xpath parts', '-', [(G, "            ret = ''\n", "            ret = []\n"), (G, "                ret += '/' + id\n", "                ret.append('/' + id)\n"), (G, "                            ret += '[text()=\"{}\"]'.format(node.text)", "                            ret.append('[text()=\"{}\"]'.format(node.text))"), (G, "                                    ret += '[{}=\"{}\"]'.format(id,\n                                                              key_node.text)\n            return ret", "                                    ret.append('[{}=\"{}\"]'.format(id,\n                                                              key_node.text))\n            return ''.join(ret)")]),
 ('ref: xpath helper', '-', [(G, "                ret += '/' + id\n                if self.is_config and type != Tag.YTOOL:\n                    n = Composer(self.device, node)\n                    if n.schema_node is not None:\n                        if n.schema_node.get('type') == 'leaf-list' and \\\n                           not (index == len(nodes)-1 and not instance):\n                            ret += '[text()=\"{}\"]'.format(node.text)\n                        elif (\n                            n.schema_node.get('type') == 'list' and\n                            not (index == len(nodes)-1 and not instance)\n                        ):\n                            for key in n.keys:\n                                id = self.device.convert_tag(default_ns, key,\n                                                             dst=type)[1]\n                                key_node = node.find(key)\n                                if key_node is not None:\n                                    ret += '[{}=\"{}\"]'.format(id,\n                                                              key_node.text)\n",
    "                ret += '/' + id\n                if index == len(nodes)-1 and not instance:\n                    continue\n                if self.is_config and type != Tag.YTOOL:\n                    ret += predicates(default_ns, node)\n"),
   (G, "        def convert(default_ns, nodes, type):\n", "        def predicates(ns, node):\n            n = Composer(self.device, node)\n            if n.schema_node is None:\n                return ''\n            node_type = n.schema_node.get('type')\n            if node_type == 'leaf-list':\n                return '[text()=\"{}\"]'.format(node.text)\n            text = ''\n            if node_type == 'list':\n                for key in n.keys:\n                    key_node = node.find(key)\n                    if key_node is None:\n                        continue\n                    _, id = self.device.convert_tag(ns, key, dst=type)\n                    text += '[{}=\"{}\"]'.format(id, key_node.text)\n            return text\n\n        def convert(default_ns, nodes, type):\n")]),
 ('ref: fstring', '-', [(G, "                            ret += '[text()=\"{}\"]'.format(node.text)", "                            ret += f'[text()=\"{node.text}\"]'")]),
 ('ref: inuse extend', '-', [(F, "                default_nodes += self.default_in_use(child)\n", "                default_nodes.extend(self.default_in_use(child))\n")]),
 ('ref: inuse type var', '-', [(F, "        for child in schema_node:\n            if (\n                child.get('type') in ('leaf', 'leaf-list') and\n                child.get('default') is not None\n            ):", "        for child in schema_node.iterchildren():\n            default = child.get('default')\n            if (\n                child.get('type') in ('leaf', 'leaf-list') and\n                default is not None\n            ):")]),
 ('ref: inuse case helper', '-', [(F, "                default_case_node = child.find(tag)\n                if default_case_node is not None:\n                    default_nodes.append(default_case_node)\n                    default_nodes += self.default_in_use(default_case_node)", "                case = child.find(tag)\n                if case is None:\n                    continue\n                default_nodes += [case] + self.default_in_use(case)")]),
]
if __name__ == '__main__':
    pids = sys.argv[1].split(',') if len(sys.argv) > 1 else ['C29']
    sel = sys.argv[2] if len(sys.argv) > 2 else ''
    sys.exit(batch([c for c in CASES if sel in c[0]], pids))
