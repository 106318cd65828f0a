from lib import batch
K = 'calculator.py'
F = 'config.py'
R = 'ref.py'
CASES = [
 ('lt without strictness', 'C09', [(K, "        return self._node_le(self.etree1, self.etree2) and \\\n               not self._node_le(self.etree2, self.etree1)", "        return self._node_le(self.etree1, self.etree2)")]),
 ('eq one way', 'C09', [(K, "        return self._node_le(self.etree1, self.etree2) and \\\n               self._node_le(self.etree2, self.etree1)", "        return self._node_le(self.etree1, self.etree2) and \\\n               self._node_le(self.etree1, self.etree2)")]),
 ('ne and', 'C09', [(K, "not self._node_le(self.etree1, self.etree2) or", "not self._node_le(self.etree1, self.etree2) and")]),
 ('ge returns le', 'C09', [(F, "other.ele).ge", "other.ele).le")]),
 ('eq with other returns False', 'C09', [(F, "other.ele).eq\n        else:\n            _cmperror(self, other)", "other.ele).eq\n        else:\n            return False")]),
 ('delta eq', 'C09', [(F, "    def __eq__(self, other):\n        _cmperror(self, other)", "    def __eq__(self, other):\n        return self is other")]),
 ('bool inverted delta', 'C09', [(F, "        if self.config_src == self.config_dst:\n            return False", "        if self.config_src <= self.config_dst:\n            return False")]),
 ('le ignores only-self children', 'C10', [(K, "                # only in other, false\n                return False", "                # only in other, false\n                if child.text is None and len(child) == 0:\n                    continue\n                return False")]),
 ('le ignores attributes', 'C10', [(K, "            if a not in node_other.attrib or \\\n               node_self.attrib[a]", "            if a in node_other.attrib and \\\n               node_self.attrib[a]")]),
 ('le no recursion into list', 'C10', [(K, "            if not self._node_le(child, child_other):\n                return False", "            if child_type != 'list' and not self._node_le(child, child_other):\n                return False")]),
 ('order only lists', 'C10', [(K, "                    child_type == 'leaf-list' or\n                    child_type == 'list'):", "                    child_type == 'list'):")]),
 ('eldest instead of elder', 'C10', [(K, "immediate_elder_sibling = elder_siblings[0]", "immediate_elder_sibling = elder_siblings[-1]")]),
 ('following siblings', 'C10', [(K, "                        list(child_other.itersiblings(tag=child.tag,\n                                                   preceding=True))", "                        list(child_other.itersiblings(tag=child.tag))")]),
 ('pair list by first key', 'C10', [(K, "keys = self._get_list_keys(s_node)\n                key = build", "keys = self._get_list_keys(s_node)[:1]\n                key = build")]),
 ('dup accepted', 'C10', [(K, "            if key in twos:", "            if key in twos and key[1] is None:")]),
 ('twos not walked', 'C10', [(K, "        keys_in_order.extend([two for two in twos.keys() if two not in one_lookup])\n", "")]),
 ('peer any key', 'C10', [(K, "            if not self._same_text(s[0], o[0]):\n                return False\n        return True", "            if self._same_text(s[0], o[0]):\n                return True\n        return False")]),
 ('peer first key only', 'C10', [(K, "                               self._is_peer(keys, child_self, x),", "                               self._is_peer(keys[:1], child_self, x),")]),
 ('peer leaflist all', 'C10', [(K, "            return list(filter(lambda x:\n                               self._same_text(child_self, x),\n                               peers))", "            return peers")]),
 ('idref by text', 'C11', [(K, "            idref = IdentityRef(self.device, node)\n            return idref.default", "            return node.text")]),
 ('instance id by text', 'C11', [(K, "            instanceid = InstanceIdentifier(self.device, node)\n            return instanceid.default", "            return node.text")]),
 ('merge verbatim', 'C11', [(K, "            to_node.text = idref.converted", "            to_node.text = from_node.text")]),
 ('merge default', 'C11', [(K, "            to_node.text = instanceid.converted", "            to_node.text = instanceid.default")]),
 ('key parse with list schema', 'C11', [(K, "self._parse_text(find_one_child(node, k)) for", "self._parse_text(find_one_child(node, k), self.device.get_schema_node(node)) for")]),
 ('same_text raw', 'C11', [(K, "return self._parse_text(node1) == self._parse_text(node2)", "return node1.text == node2.text")]),
 ('idref default ns', 'C11', [(R, "            if None in node.nsmap:\n                return node.nsmap[None], id", "            if None in node.nsmap:\n                return self.node_url, id")]),
 ('compose default drop prefix', 'C11', [(R, "                return '{}:{}'.format(url_to_name(url, self._default_ns), id)\n        else:\n            # RFC7950 section 9.10.3", "                return id\n        else:\n            # RFC7950 section 9.10.3")]),
 ('merge keeps stale text', 'C11', [(K, "        if from_node.text is None:\n            to_node.text = None\n            return", "        if from_node.text is None:\n            return")]),
 # refactorings
 ('R: is_peer all()', '-', [(K, "            if not self._same_text(s[0], o[0]):\n                return False\n        return True", "            if self._same_text(s[0], o[0]):\n                continue\n            return False\n        return True")]),
 ('R: le loops', '-', [(K, "        for x in ['tag', 'tail']:\n            if node_self.__getattribute__(x) != node_other.__getattribute__(x):\n                return False", "        if node_self.tag != node_other.tag:\n            return False\n        if node_self.tail != node_other.tail:\n            return False")]),
 ('R: comprehension peers', '-', [(K, "            return list(filter(lambda x:\n                               self._same_text(child_self, x),\n                               peers))", "            return [p for p in peers if self._same_text(child_self, p)]"), (K, "            return list(filter(lambda x:\n                               self._is_peer(keys, child_self, x),\n                               peers))", "            return [p for p in peers if self._is_peer(keys, child_self, p)]")]),
 ('R: pair index helper', '-', [(K, """        twos = {}
        for child in node_two.getchildren():
            key = build_unique_id(child)
            if key in twos:
                raise ConfigError('not unique peer of node {} {}' \\
                                  .format(child, twos[key]))
            twos[key] = child
""", "        twos = index(node_two)\n"), (K, """        ones = {}
        for child in node_one.getchildren():
            key = build_unique_id(child)
            if key in ones:
                raise ConfigError('not unique peer of node {} {}' \\
                    .format(child, ones[key]))
            ones[key] = child
""", """        def index(parent):
            found = {}
            for kid in parent.getchildren():
                uid = build_unique_id(kid)
                if uid in found:
                    raise ConfigError('not unique peer of node {} {}' \\
                        .format(kid, found[uid]))
                found[uid] = kid
            return found

        ones = index(node_one)
""")]),
 ('iid id prev', 'C11', [(R, "                url, id = self.parse_prefixed_id(piece[0], self.node)\n                if url is not None:\n                    default_url = url\n", "                url, id = self.parse_prefixed_id(piece[0], self.node)\n                default_url = default_url or url\n")]),
 ('iid bare dropped', 'C11', [(R, "                if url is not None:\n                    default_url = url\n                if default_url is None:", "                default_url = url\n                if default_url is None:")]),
 ('iid pred default first', 'C11', [(R, "                    if url is None:\n                        url = default_url\n", "                    url = default_url or url\n")]),
 ('iid target self', 'C11', [(R, "                        converted_id = self.compose_prefixed_id(url, id,\n                                                                to_node=to_node)", "                        converted_id = self.compose_prefixed_id(url, id,\n                                                                to_node=self.node)")]),
 ('R: iid helper', '-', [(R, "                if url is not None:\n                    default_url = url\n                if default_url is None:", "                default_url = self._inherit(url, default_url)\n                if default_url is None:"), (R, "    def convert_str_list(", "    @staticmethod\n    def _inherit(url, default_url):\n        return url if url is not None else default_url\n\n    def convert_str_list(")]),
 ('R: iid unpack', '-', [(R, "        for piece in self.str_list:\n            if piece[1] <= 1:\n                new_str_list.append(piece)\n            elif piece[1] == 2:\n                if piece[0] == '[' or \\\n                   piece[0] == ']' or \\\n                   piece[0] == '=' or \\\n                   piece[0] == '.':", "        for piece in self.str_list:\n            text, phase = piece[0], piece[1]\n            if phase <= 1:\n                new_str_list.append(piece)\n            elif phase == 2:\n                if text in ('[', ']', '=', '.'):")]),
 ('R: dt var', '-', [(K, "        datatype = schema_node.get('basetype', schema_node.get('datatype'))\n        if datatype is not None and datatype[:11] == 'identityref':\n            idref = IdentityRef(self.device, node)\n            return idref.default", "        datatype = schema_node.get('basetype') or \\\n            schema_node.get('datatype') or ''\n        if datatype.startswith('identityref'):\n            return IdentityRef(self.device, node).default")]),
 ('R: dt helper', '-', [(K, "        datatype = schema_node.get('basetype', schema_node.get('datatype'))\n        if datatype is not None and datatype[:11] == 'identityref':\n            idref = IdentityRef(self.device, node)\n            return idref.default", "        datatype = self._datatype(schema_node)\n        if datatype is not None and datatype[:11] == 'identityref':\n            return IdentityRef(self.device, node).default"), (K, "    def _merge_text(self", "    def _datatype(self, schema_node):\n        datatype = schema_node.get('basetype')\n        if datatype is None:\n            datatype = schema_node.get('datatype')\n        return datatype\n\n    def _merge_text(self")]),
 ('R: cmp helper', '-', [(F, "        if isinstance(other, Config):\n            return BaseCalculator(self.device, self.ele, other.ele).lt\n        else:\n            _cmperror(self, other)", "        return self._calc(other).lt"), (F, "    def __le__(self, other):\n        if isinstance", "    def _calc(self, other):\n        if not isinstance(other, Config):\n            _cmperror(self, other)\n        return BaseCalculator(self.device, self.ele, other.ele)\n\n    def __le__(self, other):\n        if isinstance")]),
 ('R: user order flag', '-', [(K, "            if ordered_by == 'user' and (\n                    child_type == 'leaf-list' or\n                    child_type == 'list'):", "            user_ordered = ordered_by == 'user' and child_type in ('list', 'leaf-list')\n            if user_ordered:")]),
 ('R: ne as not eq', '-', [(K, "        return not self._node_le(self.etree1, self.etree2) or \\\n               not self._node_le(self.etree2, self.etree1)", "        return not self.eq")]),
 ('R: bool', '-', [(F, "        d = Config(self.device, None, False)\n        if self == d:\n            return False\n        else:\n            return True", "        return self != Config(self.device, None, False)")]),
 ('R: pairing loops', '-', [(K, "        return [(ones.get(uid, None), twos.get(uid, None)) for uid in keys_in_order]", "        pairs = []\n        for uid in keys_in_order:\n            pairs.append((ones.get(uid), twos.get(uid)))\n        return pairs")]),
]
if __name__ == '__main__':
    import sys
    pids = sys.argv[1].split(',') if len(sys.argv) > 1 else ['C06', 'C09', 'C10', 'C11']
    sys.exit(batch(CASES, pids))
