from lib import batch
N = 'netconf.py'
CASES = [
 ('new list without op', 'C06', [(N, "            elif self.preferred_create == 'create':\n                self.set_create_operation(child_self)", "            elif self.preferred_create == 'create' and len(child_self) == 0:\n                self.set_create_operation(child_self)")]),
 ('delete w/o keys', 'C06', [(N, "                    key_node = child_other.find(key)\n                    e = etree.SubElement(child_self, key, nsmap=key_node.nsmap)\n                    e.text = key_node.text", "                    key_node = child_other.find(key)\n                    e = etree.SubElement(child_self, key, nsmap=key_node.nsmap)")]),
 ('delete only first key', 'C06', [(N, "                for key in keys:\n                    key_node = child_other.find(key)", "                for key in keys[:1]:\n                    key_node = child_other.find(key)", 1)]),
 ('leaflist deletion without value', 'C06', [(N, "                child_self.set(operation_tag, self.preferred_delete)\n                self._merge_text(child_other, child_self)", "                child_self.set(operation_tag, self.preferred_delete)", 1)]),
 ('hard-coded delete', 'C06', [(N, "            else:\n                child_self.set(operation_tag, self.preferred_delete)\n        for child_self, child_other in in_s_and_in_o:\n            s_node", "            else:\n                child_self.set(operation_tag, 'delete')\n        for child_self, child_other in in_s_and_in_o:\n            s_node")]),
 ('one-sided equality container', 'C06', [(N, "            elif s_node.get('type') == 'container':\n                if self._node_le(child_self, child_other) and \\\n                   self._node_le(child_other, child_self):\n                    node_self.remove(child_self)\n                    node_other.remove(child_other)\n                else:\n                    if (", "            elif s_node.get('type') == 'container':\n                if self._node_le(child_self, child_other):\n                    node_self.remove(child_self)\n                    node_other.remove(child_other)\n                else:\n                    if (")]),
 ('key leaf dropped', 'C06', [(N, "                    if not s_node.get('is_key'):\n                        node_self.remove(child_self)\n                        node_other.remove(child_other)\n                else:\n                    if self.preferred_replace", "                    if True:\n                        node_self.remove(child_self)\n                        node_other.remove(child_other)\n                else:\n                    if self.preferred_replace")]),
 ('case exclusion ignores same case', 'C06', [(N, "                    if choice_node not in choice_nodes or \\\n                       s_node.getparent() == choice_nodes[choice_node]:", "                    if choice_node not in choice_nodes:")]),
 ('case exclusion dropped', 'C06', [(N, "                    if choice_node not in choice_nodes or \\\n                       s_node.getparent() == choice_nodes[choice_node]:\n                        node_self.append(child_self)", "                    node_self.append(child_self)")]),
 ('depth not increased', 'C06 C07', [(N, "self.node_sub(child_self, child_other, depth=depth+1)", "self.node_sub(child_self, child_other, depth=depth)", 1)]),
 ('np container delete with delete', 'C06 C07', [(N, "                s_node.get('type') == 'container' and\n                s_node.get('presence') != 'true' and\n                self.preferred_delete == 'delete'\n            ):\n                self.set_delete_operation(child_self, child_other)", "                s_node.get('type') == 'container' and\n                self.preferred_delete == 'delete'\n            ):\n                self.set_delete_operation(child_self, child_other)", 0)]),
 ('set_create on np', 'C06', [(N, "            schema_node.get('type') == 'container' and\n            schema_node.get('presence') != 'true'\n        ):\n            default_xpaths", "            schema_node.get('type') == 'container' and\n            schema_node.get('presence') != 'true' and len(node) > 1\n        ):\n            default_xpaths")]),
 ('leaf-list order always ignored', 'C06', [(N, "        if s_node.get('ordered-by') == 'user':\n            if (\n                [self", "        if s_node.get('ordered-by') == 'user' and len(list_1) == 1:\n            if (\n                [self")]),
 ('preferred_delete validation', 'C06', [(N, "if preferred_delete in ['delete', 'remove']:", "if preferred_delete in ['delete', 'remove', 'merge']:")]),
 ('add_ attribute replace list', 'C07', [(N, "                        self.diff_type == 'replace' and\n                        self.replace_depth == depth + 1", "                        self.diff_type == 'replace' and\n                        self.replace_depth == depth", 1)]),
 ('user-ordered list not registered', 'C08', [(N, "            elif s_node.get('type') == 'list':\n                if s_node.get('ordered-by') == 'user' and \\\n                   s_node.tag not in ordered_by_user:\n                    ordered_by_user[s_node.tag] = self._get_list_keys(s_node)\n                if self._node_le(child_self, child_other) and \\\n                   self._node_le(child_other, child_self):\n                    if s_node.get('ordered-by') == 'user':\n                        for child in child_self.getchildren():", "            elif s_node.get('type') == 'list':\n                if self._node_le(child_self, child_other) and \\\n                   self._node_le(child_other, child_self):\n                    if s_node.get('ordered-by') == 'user':\n                        for child in child_self.getchildren():", 0)]),
 ('precursor wrong', 'C08', [(N, "                        precursor = sequence[i - 1]", "                        precursor = sequence[0]", 0)]),
 ('value vs key swapped', 'C08', [(N, "                            item.set(key_tag, ''.join(id_list))", "                            item.set(value_tag, ''.join(id_list))", 0)]),
 ('only added scope', 'C08', [(N, "            scope_s = in_s_not_in_o + in_s_and_in_o", "            scope_s = in_s_not_in_o", 0)]),
 ('last instead of after', 'C08', [(N, "                        item.set(insert_tag, 'after')", "                        item.set(insert_tag, 'last')", 0)]),
 # behaviour-preserving
 ('R: enumerate', '-', [(N, "                for item in sequence:\n                    # modifying", "                for i, item in enumerate(sequence):\n                    # modifying", 0), (N, "                    i = sequence.index(item)\n                    if i == 0:", "                    if i == 0:", 0)]),
 ('R: helper for keys', '-', [(N, "                for key in keys:\n                    key_node = child_other.find(key)\n                    e = etree.SubElement(child_self, key, nsmap=key_node.nsmap)\n                    e.text = key_node.text", "                self._kk(child_self, child_other, keys)"), (N, "    def set_create_operation(", "    @staticmethod\n    def _kk(dst, src, names):\n        for nm in names:\n            k = src.find(nm)\n            sub = etree.SubElement(dst, nm, nsmap=k.nsmap)\n            sub.text = k.text\n\n    def set_create_operation(")]),
 ('R: le helper', '-', [(N, "                if self._node_le(child_self, child_other) and \\\n                   self._node_le(child_other, child_self):\n                    node_self.remove(child_self)\n                    node_other.remove(child_other)\n                else:\n                    if (", "                if self._eqn(child_self, child_other):\n                    node_self.remove(child_self)\n                    node_other.remove(child_other)\n                else:\n                    if (", 0), (N, "    def set_create_operation(", "    def _eqn(self, a, b):\n        return self._node_le(b, a) and self._node_le(a, b)\n\n    def set_create_operation(")]),
 ('R: types var', '-', [(N, "        for child_self, child_other in in_s_and_in_o:\n            s_node = self.device.get_schema_node(child_self)\n            if s_node.get('type') == 'leaf':\n                if self._same_text(child_self, child_other):\n                    if not s_node.get('is_key'):\n                        node_self.remove(child_self)\n                        node_other.remove(child_other)\n                else:\n                    if self.preferred_replace", "        for child_self, child_other in in_s_and_in_o:\n            s_node = self.device.get_schema_node(child_self)\n            kind = s_node.get('type')\n            if kind == 'leaf':\n                if self._same_text(child_self, child_other):\n                    if s_node.get('is_key'):\n                        continue\n                    node_self.remove(child_self)\n                    node_other.remove(child_other)\n                else:\n                    if self.preferred_replace")]),
 ('R: prev var loop', '-', [(N, """                for item in sequence:
                    # modifying the namespace mapping of a node is not possible
                    # in lxml. See https://bugs.launchpad.net/lxml/+bug/555602
                    # if 'yang' not in item.nsmap:
                    #     item.nsmap['yang'] = yang_url
                    i = sequence.index(item)
                    if i == 0:
                        item.set(insert_tag, 'first')
                    else:
                        item.set(insert_tag, 'after')
                        precursor = sequence[i - 1]
""", """                precursor = None
                for current in sequence:
                    item, before, precursor = current, precursor, current
                    if before is None:
                        item.set(insert_tag, 'first')
                    else:
                        precursor = before
                        item.set(insert_tag, 'after')
""", 0), (N, "                            item.set(key_tag, ''.join(id_list))", "                            item.set(key_tag, ''.join(id_list))\n                    precursor = item", 0)]),
 ('R: create_op split', '-', [(N, "            if self.diff_type == 'replace':\n                child_self.set(operation_tag, 'replace')\n            elif self.preferred_create == 'replace':\n                child_self.set(operation_tag, self.preferred_create)\n            elif self.preferred_create == 'create':\n                self.set_create_operation(child_self)", "            if self.diff_type == 'replace' or self.preferred_create == 'replace':\n                child_self.set(operation_tag, 'replace')\n            elif self.preferred_create == 'create':\n                self.set_create_operation(child_self)")]),
 ('R: delete op var', '-', [(N, "            else:\n                child.set(operation_tag, 'delete')", "            elif True:\n                op = 'delete'\n                child.set(operation_tag, op)")]),
]
if __name__ == '__main__':
    import sys
    pids = sys.argv[1].split(',') if len(sys.argv) > 1 else ['C03', 'C05', 'C06', 'C07', 'C08']
    sys.exit(batch(CASES, pids))
