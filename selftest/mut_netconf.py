from lib import batch
N = 'netconf.py'
CASES = [
 ('leaf create overwrites', 'C03', [(N, """        elif this_operation == 'create':
            raise ConfigDeltaError('data-exists: try to create node {} but '
                                   'it already exists'
                                   .format(self.device.get_xpath(child_other)))
        elif (
            this_operation == 'delete' or
            this_operation == 'remove'
        ):
            parent_self = child_self.getparent()""", """        elif this_operation == 'create':
            self._merge_text(child_other, child_self)
        elif (
            this_operation == 'delete' or
            this_operation == 'remove'
        ):
            parent_self = child_self.getparent()""")]),
 ('after->before leaflist peer', 'C04', [(N, "                        sibling[0].addnext(child_self)", "                        sibling[0].addprevious(child_self)")]),
 ('before->after list new', 'C04', [(N, "                sibling.addprevious(e)", "                sibling.addnext(e)")]),
 ('first uses last sibling', 'C04', [(N, "                    siblings[0].addprevious(e)", "                    siblings[-1].addprevious(e)")]),
 ('last -> item 0', 'C04', [(N, "                    if siblings[-1] != child_self:\n                        siblings[-1].addnext(child_self)", "                    if siblings[-1] != child_self:\n                        siblings[0].addnext(child_self)")]),
 ('missing ref not error', 'C04', [(N, """                if not sibling:
                    path = self.device.get_xpath(child_other)
                    value = child_other.get(value_tag)
                    _inserterror('before', path, 'value', value)
                sibling[0].addprevious(self._del_attrib(e))""", """                if not sibling:
                    node_sum.append(self._del_attrib(e))
                else:
                    sibling[0].addprevious(self._del_attrib(e))""")]),
 ('strip forgotten in leaf-list after', 'C05', [(N, "                sibling[0].addnext(self._del_attrib(e))", "                sibling[0].addnext(e)")]),
 ('strip only root', 'C05', [('calculator.py', "for ele in element.iter():", "for ele in [element]:")]),
 ('strip only children', 'C05', [('calculator.py', "for ele in element.iter():", "for ele in element.iterchildren():")]),
 ('strip only operation', 'C05', [('calculator.py', "            for attribute in ele.attrib.keys():\n                del ele.attrib[attribute]", "            ele.attrib.pop(operation_tag, None)")]),
 ('strip skip insert', 'C05', [('calculator.py', "                del ele.attrib[attribute]", "                if attribute != insert_tag:\n                    del ele.attrib[attribute]")]),
 ('replace container not stripped', 'C05', [(N, "            parent_self.replace(child_self,\n                                self._del_attrib(deepcopy(child_other)))", "            parent_self.replace(child_self, deepcopy(child_other))", 0)]),
 ('merge list copies instead of recurse', 'C03', [(N, "        if this_operation == 'merge':\n            self.node_add(e, child_other)\n\n    def _node_add_with_peer_leaf(", "\n    def _node_add_with_peer_leaf(")]),
 ('remove np container w/ presence', 'C03', [(N, "                    s_node.get('type') == 'container' and\n                    s_node.get('presence') != 'true'\n                ):\n                    node_sum.remove", "                    s_node.get('type') == 'container'\n                ):\n                    node_sum.remove")]),
 ('remove empty list too', 'C03', [(N, "                    s_node.get('type') == 'container' and\n                    s_node.get('presence') != 'true'\n                ):\n                    node_sum.remove", "                    s_node.get('type') in ('container', 'leaf') and\n                    s_node.get('presence') != 'true'\n                ):\n                    node_sum.remove")]),
 ('container replace merges', 'C03', [(N, "        elif this_operation == 'replace':\n            parent_self.replace(child_self,\n                                self._del_attrib(deepcopy(child_other)))", "        elif this_operation == 'replace':\n            self.node_add(child_self, child_other)", 0)]),
 ('list remove skipped', 'C03', [(N, "this_operation == 'remove'\n        ):\n            parent_self.remove(child_self)", "this_operation == 'remove' and len(child_other) > 1\n        ):\n            parent_self.remove(child_self)", 2)]),
 ('keys not copied', 'C03', [(N, "                e.append(self._del_attrib(key_ele_self))", "                if not len(e): e.append(self._del_attrib(key_ele_self))")]),
 # behaviour-preserving
 ('R: comment', '-', [(N, "        e = deepcopy(child_other)\n        node_sum.append(self._del_attrib(e))", "        # copy\n        e = deepcopy(child_other)\n        pass\n        stripped = self._del_attrib(e)\n        node_sum.append(stripped)")]),
 ('R: clear', '-', [('calculator.py', "            for attribute in ele.attrib.keys():\n                del ele.attrib[attribute]", "            ele.attrib.clear()")]),
 ('R: list keys', '-', [('calculator.py', "ele.attrib.keys()", "list(ele.attrib)")]),
 ('R: pop four', '-', [('calculator.py', "            for attribute in ele.attrib.keys():\n                del ele.attrib[attribute]", "            for attribute in (operation_tag, insert_tag, value_tag, key_tag):\n                ele.attrib.pop(attribute, None)")]),
 ('R: dict dispatch', '-', [(N, """                    getattr(
                        self,
                        '_node_add_without_peer_{}'.format(
                            s_node.get('type').replace('-', '')
                        )
                    )(node_sum, child_other)""", """                    handlers = {'leaf': self._node_add_without_peer_leaf,
                                'leaf-list': self._node_add_without_peer_leaflist,
                                'container': self._node_add_without_peer_container,
                                'list': self._node_add_without_peer_list}
                    handlers[s_node.get('type')](node_sum, child_other)""")]),
 ('R: helper extraction remove', '-', [(N, """        elif (
            this_operation == 'delete' or
            this_operation == 'remove'
        ):
            parent_self = child_self.getparent()
            parent_self.remove(child_self)""", """        elif this_operation in ('delete', 'remove'):
            self._detach(child_self)"""), (N, "    def node_sub(self,", "    @staticmethod\n    def _detach(node):\n        parent = node.getparent()\n        parent.remove(node)\n\n    def node_sub(self,")]),
 ('R: single loop over pairs', '-', [(N, """        in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \\
            self._group_kids(node_sum, node_other)
        for child_self in in_s_not_in_o:
            pass

        for child_other in in_o_not_in_s:
            this_operation""", """        pairs = self._pair_children(node_sum, node_other)
        in_s_and_in_o = [(a, b) for a, b in pairs if a is not None and b is not None]
        in_o_not_in_s = [b for a, b in pairs if a is None]
        if not in_o_not_in_s and not in_s_and_in_o:
            return

        for child_other in in_o_not_in_s:
            this_operation""")]),
 ('R: next()', '-', [(N, """                sibling = [s for s in siblings
                           if s.text == child_other.get(value_tag)]
                if not sibling:
                    path = self.device.get_xpath(child_other)
                    value = child_other.get(value_tag)
                    _inserterror('after', path, 'value', value)
                sibling[0].addnext(self._del_attrib(e))""", """                wanted = child_other.get(value_tag)
                sibling = next((s for s in siblings if s.text == wanted), None)
                if sibling is None:
                    path = self.device.get_xpath(child_other)
                    _inserterror('after', path, 'value', wanted)
                sibling.addnext(self._del_attrib(e))""")]),
 ('R: for loop search', '-', [(N, """                sibling = [s for s in siblings
                           if s.text == child_other.get(value_tag)]
                if not sibling:
                    path = self.device.get_xpath(child_other)
                    value = child_other.get(value_tag)
                    _inserterror('after', path, 'value', value)
                sibling[0].addnext(self._del_attrib(e))""", """                wanted = child_other.get(value_tag)
                target = None
                for s in siblings:
                    if s.text == wanted:
                        target = s
                        break
                if target is None:
                    path = self.device.get_xpath(child_other)
                    _inserterror('after', path, 'value', wanted)
                target.addnext(self._del_attrib(e))""")]),
 ('R: for-else search', '-', [(N, """                sibling = [s for s in siblings
                           if s.text == child_other.get(value_tag)]
                if not sibling:
                    path = self.device.get_xpath(child_other)
                    value = child_other.get(value_tag)
                    _inserterror('after', path, 'value', value)
                sibling[0].addnext(self._del_attrib(e))""", """                wanted = child_other.get(value_tag)
                for s in siblings:
                    if s.text == wanted:
                        s.addnext(self._del_attrib(e))
                        break
                else:
                    path = self.device.get_xpath(child_other)
                    _inserterror('after', path, 'value', wanted)""")]),
 ('R: generic place helper', '-', [(N, """        if s_node.get('ordered-by') == 'user' and \\
           child_other.get(insert_tag) is not None:
            if child_other.get(insert_tag) == 'first':
                if siblings:
                    siblings[0].addprevious(e)
                else:
                    node_sum.append(e)
            elif child_other.get(insert_tag) == 'last':
                if siblings:
                    siblings[-1].addnext(e)
                else:
                    node_sum.append(e)
""", """        where = child_other.get(insert_tag)
        if s_node.get('ordered-by') == 'user' and where is not None:
            if where in ('first', 'last'):
                if not siblings:
                    node_sum.append(e)
                elif where == 'first':
                    siblings[0].addprevious(e)
                else:
                    siblings[-1].addnext(e)
""")]),
]
if __name__ == '__main__':
    import sys
    pids = sys.argv[1].split(',') if len(sys.argv) > 1 else ['C03', 'C04', 'C05']
    sys.exit(batch(CASES, pids))
