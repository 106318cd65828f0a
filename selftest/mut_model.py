import sys
from lib import batch
F = 'model.py'
CASES = [
 ('20: added as deleted', 'C20', [(F, "ModelDiff.copy_subtree(ret, child, 'added')", "ModelDiff.copy_subtree(ret, child, 'deleted')")]),
 ('20: deleted lost', 'C20', [(F, "            peer = ModelDiff.get_peer(child.tag, node2)\n            if peer is None:\n", "            peer = ModelDiff.get_peer(child.tag, node2)\n            if peer is None and child.get('type') != 'leaf':\n")]),
 ('20: deleted wrong peer', 'C20', [(F, "            peer = ModelDiff.get_peer(child.tag, node2)\n", "            peer = ModelDiff.get_peer(child.tag, node1)\n")]),
 ('20: no loop', 'C20', [(F, "        for child in node1:\n            peer = ModelDiff.get_peer(child.tag, node2)\n            if peer is None:\n                ModelDiff.copy_subtree(ret, child, 'deleted')\n", "")]),
 ('20: copy shallow', 'C20', [(F, "ModelDiff.copy_subtree(ret, child, 'added')", "ModelDiff.copy_node(ret, child, 'added')")]),
 ('20: moved', 'C20', [(F, "ModelDiff.process_attrib(deepcopy(element), msg)", "ModelDiff.process_attrib(element, msg)")]),
 ('20: rec swapped', 'C20', [(F, "ModelDiff.compare_nodes(peer, child, ret_child)", "ModelDiff.compare_nodes(child, peer, ret_child)")]),
 ('20: rec flat', 'C20', [(F, "ModelDiff.compare_nodes(peer, child, ret_child)", "ModelDiff.compare_nodes(peer, child, ret)")]),
 ('20: no own', 'C20', [(F, "                        msg = '' if peer.attrib == child.attrib else 'modified'\n", "                        msg = ''\n")]),
 ('20: leaf unmarked', 'C20', [(F, "ModelDiff.copy_node(ret, child, 'modified')", "ModelDiff.copy_node(ret, child, '')")]),
 ('20: leaf-list', 'C20', [(F, "if child.attrib['type'] in ['leaf-list', 'leaf']:", "if child.attrib['type'] in ['leaf-list', 'leaf', 'container']:")]),
 ('20: eq one way', 'C20', [(F, "        if ModelDiff.node_less(node1, node2) and \\\n           ModelDiff.node_less(node2, node1):", "        if ModelDiff.node_less(node1, node2):")]),
 ('20: eq or', 'C20', [(F, "        if ModelDiff.node_less(node1, node2) and \\\n", "        if ModelDiff.node_less(node1, node2) or \\\n")]),
 ('20: less attrs', 'C20', [(F, "            if a not in node2.attrib or \\\n               node1.attrib[a] != node2.attrib[a]:\n                return False\n", "            if a not in node2.attrib:\n                return False\n")]),
 ('20: less status', 'C20', [(F, "            if a not in node2.attrib or \\\n               node1.attrib[a] != node2.attrib[a]:\n", "            if a == 'status':\n                continue\n            if a not in node2.attrib or \\\n               node1.attrib[a] != node2.attrib[a]:\n")]),
 ('20: less first', 'C20', [(F, "                if not ModelDiff.node_less(child, peers[0]):\n                    return False\n", "                return ModelDiff.node_less(child, peers[0])\n")]),
 ('20: less no rec', 'C20', [(F, "                if not ModelDiff.node_less(child, peers[0]):\n                    return False\n", "                if child.tag != peers[0].tag:\n                    return False\n")]),
 ('20: trim removes', 'C20', [(F, "            empty = ModelDiff.trim(child, msg)\n            if diff == msg:\n                continue\n", "            if diff == msg:\n                continue\n            if diff:\n                parent.remove(child)\n                continue\n            empty = ModelDiff.trim(child, msg)\n")]),
 ('20: trim live', 'C20', [(F, "        for child in list(parent):\n            diff", "        for child in parent:\n            diff")]),
 ('20: trim result', 'C20', [(F, "        return len(list(parent)) == 0", "        return len(list(parent)) <= 1")]),
 ('20: trim rpc', 'C20', [(F, "            empty = ModelDiff.trim(child, msg)\n", "            if child.get('type') == 'rpc':\n                continue\n            empty = ModelDiff.trim(child, msg)\n")]),
 ('20: trim mark', 'C20', [(F, "            elif diff:\n                del child.attrib['diff']\n", "")]),
 ('20: view tree', 'C20', [(F, "        tree_added = deepcopy(self.tree)", "        tree_added = self.tree")]),
 ('20: view kind', 'C20', [(F, "self.trim(tree_modified, 'modified')", "self.trim(tree_modified, 'added')")]),
 ('20: view full', 'C20', [(F, "return self.emit_tree(tree_deleted)", "return self.emit_tree(self.tree)")]),
 ('20: view none', 'C20', [(F, "        if self.trim(tree_deleted, 'deleted'):\n            return None\n        else:", "        if not self.trim(tree_deleted, 'deleted'):\n            return None\n        else:")]),
 ('20: init swap', 'C20', [(F, "self.compare_nodes(model1.tree, model2.tree, self.tree)", "self.compare_nodes(model2.tree, model1.tree, self.tree)")]),
 ('20: init names', 'C20', [(F, "            if id(self.model1) != id(self.model2):", "            if self.model1.name != self.model2.name:")]),
 ('20: bool', 'C20', [(F, "        if list(self.tree):\n            return True", "        if len(list(self.tree)) > 1:\n            return True")]),
 ('20: mark own', 'C20', [(F, "            if msg:\n                node.attrib['diff'] = msg\n        return element", "        if msg:\n            element.attrib['diff'] = msg\n        return element")]),
 ('20: attr lost', 'C20', [(F, "        known_attrib = ['type', 'access', 'mandatory', 'presence', 'values',", "        known_attrib = ['type', 'mandatory', 'presence', 'values',")]),
 ('20: is_type', 'C20', [(F, "            if type_info == 'rpc' or type_info == 'notification':\n                return False\n            return True\n\n        ret = []\n        for root in [i for i in tree if is_type(i, type)]:\n            for i in root.iter():\n                line = Model", "            if type_info == 'rpc':\n                return False\n            return True\n\n        ret = []\n        for root in [i for i in tree if is_type(i, type)]:\n            for i in root.iter():\n                line = Model")]),
 ('20: no marks', 'C20', [(F, "                if i.get('diff') is not None:\n                    line += self.get_diff_str(i, room_consumed)\n", "")]),
 ('20: notif', 'C20', [(F, "        notification_lines = self.emit_children(tree, type='notification')", "        notification_lines = self.emit_children(tree, type='rpc')")]),
 ('20: name', 'C20', [(F, "        if element.get('diff') == 'added':\n            return self.model2", "        if element.get('diff') == 'added':\n            return self.model1")]),
 # refactorings
 ('R: 20 helper', '-', [(F, "                    if child.attrib['type'] in ['leaf-list', 'leaf']:\n                        ModelDiff.copy_node(ret, child, 'modified')\n                    else:\n                        msg = '' if peer.attrib == child.attrib else 'modified'\n                        ret_child = ModelDiff.copy_node(ret, child, msg)\n                        ModelDiff.compare_nodes(peer, child, ret_child)\n", "                    ModelDiff.changed(peer, child, ret)\n"), (F, "    @staticmethod\n    def copy_subtree(", "    @staticmethod\n    def changed(peer, child, ret):\n        if child.get('type') == 'leaf' or child.get('type') == 'leaf-list':\n            ModelDiff.copy_node(ret, child, 'modified')\n            return\n        same = peer.attrib == child.attrib\n        node = ModelDiff.copy_node(ret, child, '' if same else 'modified')\n        ModelDiff.compare_nodes(peer, child, node)\n\n    @staticmethod\n    def copy_subtree(")]),
 ('R: 20 order', '-', [(F, "            peer = ModelDiff.get_peer(child.tag, node1)\n            if peer is None:\n                ModelDiff.copy_subtree(ret, child, 'added')\n            else:\n                if ModelDiff.node_equal(peer, child):\n                    continue\n                else:\n", "            peer = ModelDiff.get_peer(child.tag, node1)\n            if peer is None:\n                ModelDiff.copy_subtree(ret, child, 'added')\n                continue\n            if True:\n                if not ModelDiff.node_equal(child, peer):\n")]),
 ('R: 20 equal', '-', [(F, "        if ModelDiff.node_less(node1, node2) and \\\n           ModelDiff.node_less(node2, node1):\n            return True\n        else:\n            return False\n", "        return ModelDiff.node_less(node2, node1) and \\\n            ModelDiff.node_less(node1, node2)\n")]),
 ('R: 20 less any', '-', [(F, "        for a in node1.attrib:\n            if a not in node2.attrib or \\\n               node1.attrib[a] != node2.attrib[a]:\n                return False\n", "        if any(a not in node2.attrib or v != node2.attrib[a]\n               for a, v in node1.attrib.items()):\n            return False\n")]),
 ('R: 20 less get', '-', [(F, "            if a not in node2.attrib or \\\n               node1.attrib[a] != node2.attrib[a]:\n                return False\n", "            if node1.get(a) != node2.get(a):\n                return False\n")]),
 ('R: 20 peer', '-', [(F, "        peers = node.findall(tag)\n        if len(peers) < 1:\n            return None\n        elif len(peers) > 1:\n            raise ModelError(\"not unique tag '{}'\".format(tag))\n        else:\n            return peers[0]\n", "        peers = node.findall(tag)\n        if not peers:\n            return None\n        if len(peers) == 1:\n            return peers[0]\n        raise ModelError(\"not unique tag '{}'\".format(tag))\n")]),
 ('R: 20 trim', '-', [(F, "            empty = ModelDiff.trim(child, msg)\n            if diff == msg:\n                continue\n            if empty:\n                parent.remove(child)\n            elif diff:\n                del child.attrib['diff']\n        return len(list(parent)) == 0", "            empty = ModelDiff.trim(child, msg)\n            if diff != msg:\n                if empty:\n                    parent.remove(child)\n                elif diff is not None:\n                    child.attrib.pop('diff')\n        return not list(parent)")]),
 ('R: 20 view', '-', [(F, "        tree_added = deepcopy(self.tree)\n        if self.trim(tree_added, 'added'):\n            return None\n        else:\n            return self.emit_tree(tree_added)\n", "        return self._view('added')\n\n    def _view(self, kind):\n        tree = deepcopy(self.tree)\n        return None if ModelDiff.trim(tree, kind) else self.emit_tree(tree)\n")]),
 ('R: 20 bool', '-', [(F, "        if list(self.tree):\n            return True\n        else:\n            return False\n\n    @property\n    def added", "        return len(self.tree) > 0\n\n    @property\n    def added")]),
 ('R: 20 emit', '-', [(F, "        for root in [i for i in tree if is_type(i, type)]:\n            for i in root.iter():\n                line = Model.get_depth_str(i, type=type)\n", "        for root in tree:\n            if not is_type(root, type):\n                continue\n            for i in root.iter():\n                line = Model.get_depth_str(i, type=type)\n")]),
 ('R: 20 marks', '-', [(F, "            for attrib in node.attrib.keys():\n                if attrib not in known_attrib:\n                    del node.attrib[attrib]\n            if msg:\n                node.attrib['diff'] = msg\n", "            for attrib in [a for a in node.attrib if a not in known_attrib]:\n                del node.attrib[attrib]\n            if msg:\n                node.set('diff', msg)\n")]),
 ('19: ns of module', 'C19', [(F, "self.module_namespaces[child.i_module.i_modulename] +", "self.module_namespaces[module.arg] +")]),
 ('19: access mode', 'C19', [(F, "        self.set_access(child, n, mode)\n", "        self.set_access(child, n, None)\n")]),
 ('19: status', 'C19', [(F, "sm.arg in ['deprecated', 'obsolete']", "sm.arg in ['deprecated']")]),
 ('19: status any', 'C19', [(F, "if sm is not None and sm.arg in ['deprecated', 'obsolete']:", "if sm is not None:")]),
 ('19: default one', 'C19', [(F, """n.set('default', ",".join(map(lambda x: x.arg, sm)))""", "n.set('default', sm[0].arg)")]),
 ('19: default leaf', 'C19', [(F, "if sm is not None and len(sm) > 0:", "if sm is not None and len(sm) > 0 and child.keyword == 'leaf':")]),
 ('19: default two', 'C19', [(F, "if sm is not None and len(sm) > 0:", "if sm is not None and len(sm) > 1:")]),
 ('19: ordered', 'C19', [(F, "            if child.keyword == 'leaf-list':\n                sm = child.search_one('ordered-by')\n                if sm is not None and sm.arg == 'user':\n                    n.set('ordered-by', 'user')\n", "")]),
 ('19: ordered sys', 'C19', [(F, "            sm = child.search_one('ordered-by')\n            if sm is not None and sm.arg == 'user':\n                n.set('ordered-by', 'user')\n        elif", "            sm = child.search_one('ordered-by')\n            if sm is not None:\n                n.set('ordered-by', 'user')\n        elif")]),
 ('19: key', 'C19', [(F, "n.set('key', sm.arg)", "n.set('key', sm.arg.split()[0])")]),
 ('19: presence', 'C19', [(F, "            sm = child.search_one('presence')\n            if sm is not None:", "            sm = child.search_one('presence')\n            if sm is not None and sm.arg == 'true':")]),
 ('19: choice mandatory', 'C19', [(F, "            sm = child.search_one('mandatory')\n            if sm is not None and sm.arg == 'true':\n                n.set('mandatory', 'true')\n            cases", "            cases")]),
 ('19: mandatory', 'C19', [(F, "                sm is not None and sm.arg == 'true' or\n                hasattr(child, 'i_is_key')\n", "                sm is not None or\n                hasattr(child, 'i_is_key')\n")]),
 ('19: mandatory key', 'C19', [(F, "                sm is not None and sm.arg == 'true' or\n                hasattr(child, 'i_is_key')\n", "                sm is not None and sm.arg == 'true'\n")]),
 ('19: is_key', 'C19', [(F, "            if hasattr(child, 'i_is_key'):\n                n.set('is_key', 'true')", "            if hasattr(child, 'i_is_key') and mode is None:\n                n.set('is_key', 'true')")]),
 ('19: kids', 'C19', [(F, "            for c in child.i_children:\n", "            for c in child.i_children:\n                if c.keyword == 'anyxml':\n                    continue\n")]),
 ('19: kids flat', 'C19', [(F, "                    self.depict_a_schema_node(module, n, c, mode=mode)", "                    self.depict_a_schema_node(module, parent if child.keyword == 'case' else n, c, mode=mode)")]),
 ('19: mode lost', 'C19', [(F, "                    self.depict_a_schema_node(module, n, c, mode=mode)", "                    self.depict_a_schema_node(module, n, c)")]),
 ('19: output', 'C19', [(F, "c.keyword in ['input', 'output']:", "c.keyword in ['input']:")]),
 ('19: access order', 'C19', [(F, "            mode in ['output', 'notification'] or\n            statement.keyword", "            mode in ['output'] or\n            statement.keyword")]),
 ('19: access rpc', 'C19', [(F, "            mode in ['input', 'rpc'] or\n", "            mode in ['rpc'] or\n")]),
 ('19: access default', 'C19', [(F, "        elif hasattr(statement, 'i_config') and statement.i_config:", "        elif getattr(statement, 'i_config', True):")]),
 ('19: access config', 'C19', [(F, "        elif hasattr(statement, 'i_config') and statement.i_config:", "        elif hasattr(statement, 'i_config'):")]),
 ('19: datatype base', 'C19', [(F, "datatype = sm.arg + \":\" + idn_base.arg", "datatype = sm.arg")]),
 ('19: values', 'C19', [(F, "            if type_values:\n", "            if type_values and sm.arg != 'union':\n")]),
 ('19: union', 'C19', [(F, "            if v:\n                vlist.append(v)", "            if v and v not in vlist[:0] and type.arg != 'boolean':\n                vlist.append(v)")]),
 ('19: union first', 'C19', [(F, "                vlist.append(v)", "                vlist = [v]")]),
 ('19: typedef', 'C19', [(F, "            type_statement.i_is_derived is False and\n            type_statement.i_typedef is not None\n", "            type_statement.i_typedef is not None and\n            type_statement.arg == 'enumeration'\n")]),
 ('19: no depends', 'C19', [(F, "required_module_set = imports | depends", "required_module_set = imports")]),
 ('19: and', 'C19', [(F, "required_module_set = imports | depends", "required_module_set = imports & depends")]),
 ('19: no own', 'C19', [(F, "        required_module_set.add(module)\n", "")]),
 ('19: no reset', 'C19', [(F, "        self.context.internal_reset()\n        for m", "        for m")]),
 ('19: no validate', 'C19', [(F, "        self.context.validate_context()\n        vm", "        vm")]),
 ('19: sub', 'C19', [(F, "            raise ValueError(\"Module '{}' is a {} which belongs to '{}'. \"\n                             \"Please compile '{}' instead.\"\n                             .format(module, vm.keyword,\n                                     vm.i_including_modulename,\n                                     vm.i_including_modulename))\n", "            logger.warning('submodule')\n")]),
 ('19: ns prefix', 'C19', [(F, "namespace.set('prefix', m_statement.i_prefix)", "namespace.set('prefix', m_statement.arg)")]),
 ('19: ns own', 'C19', [(F, "            if m_statement.keyword == 'module':\n                namespace", "            if m_statement.keyword == 'module' and m_statement.arg in imports:\n                namespace")]),
 ('19: late ns', 'C19', [(F, "        self._write_to_cache(module, st)\n\n        return Model(st)", "        model = Model(st)\n        self._write_to_cache(module, st)\n        return model")]),
 ('19: cache vm', 'C19', [(F, "        self._write_to_cache(module, st)\n", "        self._write_to_cache(vm.i_prefix, st)\n")]),
 ('19: rpc', 'C19', [(F, "                self.depict_a_schema_node(vm, st, child, mode='rpc')", "                self.depict_a_schema_node(vm, st, child)")]),
 ('19: notif', 'C19', [(F, "            if child.keyword == 'notification':\n                self.depict_a_schema_node(vm, st, child, mode='notification')", "            if child.keyword == 'notification' and child.i_children:\n                self.depict_a_schema_node(vm, st, child, mode='notification')")]),
 ('19: dep imports', 'C19', [(F, "                               for i in m.findall('./imports/import')))\n        depends", "                               for i in m.findall('./includes/include')))\n        depends")]),
 ('19: dep include', 'C19', [(F, "            if list(filter(lambda i: i.get('module') == module,\n                           m.findall('./includes/include'))):\n                depends.add(m.get('id'))\n", "")]),
 ('19: dep own', 'C19', [(F, "                depends.add(m.get('id'))\n        return", "                depends.add(module)\n        return")]),
 ('19: identity skip', 'C19', [(F, "                        if curr_idn not in derived:\n                            derived.append(curr_idn)", "                        if not derived:\n                            derived.append(curr_idn)")]),
 ('19: identity local', 'C19', [(F, "                            b_idn = m_statement.arg + ':' + base_idn.arg", "                            b_idn = base_idn.arg")]),
 ('19: cache lower', 'C19', [(F, "        cached_name = os.path.join(self.dir_yang, name + \".xml\")\n        write_xml", "        cached_name = os.path.join(self.dir_yang, name.lower() + \".xml\")\n        write_xml")]),
 ('19: prefixes', 'C19', [(F, "self.urls = {v: k for k, v in self.prefixes.items()}", "self.urls = dict(self.prefixes)")]),
 ('19: leafref', 'C19', [(F, "                        if prefix == curprefix:\n                            target.append(name)\n                        else:", "                        if prefix == curprefix:\n                            if name != '..':\n                                target.append(name)\n                        else:")]),
 ('R: 19 default', '-', [(F, """        if sm is not None and len(sm) > 0:
            n.set('default', ",".join(map(lambda x: x.arg, sm)))""", """        if sm:
            n.set('default', ",".join([x.arg for x in sm]))""")]),
 ('R: 19 helper', '-', [(F, "            sm = child.search_one('ordered-by')\n            if sm is not None and sm.arg == 'user':\n                n.set('ordered-by', 'user')\n        elif", "            self._ordered(child, n)\n        elif"), (F, "                sm = child.search_one('ordered-by')\n                if sm is not None and sm.arg == 'user':\n                    n.set('ordered-by', 'user')\n        elif", "                self._ordered(child, n)\n        elif"), (F, "    @staticmethod\n    def set_access(", "    @staticmethod\n    def _ordered(statement, node):\n        order = statement.search_one('ordered-by')\n        if order is None or order.arg != 'user':\n            return\n        node.set('ordered-by', order.arg)\n\n    @staticmethod\n    def set_access(")]),
 ('R: 19 one loop', '-', [(F, "        for child in vm.i_children:\n            if child.keyword in statements.data_definition_keywords:\n                self.depict_a_schema_node(vm, st, child)\n        for child in vm.i_children:\n            if child.keyword == 'rpc':\n                self.depict_a_schema_node(vm, st, child, mode='rpc')\n        for child in vm.i_children:\n            if child.keyword == 'notification':\n                self.depict_a_schema_node(vm, st, child, mode='notification')\n", "        for child in vm.i_children:\n            if child.keyword in statements.data_definition_keywords:\n                self.depict_a_schema_node(vm, st, child)\n        for keyword in ('rpc', 'notification'):\n            for child in vm.i_children:\n                if child.keyword == keyword:\n                    self.depict_a_schema_node(vm, st, child, mode=keyword)\n")]),
 ('R: 19 filter', '-', [(F, "        for child in vm.i_children:\n            if child.keyword == 'rpc':\n                self.depict_a_schema_node(vm, st, child, mode='rpc')\n", "        for child in [c for c in vm.i_children if c.keyword == 'rpc']:\n            self.depict_a_schema_node(vm, st, child, mode=child.keyword)\n")]),
 ('R: 19 mode', '-', [(F, "                if mode == 'rpc' and c.keyword in ['input', 'output']:\n                    self.depict_a_schema_node(module, n, c, mode=c.keyword)\n                else:\n                    self.depict_a_schema_node(module, n, c, mode=mode)", "                inner = mode\n                if mode == 'rpc' and (c.keyword == 'input' or\n                                      c.keyword == 'output'):\n                    inner = c.keyword\n                self.depict_a_schema_node(module, n, c, inner)")]),
 ('R: 19 access', '-', [(F, "        if (\n            mode in ['input', 'rpc'] or", "        access = self_access = 'read-only'\n        if (\n            mode in ['input', 'rpc'] or"), (F, "        elif hasattr(statement, 'i_config') and statement.i_config:\n            node.set('access', 'read-write')\n        else:\n            node.set('access', 'read-only')", "        else:\n            if getattr(statement, 'i_config', False):\n                access = 'read-write'\n            node.set('access', access)")]),
 ('R: 19 deps', '-', [(F, "        for m in list(filter(lambda i: i.get('id') == module,\n                             dependencies.findall('./module'))):\n            imports.update(set(i.get('module')\n                               for i in m.findall('./imports/import')))\n", "        for m in dependencies.findall('./module'):\n            if m.get('id') != module:\n                continue\n            for i in m.findall('./imports/import'):\n                imports.add(i.get('module'))\n")]),
 ('R: 19 deps any', '-', [(F, "            if list(filter(lambda i: i.get('module') == module,\n                           m.findall('./imports/import'))):\n                depends.add(m.get('id'))\n            if list(filter(lambda i: i.get('module') == module,\n                           m.findall('./includes/include'))):\n                depends.add(m.get('id'))\n", "            used = m.findall('./imports/import') + \\\n                m.findall('./includes/include')\n            if any(i.get('module') == module for i in used):\n                depends.add(m.get('id'))\n")]),
 ('R: 19 required', '-', [(F, "        required_module_set = imports | depends\n        required_module_set.add(module)\n        self.context.internal_reset()\n        for m in required_module_set:", "        self.context.internal_reset()\n        for m in imports | depends | {module}:")]),
 ('R: 19 load helper', '-', [(F, "            if os.path.isfile(modulefile):\n                with open(modulefile, 'r', encoding='utf-8') as f:\n                    text = f.read()\n                kwargs = {", "            if not os.path.isfile(modulefile):\n                continue\n            if True:\n                with open(modulefile, 'r', encoding='utf-8') as f:\n                    text = f.read()\n                kwargs = {")]),
 ('R: 19 values dict', '-', [(F, "        if type_statement.arg == 'boolean':\n            return 'true|false'\n        if type_statement.arg == 'union':\n            return self.type_union_values(type_statement)\n", "        if type_statement.arg == 'union':\n            return self.type_union_values(type_statement)\n        if type_statement.arg == 'boolean':\n            return '|'.join(['true', 'false'])\n")]),
 ('R: 19 union', '-', [(F, "        vlist = []\n        for type in type_statement.search('type'):\n            v = self.type_values(type)\n            if v:\n                vlist.append(v)\n        return '|'.join(vlist)", "        values = [self.type_values(t) for t in type_statement.search('type')]\n        return '|'.join([v for v in values if v])")]),
 ('R: 19 convert', '-', [(F, "        for ns in self.tree.findall('namespace'):\n            self.tree.remove(ns)", "        for child in list(self.tree):\n            if child.tag == 'namespace':\n                self.tree.remove(child)")]),
]
if __name__ == '__main__':
    batch(CASES, sys.argv[1].split(','))
