import sys
from lib import batch
F = 'manager.py'
K = 'composer.py'
CASES = [
 ('key: tag only', 'C16', [(F, "config_path_str = ' '.join(path)", "config_path_str = config_node.tag")]),
 ('key: last two', 'C16', [(F, "config_path_str = ' '.join(path)", "config_path_str = ' '.join(path[-2:])")]),
 ('key: no root', 'C16', [(F, "config_path_str = ' '.join(path)", "config_path_str = ' '.join(path[1:])")]),
 ('key: parent path', 'C16', [(F, "config_path_str = ' '.join(path)", "config_path_str = ' '.join(path[:-1])")]),
 ('cache parent', 'C16', [(F, "            self.nodes[config_path_str] = child\n            return child\n        else:", "            self.nodes[config_path_str] = parent\n            return child\n        else:")]),
 ('children first', 'C16', [(F, "if len(children) == 1:\n                return children[0]\n            elif len(children) > 1:", "if len(children) >= 1:\n                return children[0]\n            elif len(children) > 1:")]),
 ('choice accepted', 'C16', [(F, "if i.attrib['type'] != 'choice' and \\\n                           i.attrib['type'] != 'case' and \\\n", "if i.attrib['type'] != 'choice' and \\\n")]),
 ('any descendant', 'C16', [(F, "                           is_parent(parent, i)]", "                           True]")]),
 ('le', 'C16', [(F, "if not ids_1 < ids_2:", "if not ids_1 <= ids_2:")]),
 ('gt', 'C16', [(F, "if not ids_1 < ids_2:", "if not ids_2 < ids_1:")]),
 ('minus swapped', 'C16', [(F, "for i in ids_2 - ids_1:", "for i in ids_1 - ids_2:")]),
 ('case not transparent', 'C16', [(F, "                   ancestors[i].attrib['type'] != 'choice' and \\\n                   ancestors[i].attrib['type'] != 'case':", "                   ancestors[i].attrib['type'] != 'choice':")]),
 ('container transparent', 'C16', [(F, "                   ancestors[i].attrib['type'] != 'case':", "                   ancestors[i].attrib['type'] != 'case' and \\\n                   ancestors[i].attrib['type'] != 'container':")]),
 ('always true', 'C16', [(F, "                   ancestors[i].attrib['type'] != 'case':\n                    return False", "                   ancestors[i].attrib['type'] != 'case':\n                    return True")]),
 ('no parent', 'C16', [(F, "parent = self.get_schema_node(config_node.getparent())", "parent = self.models[n.model_name].tree")]),
 ('missing none', 'C16', [(F, """            if child is None:
                raise ConfigError("unable to locate a root""", """            if child is None and path is None:
                raise ConfigError("unable to locate a root""")]),
 ('no purge', 'C16', [(F, """            self.nodes = {k: v for k, v in self.nodes.items()
                          if self.roots[k.split(' ')[0]] != m.name}
""", "")]),
 ('purge inverted', 'C16', [(F, "if self.roots[k.split(' ')[0]] != m.name}", "if self.roots[k.split(' ')[0]] == m.name}")]),
 ('purge nothing', 'C16', [(F, "                          if self.roots[k.split(' ')[0]] != m.name}", "                          }")]),
 ('purge wrong branch', 'C16', [(F, "        if m.name in self.models:\n", "        if m.name not in self.models:\n")]),
 ('register by arg', 'C16', [(F, "self.models[m.name] = m", "self.models[model] = m")]),
 ('no overwrite', 'C16', [(F, "        self.models[m.name] = m", "        if m.name not in self.models:\n            self.models[m.name] = m")]),
 ('setdefault', 'C16', [(F, "        self.models[m.name] = m\n        return m", "        return self.models.setdefault(m.name, m)")]),
 ('path order', 'C16', [(K, "path = list(reversed([a.tag for a in self.node.iterancestors()]))", "path = [a.tag for a in self.node.iterancestors()]")]),
 ('path skip2', 'C16', [(K, "return path[1:] + [self.node.tag]", "return path[2:] + [self.node.tag]")]),
 ('path skip0', 'C16', [(K, "return path[1:] + [self.node.tag]", "return path + [self.node.tag]")]),
 ('path filter', 'C16', [(K, "[a.tag for a in self.node.iterancestors()]))", "[a.tag for a in self.node.iterancestors() if len(a) > 1]))")]),
 ('model last', 'C16', [(K, "            return self.device.roots[self.path[0]]", "            return self.device.roots[self.path[-1]]")]),
 ('model by url', 'C16', [(K, """                if ret.group(1) in url_to_name:
                    raise ModelMissing(""", """                if ret.group(1) in url_to_name:
                    return url_to_name[ret.group(1)]
                    raise ModelMissing(""")]),
 ('roots filter', 'C16', [(F, "roots.update({r: model.name for r in model.roots})", "roots.update({r: model.name for r in model.roots if model.prefix in r})")]),
 ('roots first', 'C16', [(F, "roots.update({r: model.name for r in model.roots})", "roots.update({r: model.name for r in model.roots[:1]})")]),
 ('is_config first', 'C16', [(K, "root = list(self.node.iterancestors())[-1]", "root = list(self.node.iterancestors())[0]")]),
 ('is_config inverted', 'C16', [(K, "if root.tag == config_tag:", "if root.tag != config_tag:")]),
 ('schema parent', 'C16', [(K, "self._schema_node = self.device.get_schema_node(self.node)", "self._schema_node = self.device.get_schema_node(self.node.getparent())")]),
 ('keys sep', 'C16', [(K, "keys.split()]", "keys.split(' ')]")]),
 ('keys sep re', 'C16', [(K, "keys.split()]", "re.split(' +', keys)]")]),
 ('keys first', 'C16', [(K, "keys.split()]", "keys.split()[:1]]")]),
 ('keys sorted', 'C16', [(K, "key_tags = [find_key_tag(key) for key in keys]", "key_tags = [find_key_tag(key) for key in sorted(keys)]")]),
 ('keys set', 'C16', [(K, "return [key_tag for key_tag in key_tags if key_tag is not None]", "return sorted(set(key_tag for key_tag in key_tags if key_tag is not None))")]),
 # refactors
 ('R: key tuple', '-', [(F, "config_path_str = ' '.join(path)", "separator = ' '\n        config_path_str = separator.join(path)")]),
 ('R: cache get', '-', [(F, "        if config_path_str in self.nodes:\n            return self.nodes[config_path_str]\n", "        cached = self.nodes.get(config_path_str)\n        if cached is not None:\n            return cached\n")]),
 ('R: not in', '-', [(F, "                   ancestors[i].attrib['type'] != 'choice' and \\\n                   ancestors[i].attrib['type'] != 'case':", "                   ancestors[i].get('type') not in ('choice', 'case'):")]),
 ('R: all', '-', [(F, """            for i in ids_2 - ids_1:
                if ancestors[i] is not node1 and \\
                   ancestors[i].attrib['type'] != 'choice' and \\
                   ancestors[i].attrib['type'] != 'case':
                    return False
            return True""", """            return all(ancestors[i] is node1 or
                       ancestors[i].attrib['type'] in ['choice', 'case']
                       for i in ids_2 - ids_1)""")]),
 ('R: climb', '-', [(F, """            ancestors = {id(a): a for a in node2.iterancestors()}
            ids_1 = set([id(a) for a in node1.iterancestors()])
            ids_2 = set([id(a) for a in node2.iterancestors()])
            if not ids_1 < ids_2:
                return False
            for i in ids_2 - ids_1:
                if ancestors[i] is not node1 and \\
                   ancestors[i].attrib['type'] != 'choice' and \\
                   ancestors[i].attrib['type'] != 'case':
                    return False
            return True""", """            for ancestor in node2.iterancestors():
                if ancestor is node1:
                    return True
                if ancestor.attrib['type'] not in ['choice', 'case']:
                    return False
            return False""")]),
 ('R: while', '-', [(F, """            ancestors = {id(a): a for a in node2.iterancestors()}
            ids_1 = set([id(a) for a in node1.iterancestors()])
            ids_2 = set([id(a) for a in node2.iterancestors()])
            if not ids_1 < ids_2:
                return False
            for i in ids_2 - ids_1:
                if ancestors[i] is not node1 and \\
                   ancestors[i].attrib['type'] != 'choice' and \\
                   ancestors[i].attrib['type'] != 'case':
                    return False
            return True""", """            node = node2.getparent()
            while node is not None and node is not node1:
                if node.attrib['type'] not in ['choice', 'case']:
                    return False
                node = node.getparent()
            return node is node1""")]),
 ('R: merged branches', '-', [(F, """            self.nodes[config_path_str] = child
            return child
        else:
            tree""", """        else:
            tree"""), (F, """                                  .format(config_node.tag, n.model_name))
            self.nodes[config_path_str] = child
            return child""", """                                  .format(config_node.tag, n.model_name))
        self.nodes[config_path_str] = child
        return child""")]),
 ('R: loop children', '-', [(F, """            children = [i for i in parent.iter(tag=tag) \\
                        if i.attrib['type'] != 'choice' and \\
                           i.attrib['type'] != 'case' and \\
                           is_parent(parent, i)]
""", """            children = []
            for i in parent.iter(tag=tag):
                if i.attrib['type'] in ('choice', 'case'):
                    continue
                if is_parent(parent, i):
                    children.append(i)
""")]),
 ('R: early none', '-', [(F, """            if len(children) == 1:
                return children[0]
            elif len(children) > 1:
                if parent""", """            if not children:
                return None
            if len(children) > 1:
                if parent"""), (F, """                                     .format(self.get_xpath(parent), tag))
            else:
                return None
""", """                                     .format(self.get_xpath(parent), tag))
            return children[0]
""")]),
 ('R: purge helper', '-', [(F, """            self.nodes = {k: v for k, v in self.nodes.items()
                          if self.roots[k.split(' ')[0]] != m.name}
""", """            self._forget(m.name)
"""), (F, "    def execute(self, operation", """    def _forget(self, name):
        roots = self.roots
        self.nodes = {k: v for k, v in self.nodes.items()
                      if roots[k.split(' ')[0]] != name}

    def execute(self, operation""")]),
 ('R: purge loop', '-', [(F, """            self.nodes = {k: v for k, v in self.nodes.items()
                          if self.roots[k.split(' ')[0]] != m.name}
""", """            for k in list(self.nodes):
                if self.roots[k.split(' ')[0]] == m.name:
                    del self.nodes[k]
""")]),
 ('R: purge all', '-', [(F, """            self.nodes = {k: v for k, v in self.nodes.items()
                          if self.roots[k.split(' ')[0]] != m.name}
""", """            self.nodes = {}
""")]),
 ('R: purge clear', '-', [(F, """            self.nodes = {k: v for k, v in self.nodes.items()
                          if self.roots[k.split(' ')[0]] != m.name}
""", """            self.nodes.clear()
""")]),
 ('R: path insert', '-', [(K, """        path = list(reversed([a.tag for a in self.node.iterancestors()]))
        return path[1:] + [self.node.tag]""", """        path = [self.node.tag]
        for ancestor in self.node.iterancestors():
            path.insert(0, ancestor.tag)
        return path[1:]""")]),
 ('R: path slice', '-', [(K, """        path = list(reversed([a.tag for a in self.node.iterancestors()]))
        return path[1:] + [self.node.tag]""", """        path = [a.tag for a in self.node.iterancestors()][::-1]
        return path[1:] + [self.node.tag]""")]),
 ('R: path slice2', '-', [(K, """        path = list(reversed([a.tag for a in self.node.iterancestors()]))
        return path[1:] + [self.node.tag]""", """        ancestors = list(self.node.iterancestors())[:-1]
        path = [a.tag for a in reversed(ancestors)]
        path.append(self.node.tag)
        return path""")]),
 ('R: model var', '-', [(K, """        if self.path[0] in self.device.roots:
            return self.device.roots[self.path[0]]
        else:""", """        root_tag = self.path[0]
        roots = self.device.roots
        if root_tag in roots:
            return roots[root_tag]
        else:""")]),
 ('R: roots loop', '-', [(F, "            roots.update({r: model.name for r in model.roots})", "            for r in model.roots:\n                roots[r] = model.name")]),
 ('R: roots items', '-', [(F, "        for model in self.models.values():\n            roots.update({r: model.name for r in model.roots})\n        return roots", "        return {r: model.name for model in self.models.values()\n                for r in model.roots}") , (F, "        roots = {}\n        return {r", "        return {r")]),
 ('R: is_config return', '-', [(K, "        if root.tag == config_tag:\n            return True\n        else:\n            return False", "        return root.tag == config_tag")]),
 ('R: keys loop', '-', [(K, """            keys = [split_tag(i, Tag.JSON_PREFIX)[1]
                    for i in keys.split()]
            key_tags = [find_key_tag(key) for key in keys]
            return [key_tag for key_tag in key_tags if key_tag is not None]""", """            ret = []
            for i in keys.split():
                key_tag = find_key_tag(split_tag(i, Tag.JSON_PREFIX)[1])
                if key_tag is not None:
                    ret.append(key_tag)
            return ret""")]),
 ('R: keys re', '-', [(K, "keys.split()]", "re.split(r'\\s+', keys.strip())]")]),
 ('R: keys guard', '-', [(K, "        if self.schema_node.get('type') == 'list':\n            keys =", "        if self.schema_node.get('type') != 'list':\n            return []\n        if True:\n            keys ="), (K, "            return [key_tag for key_tag in key_tags if key_tag is not None]\n        else:\n            return []\n", "            return [key_tag for key_tag in key_tags if key_tag is not None]\n")]),
 # C21
 ('ex: no check get', 'C21', [(F, "            if models is not None:\n                check_models(models)\n                roots = [k for k, v in self.roots.items()\n                         if v in models and\n                            (get", "            if models is not None:\n                roots = [k for k, v in self.roots.items()\n                         if v in models and\n                            (get"), (F, "            check_models(models)\n            filter_ele", "            filter_ele"), (F, "            check_models([model_name])\n", "")]),
 ('ex: check inverted', 'C21', [(F, "missing_models = set(models) - set(self.models_loaded)", "missing_models = set(self.models_loaded) - set(models)")]),
 ('ex: get only rw', 'C21', [(F, "                            (get_access_type(v, k) == 'read-write' or\n                             get_access_type(v, k) == 'read-only')]", "                            get_access_type(v, k) == 'read-write']")]),
 ('ex: get all', 'C21', [(F, "                         if v in models and\n                            (get_access_type(v, k) == 'read-write' or\n                             get_access_type(v, k) == 'read-only')]", "                         if v in models]")]),
 ('ex: get-config all', 'C21', [(F, "                         if v in models and\n                            get_access_type(v, k) == 'read-write']", "                         if v in models]")]),
 ('ex: get-config ro', 'C21', [(F, "                            get_access_type(v, k) == 'read-write']", "                            get_access_type(v, k) != 'write-only']")]),
 ('ex: other models', 'C21', [(F, "                         if v in models and\n                            get_access_type(v, k) == 'read-write']", "                         if get_access_type(v, k) == 'read-write']")]),
 ('ex: empty filter', 'C21', [(F, "                if not roots:\n                    raise ValueError('no writable", "                if roots is None:\n                    raise ValueError('no writable")]),
 ('ex: empty filter2', 'C21', [(F, "                if not roots:\n                    raise ValueError('no readable", "                if roots is None:\n                    raise ValueError('no readable")]),
 ('ex: no filter', 'C21', [(F, "                    raise ValueError('no writable roots found in your ' \\\n                                     'models: {}'.format(str(models)[1:-1]))\n                kwargs['filter'] = build_filter(models, roots)", "                    raise ValueError('no writable roots found in your ' \\\n                                     'models: {}'.format(str(models)[1:-1]))\n                if 'filter' not in kwargs:\n                    kwargs['filter'] = build_filter(models, roots)")]),
 ('ex: first root', 'C21', [(F, "            for root in roots:\n                etree.SubElement(filter_ele, root)", "            for root in roots:\n                etree.SubElement(filter_ele, 'root')")]),
 ('ex: xpath filter', 'C21', [(F, "etree.Element(filter_tag, type='subtree')", "etree.Element(filter_tag, type='xpath')")]),
 ('ex: startup', 'C21', [(F, "args = tuple(['running'])", "args = tuple(['startup'])")]),
 ('ex: source or', 'C21', [(F, "if not args and 'source' not in kwargs:", "if not args or 'source' not in kwargs:")]),
 ('ex: source always', 'C21', [(F, "if not args and 'source' not in kwargs:", "if 'source' not in kwargs:")]),
 ('ex: target always', 'C21', [(F, "            if 'target' not in kwargs and \\\n", "            if \\\n")]),
 ('ex: target candidate', 'C21', [(F, "               'urn:ietf:params:netconf:capability:candidate:1.0' not in \\\n               self.server_capabilities and \\\n", "")]),
 ('ex: target no wr', 'C21', [(F, " and \\\n               'urn:ietf:params:netconf:capability:writable-running:1.0' in \\\n               self.server_capabilities:", ":")]),
 ('ex: target or', 'C21', [(F, "               self.server_capabilities and \\\n               'urn:ietf:params:netconf:capability:writable-running:1.0' in", "               self.server_capabilities or \\\n               'urn:ietf:params:netconf:capability:writable-running:1.0' in")]),
 ('ex: target startup', 'C21', [(F, "kwargs['target'] = 'running'", "kwargs['target'] = 'startup'")]),
 ('ex: config raw', 'C21', [(F, "                args_list[0] = args[0].ele\n", "")]),
 ('ex: rest lost', 'C21', [(F, "                args = tuple(args_list)", "                args = (args[0].ele,)")]),
 ('ex: no ns', 'C21', [(F, "        reply = super().execute(cls, *args, **kwargs)\n        if isinstance(reply, operations.rpc.RPCReply):\n            reply.ns = self._get_ns(reply._root)", "        reply = super().execute(cls, *args, **kwargs)\n        if isinstance(reply, operations.rpc.RPCReply):\n            reply.ns = {}")]),
 ('ex: op raw', 'C21', [(F, "reply = super().execute(cls, *args, **kwargs)", "reply = super().execute(operation, *args, **kwargs)")]),
 ('ex: no return', 'C21', [(F, "            reply.ns = self._get_ns(reply._root_ele)\n        return reply\n\n    def take", "            reply.ns = self._get_ns(reply._root_ele)\n            return reply\n\n    def take")]),
 ('ex: check late', 'C21', [(F, "        reply = super().execute(cls, *args, **kwargs)\n", "        reply = super().execute(cls, *args, **kwargs)\n        if cls == operations.retrieve.Get and kwargs.get('models'):\n            check_models(kwargs['models'])\n"), (F, "            models = pop_models()\n            if models is not None:\n                check_models(models)\n                roots = [k for k, v in self.roots.items()\n                         if v in models and\n                            (get", "            models = None\n            if models is not None:\n                check_models(models)\n                roots = [k for k, v in self.roots.items()\n                         if v in models and\n                            (get")]),
 ('tn: block', 'C21', [(F, "super().take_notification(block=block, timeout=timeout)", "super().take_notification(block=True, timeout=timeout)")]),
 # C22
 ('xc: no validate', 'C22', [(F, "config = Config(self, reply, validate=True,", "config = Config(self, reply, validate=False,")]),
 ('xc: no deprecated', 'C22', [(F, "config = Config(self, reply, validate=True,\n                        remove_deprecated=remove_deprecated)", "config = Config(self, reply, validate=True)")]),
 ('xc: top only', 'C22', [(F, "                elif len(child) > 0:\n                    remove_read_only(child)\n", "")]),
 ('xc: not lists', 'C22', [(F, "                elif len(child) > 0:\n                    remove", "                elif schema_node.get('type') == 'container':\n                    remove")]),
 ('xc: leaf only', 'C22', [(F, "                if schema_node.get('access') == 'read-only':\n                    parent", "                if schema_node.get('access') == 'read-only' and len(child) == 0:\n                    parent")]),
 ('xc: not rw', 'C22', [(F, "                if schema_node.get('access') == 'read-only':\n                    parent", "                if schema_node.get('access') != 'read-write':\n                    parent")]),
 ('xc: one per parent', 'C22', [(F, "                    parent.remove(child)\n", "                    parent.remove(child)\n                    break\n")]),
 ('xc: deeper', 'C22', [(F, "                elif len(child) > 0:\n", "                elif len(child) > 1:\n")]),
 ('xc: never called', 'C22', [(F, "        remove_read_only(config.ele)\n", "")]),
 ('xc: parent schema', 'C22', [(F, "                schema_node = self.get_schema_node(child)\n                if schema_node.get('access') == 'read-only':\n                    parent", "                schema_node = self.get_schema_node(child)\n                if schema_node.getparent().get('access') == 'read-only':\n                    parent")]),
 ('R: xc list', '-', [(F, "            for child in parent.getchildren():\n                schema_node = self", "            for child in list(parent):\n                schema_node = self")]),
 ('R: xc always down', '-', [(F, "                elif len(child) > 0:\n", "                else:\n")]),
 ('R: xc deferred', '-', [(F, """            for child in parent.getchildren():
                schema_node = self.get_schema_node(child)
                if schema_node.get('access') == 'read-only':
                    parent.remove(child)
                elif len(child) > 0:
                    remove_read_only(child)
""", """            read_only = []
            for child in parent:
                schema_node = self.get_schema_node(child)
                if schema_node.get('access') == 'read-only':
                    read_only.append(child)
                elif len(child) > 0:
                    remove_read_only(child)
            for child in read_only:
                parent.remove(child)
""")]),
 ('R: xc method', '-', [(F, """        def remove_read_only(parent):
            for child in parent.getchildren():
                schema_node = self.get_schema_node(child)
                if schema_node.get('access') == 'read-only':
                    parent.remove(child)
                elif len(child) > 0:
                    remove_read_only(child)

        config""", """        config"""), (F, "        remove_read_only(config.ele)\n        return config\n", """        self._remove_read_only(config.ele)
        return config

    def _remove_read_only(self, parent):
        for child in parent.getchildren():
            schema_node = self.get_schema_node(child)
            if schema_node.get('access') == 'read-only':
                parent.remove(child)
                continue
            if len(child):
                self._remove_read_only(child)
""")]),
 ('R: xc positional', '-', [(F, "config = Config(self, reply, validate=True,\n                        remove_deprecated=remove_deprecated)", "config = Config(self, reply, remove_deprecated=remove_deprecated)")]),
 ('R: ex in tuple', '-', [(F, "                            (get_access_type(v, k) == 'read-write' or\n                             get_access_type(v, k) == 'read-only')]", "                            get_access_type(v, k) in ('read-write', 'read-only')]")]),
 ('R: ex helper', '-', [(F, """                check_models(models)
                roots = [k for k, v in self.roots.items()
                         if v in models and
                            get_access_type(v, k) == 'read-write']
                if not roots:
                    raise ValueError('no writable roots found in your ' \\
                                     'models: {}'.format(str(models)[1:-1]))
                kwargs['filter'] = build_filter(models, roots)
""", """                set_filter(models, ['read-write'], 'writable')
"""), (F, """                check_models(models)
                roots = [k for k, v in self.roots.items()
                         if v in models and
                            (get_access_type(v, k) == 'read-write' or
                             get_access_type(v, k) == 'read-only')]
                if not roots:
                    raise ValueError('no readable roots found in your ' \\
                                     'models: {}'.format(str(models)[1:-1]))
                kwargs['filter'] = build_filter(models, roots)
""", """                set_filter(models, ['read-write', 'read-only'], 'readable')
"""), (F, "        # allow for operation string type", """        def set_filter(models, access, text):
            check_models(models)
            roots = []
            for root, name in self.roots.items():
                if name not in models:
                    continue
                if get_access_type(name, root) in access:
                    roots.append(root)
            if not roots:
                raise ValueError('no {} roots found in your models: {}'
                                 .format(text, str(models)[1:-1]))
            kwargs['filter'] = build_filter(models, roots)

        # allow for operation string type""")]),
 ('R: ex tuple args', '-', [(F, """                args_list = list(args)
                args_list[0] = args[0].ele
                args = tuple(args_list)
""", """                args = (args[0].ele,) + args[1:]
""")]),
 ('R: ex source kw', '-', [(F, "args = tuple(['running'])", "args = ('running',)")]),
 ('R: ex caps', '-', [(F, """            if 'target' not in kwargs and \\
               'urn:ietf:params:netconf:capability:candidate:1.0' not in \\
               self.server_capabilities and \\
               'urn:ietf:params:netconf:capability:writable-running:1.0' in \\
               self.server_capabilities:
                kwargs['target'] = 'running'
""", """            prefix = 'urn:ietf:params:netconf:capability:'
            has_candidate = prefix + 'candidate:1.0' in \\
                self.server_capabilities
            has_running = prefix + 'writable-running:1.0' in \\
                self.server_capabilities
            if 'target' not in kwargs and has_running and not has_candidate:
                kwargs['target'] = 'running'
""")]),
 ('R: ex isinstance', '-', [(F, "        if type(operation) is str:", "        if isinstance(operation, str):")]),
 ('R: ex in table', '-', [(F, """            try:
                cls = manager.OPERATIONS[operation]
            except KeyError:
                supported_operations = list(manager.OPERATIONS.keys())
                raise""", """            cls = manager.OPERATIONS.get(operation)
            if cls is None:
                supported_operations = list(manager.OPERATIONS.keys())
                raise""")]),
 ('R: ex reply helper', '-', [(F, """        reply = super().execute(cls, *args, **kwargs)
        if isinstance(reply, operations.rpc.RPCReply):
            reply.ns = self._get_ns(reply._root)
        if getattr(transport, 'notify', None) and \\
           isinstance(reply, transport.notify.Notification):
            reply.ns = self._get_ns(reply._root_ele)
        return reply
""", """        return self._with_ns(super().execute(cls, *args, **kwargs))

    def _with_ns(self, reply):
        if isinstance(reply, operations.rpc.RPCReply):
            reply.ns = self._get_ns(reply._root)
        if getattr(transport, 'notify', None) and \\
           isinstance(reply, transport.notify.Notification):
            reply.ns = self._get_ns(reply._root_ele)
        return reply
""")]),
]
if __name__ == '__main__':
    batch(CASES, sys.argv[1].split(','))
