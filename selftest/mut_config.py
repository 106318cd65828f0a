from lib import batch
F = 'config.py'
CASES = [
 ('val: attr list missing key', 'C12', [(F, "for tag in operation_tag, insert_tag, value_tag, key_tag:", "for tag in operation_tag, insert_tag, value_tag:")]),
 ('val: attr only nonempty', 'C12', [(F, "            for tag in operation_tag, insert_tag, value_tag, key_tag:\n                if child.get(tag):", "            for tag in operation_tag, insert_tag, value_tag, key_tag:\n                if len(child) > 0 and child.get(tag):")]),
 ('val: keys first only', 'C12', [(F, "for key in c.keys:", "for key in c.keys[:1]:")]),
 ('val: keys break', 'C12', [(F, "                        raise ConfigError(\"missing key '{}' of the config \"\n                                          \"node {}\".format(key, p))", "                        raise ConfigError(\"missing key '{}' of the config \"\n                                          \"node {}\".format(key, p))\n                    break")]),
 ('val: keys leaf instead of list', 'C12', [(F, "            if c.schema_node.get('type') == 'list':\n                for key", "            if c.schema_node.get('type') == 'list' and len(node) > 1:\n                for key")]),
 ('val: deprecated always', 'C12', [(F, "                    child_schema_node.get('status') == 'deprecated' and\n                    self.remove_deprecated", "                    child_schema_node.get('status') == 'deprecated' or\n                    self.remove_deprecated")]),
 ('val: obsolete only leaf', 'C12', [(F, "                child_schema_node.get('status') == 'obsolete' or (", "                len(child) == 0 and child_schema_node.get('status') == 'obsolete' or (")]),
 ('val: no recursion into lists', 'C12', [(F, "            if len(child) > 0:\n                self._validate_node(child)", "            if len(child) > 0 and child_schema_node.get('type') != 'list':\n                self._validate_node(child)")]),
 ('val: presence', 'C12', [(F, "                child_schema_node.get('type') == 'container' and\n                child_schema_node.get('presence') != 'true'\n            ):", "                child_schema_node.get('type') == 'container'\n            ):", 1)]),
 ('val: unknown schema skipped', 'C12', [(F, """            child_schema_node = self.device.get_schema_node(child)
            if child_schema_node is None:
                raise ConfigError("schema node of the config node {} cannot "
                                  "be found:\\n{}"
                                  .format(self.device.get_xpath(child), self))
            for tag""", """            child_schema_node = self.device.get_schema_node(child)
            if child_schema_node is None:
                continue
            for tag""")]),
 ('val: ctor no validate for Config', 'C12', [(F, "        if validate:\n            self.validate_config()", "        if validate and self.parser is not None:\n            self.validate_config()")]),
 ('val: ctor default False', 'C12', [(F, "config=None, validate=True,", "config=None, validate=False,")]),
 ('val: roots not evaluated', 'C12', [(F, "        self.roots\n        self._validate_node(self.ele)", "        self._validate_node(self.ele)")]),
 ('val: roots skip', 'C12', [(F, "                else:\n                    raise ConfigError(\"unknown model URL '{}'\"\n                                      .format(ret.group(1)))", "                else:\n                    logger.warning(\"unknown model URL '{}'\"\n                                      .format(ret.group(1)))")]),
 ('val: list removed before recursion', 'C12', [(F, "            if len(child) > 0:\n                self._validate_node(child)\n\n            # clean up empty NP containers\n            if (\n                len(child) == 0 and", "            empty = len(child) == 0\n            if len(child) > 0:\n                self._validate_node(child)\n            # clean up empty NP containers\n            if (\n                empty and")]),
 ('trim: emptied container stays', 'C13', [(F, "            if len(child) > 0:\n                self._trim_defaults(child)\n\n            # clean up empty NP containers\n            if (\n                len(child) == 0 and", "            empty = len(child) == 0\n            if len(child) > 0:\n                self._trim_defaults(child)\n            # clean up empty NP containers\n            if (\n                empty and")]),
 ('trim: presence', 'C13', [(F, "                child_schema_node.get('type') == 'container' and\n                child_schema_node.get('presence') != 'true'\n            ):", "                child_schema_node.get('type') == 'container'\n            ):", 0)]),
 ('trim: set compare for user', 'C13', [(F, "                    values == defaults or", "                    sorted(values) == sorted(defaults) or")]),
 ('trim: any default', 'C13', [(F, "                    set(values) == set(defaults)", "                    set(values) <= set(defaults)")]),
 ('trim: set equal swap', 'C13', [(F, "child_schema_node.get('ordered-by', 'system') == 'user' and", "child_schema_node.get('ordered-by', 'user') == 'user' and"), ]),
 ('trim: key again', 'C13', [(F, "                not child_schema_node.get('is_key') and\n", "")]),
 ('trim: first only', 'C13', [(F, "                for child in node.findall(tag):\n                    node.remove(child)", "                node.remove(node.find(tag))")]),
 ('trim: mark inverted', 'C13', [(F, "            if leaf_list_defaults[tag]:", "            if not leaf_list_defaults[tag]:")]),
 ('trim: no check mark', 'C13', [(F, "            if leaf_list_defaults[tag]:\n                for child in node.findall(tag):\n                    node.remove(child)", "            for child in node.findall(tag):\n                node.remove(child)")]),
 ('trim: strip compare', 'C13', [(F, "                child.text == child_schema_node.get('default')", "                child.text in child_schema_node.get('default')")]),
 ('trim: values first', 'C13', [(F, "values = [n.text for n in node.findall(child.tag)]", "values = [n.text for n in node if n.text]")]),
 ('trim: list nonempty', 'C13', [(F, "                len(child) == 0 and\n                child_schema_node.get('type') == 'list'", "                len(child) <= 1 and\n                child_schema_node.get('type') == 'list'", 0)]),
 # refactors
 ('R: trim list(node)', '-', [(F, "        for child in node:\n\n            child_schema_node = self.device.get_schema_node(child)\n            if child_schema_node is None:\n                raise ConfigError(\"schema node of the config node {} cannot \"\n                                  \"be found:\\n{}\"\n                                  .format(self.device.get_xpath(child), self))\n\n            if len(child) > 0:\n                self._trim", "        for child in list(node):\n            child_schema_node = self.get_schema_node(child)\n            if child_schema_node is None:\n                raise ConfigError(\"schema node of the config node {} cannot \"\n                                  \"be found:\\n{}\"\n                                  .format(self.device.get_xpath(child), self))\n            if len(child):\n                self._trim")]),
 ('R: trim set of tags', '-', [(F, "                    leaf_list_defaults[child.tag] = True\n                else:\n                    leaf_list_defaults[child.tag] = False", "                    default_tags.add(child.tag)"), (F, "                child.tag not in leaf_list_defaults\n", "                child.tag not in default_tags\n"), (F, "        for tag in leaf_list_defaults:\n            if leaf_list_defaults[tag]:\n                for child in node.findall(tag):\n                    node.remove(child)", "        for tag in default_tags:\n            for child in node.findall(tag):\n                node.remove(child)"), (F, "        leaf_list_defaults = {}\n", "        default_tags = set()\n")]),
 ('R: trim bool mark', '-', [(F, """                if (
                    child_schema_node.get('ordered-by', 'system') == 'user' and
                    values == defaults or
                    child_schema_node.get('ordered-by', 'system') == 'system' and
                    set(values) == set(defaults)
                ):
                    leaf_list_defaults[child.tag] = True
                else:
                    leaf_list_defaults[child.tag] = False""", """                if child_schema_node.get('ordered-by', 'system') == 'user':
                    leaf_list_defaults[child.tag] = values == defaults
                else:
                    leaf_list_defaults[child.tag] = set(values) == set(defaults)""")]),
 ('R: trim helper', '-', [(F, """            if (
                len(child) == 0 and
                child_schema_node.get('type') == 'container' and
                child_schema_node.get('presence') != 'true'
            ):
                node.remove(child)

            # cleanup empty list instance
            elif (
                len(child) == 0 and
                child_schema_node.get('type') == 'list'
            ):
                logger.debug(
                    "empty list entry {} under {} is pruned"
                    .format(child.tag,
                            self.device.get_xpath(child.getparent())))
                node.remove(child)

            # cleanup leaf with""", """            if self._is_void(child, child_schema_node):
                node.remove(child)

            # cleanup leaf with"""), (F, "    def _trim_defaults(self, node):", "    def _is_void(self, child, schema):\n        if len(child) > 0:\n            return False\n        if schema.get('type') == 'list':\n            return True\n        return schema.get('type') == 'container' and schema.get('presence') != 'true'\n\n    def _trim_defaults(self, node):")]),
 ('R: val deferred removal', '-', [(F, """            # cleanup obsoleted or deprecated nodes
            elif (
                child_schema_node.get('status') == 'obsolete' or (
                    child_schema_node.get('status') == 'deprecated' and
                    self.remove_deprecated
                )
            ):
                node.remove(child)
""", """            # cleanup obsoleted or deprecated nodes
            elif (
                child_schema_node.get('status') == 'obsolete' or (
                    child_schema_node.get('status') == 'deprecated' and
                    self.remove_deprecated
                )
            ):
                doomed.append(child)
        for child in doomed:
            node.remove(child)
"""), (F, "        # skip the root node\n", "        doomed = []\n        # skip the root node\n")]),
 ('R: val keys comp', '-', [(F, """                for key in c.keys:
                    if node.find(key) is None:
                        p = self.device.get_xpath(node, instance=False)
                        raise ConfigError("missing key '{}' of the config "
                                          "node {}".format(key, p))""", """                missing = [key for key in c.keys if node.find(key) is None]
                if missing:
                    p = self.device.get_xpath(node, instance=False)
                    raise ConfigError("missing key '{}' of the config "
                                      "node {}".format(missing[0], p))""")]),
 ('R: val keys helper', '-', [(F, """                for key in c.keys:
                    if node.find(key) is None:
                        p = self.device.get_xpath(node, instance=False)
                        raise ConfigError("missing key '{}' of the config "
                                          "node {}".format(key, p))""", """                self._check_keys(node, c.keys)"""), (F, "    def _validate_node(self, node):", "    def _check_keys(self, node, keys):\n        for key in keys:\n            if node.find(key) is not None:\n                continue\n            p = self.device.get_xpath(node, instance=False)\n            raise ConfigError(\"missing key '{}' of the config \"\n                              \"node {}\".format(key, p))\n\n    def _validate_node(self, node):")]),
 ('R: val attr helper', '-', [(F, """            for tag in operation_tag, insert_tag, value_tag, key_tag:
                if child.get(tag):
                    raise ConfigError("the config node contains invalid "
                                      "attribute '{}': {}"
                                      .format(tag,
                                              self.device.get_xpath(child)))
""", """            bad = [t for t in (operation_tag, insert_tag, value_tag, key_tag) if child.get(t)]
            if bad:
                raise ConfigError("the config node contains invalid "
                                  "attribute '{}': {}"
                                  .format(bad[0],
                                          self.device.get_xpath(child)))
""")]),
 ('R: roots get', '-', [(F, "            if child.tag in self.device.roots:\n                roots[child.tag] = self.device.roots[child.tag]\n            else:", "            model = self.device.roots.get(child.tag)\n            if model is not None:\n                roots[child.tag] = model\n            else:")]),

 ('flt: keys dropped', 'C14', [(F, "if s_node.get('is_key') or child in filtrates:", "if child in filtrates:")]),
 ('flt: key check on config only', 'C14', [(F, "                s_node.get('type') == 'list'\n            ):\n                for child in node.getchildren()", "                s_node.get('type') == 'list' and len(node) > 2\n            ):\n                for child in node.getchildren()")]),
 ('flt: no recursion', 'C14', [(F, "                    elif child in ancestors:\n                        self._node_filter(child, ancestors, filtrates)", "                    elif child in ancestors:\n                        continue", 1)]),
 ('flt: selected pruned', 'C14', [(F, "        if node in filtrates:\n            return\n        elif node in ancestors:", "        if node in ancestors:")]),
 ('flt: parent only', 'C14', [(F, "                    ancestors |= set(list(node.iterancestors()))", "                    ancestors.add(node.getparent())")]),
 ('flt: whole when none', 'C14', [(F, "            if filtrates:\n                config._node_filter(config.ele, ancestors, filtrates)\n            else:\n                config.ele = etree.Element(config_tag, nsmap={'nc': nc_url})", "            if filtrates:\n                config._node_filter(config.ele, ancestors, filtrates)")]),
 ('flt: iteration skip', 'C14', [(F, "                    else:\n                        node.remove(child)", "                    elif len(child):\n                        node.remove(child)", 0)]),
 ('flt: selected and ancestors', 'C14', [(F, "                config._node_filter(config.ele, ancestors, filtrates)", "                config._node_filter(config.ele, ancestors,\n                                    filtrates.difference(ancestors))")]),
 ('R: flt update', '-', [(F, "                    ancestors |= set(list(node.iterancestors()))", "                    ancestors.update(node.iterancestors())")]),
 ('R: flt union', '-', [(F, "                    ancestors |= set(list(node.iterancestors()))", "                    ancestors = ancestors | set(node.iterancestors())")]),
 ('R: flt union meth', '-', [(F, "                    ancestors |= set(list(node.iterancestors()))", "                    ancestors = ancestors.union(node.iterancestors())")]),
 ('R: flt comp', '-', [(F, "            for node in results:\n                if etree.iselement(node):\n                    ancestors |= set(list(node.iterancestors()))\n                    filtrates.add(node)\n", "            filtrates = {n for n in results if etree.iselement(n)}\n            for node in filtrates:\n                ancestors.update(node.iterancestors())\n")]),
 ('flt: share', '-', [(F, "config = type(self)(self.device,  deepcopy(self.ele))", "config = type(self)(self.device, self)")]),
 ('R: flt merged loops', '-', [(F, '''            if node.tag != config_tag:
                s_node = self.get_schema_node(node)
            if (
                node.tag != config_tag and
                s_node.get('type') == 'list'
            ):
                for child in node.getchildren():
                    s_node = self.get_schema_node(child)
                    if s_node.get('is_key') or child in filtrates:
                        continue
                    elif child in ancestors:
                        self._node_filter(child, ancestors, filtrates)
                    else:
                        node.remove(child)
            else:
                for child in node.getchildren():
                    if child in filtrates:
                        continue
                    elif child in ancestors:
                        self._node_filter(child, ancestors, filtrates)
                    else:
                        node.remove(child)''', '''            is_list = node.tag != config_tag and \\
                self.get_schema_node(node).get('type') == 'list'
            for child in list(node):
                if child in filtrates:
                    continue
                if child in ancestors:
                    self._node_filter(child, ancestors, filtrates)
                elif not (is_list and self.get_schema_node(child).get('is_key')):
                    node.remove(child)''')]),
 ('R: flt comp', '-', [(F, '''            for node in results:
                if etree.iselement(node):
                    ancestors |= set(list(node.iterancestors()))
                    filtrates.add(node)
''', '''            filtrates = {n for n in results if etree.iselement(n)}
            ancestors = {a for n in filtrates for a in n.iterancestors()}
''')]),
 ('R: flt nocopy', '-', [(F, "config = type(self)(self.device,  deepcopy(self.ele))", "config = type(self)(self.device, self.ele)")]),
 ('R: flt update', '-', [(F, "ancestors |= set(list(node.iterancestors()))", "ancestors.update(node.iterancestors())")]),
]
if __name__ == '__main__':
    import sys
    pids = sys.argv[1].split(',') if len(sys.argv) > 1 else ['C12', 'C13', 'C14']
    sys.exit(batch(CASES, pids))
