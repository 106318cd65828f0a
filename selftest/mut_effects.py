import sys
from lib import batch
N = 'netconf.py'
F = 'config.py'
M = 'manager.py'
K = 'calculator.py'
CP = '''    new_child = etree.SubElement(new_parent, element.tag,
                                 attrib=element.attrib,
                                 nsmap=element.nsmap)
    if element.text is not None:
        new_child.text = element.text
    for subelement in element.iterchildren(tag=etree.Element):
        _copy_element(new_child, subelement)
'''
RC = '''        ret = etree.Element(config_tag, nsmap={'nc': nc_url})
        _copy_elements(ret, element.xpath('/nc:rpc-reply/nc:data/*',
                       namespaces={'nc': nc_url}))
        _copy_elements(ret, element.xpath('/nc:data/*',
                       namespaces={'nc': nc_url}))
        _copy_elements(ret, element.xpath('/nc:config/*',
                       namespaces={'nc': nc_url}))
        _copy_elements(ret, element.xpath('/nc:rpc/nc:edit-config/nc:config/*',
                       namespaces={'nc': nc_url}))
        _copy_elements(ret, element.xpath('/nc:edit-config/nc:config/*',
                       namespaces={'nc': nc_url}))
        return ret
'''
CASES = [
 ('add: no copy 1', 'C01', [(N, "        ele1 = deepcopy(self.etree1)", "        ele1 = self.etree1", 0)]),
 ('add: no copy 2', 'C01', [(N, "        ele2 = deepcopy(self.etree2)", "        ele2 = self.etree2", 0)]),
 ('sub: no copy 1', 'C01', [(N, "        ele1 = deepcopy(self.etree1)", "        ele1 = self.etree1", 1)]),
 ('sub: no copy 2', 'C01', [(N, "        ele2 = deepcopy(self.etree2)", "        ele2 = self.etree2", 1)]),
 ('filter: no copy', 'C01', [(F, "        config = type(self)(self.device,  deepcopy(self.ele))", "        config = self")]),
 ('filter: reset self', 'C01', [(F, "                config.ele = etree.Element(config_tag, nsmap={'nc': nc_url})", "                self.ele = etree.Element(config_tag, nsmap={'nc': nc_url})")]),
 ('init: shared', 'C01', [(F, "self.ele = deepcopy(config.ele)", "self.ele = config.ele")]),
 ('init: parser moves', 'C01 C23', [(N, CP, "    new_parent.append(element)\n")]),
 ('le strips', 'C01', [(K, "        if not self._same_text(node_self, node_other):\n            return False\n        for a in node_self.attrib:", "        if node_self.text is not None:\n            node_self.text = node_self.text.strip()\n        if not self._same_text(node_self, node_other):\n            return False\n        for a in node_self.attrib:")]),
 ('pair: removes', 'C01', [(K, "        if schema_node is None:\n            schema_node = self.device.get_schema_node(node)\n        if schema_node.get('datatype')", "        if schema_node is None:\n            schema_node = self.device.get_schema_node(node)\n        node.attrib.pop('x', None)\n        if schema_node.get('datatype')")]),
 ('delta reorder src', 'C01', [(F, "            self.reorder(delta, self.random_seed, self.random_depth, 0)", "            self.reorder(self.config_dst.ele, self.random_seed, self.random_depth, 0)")]),
 ('bool trims', 'C01', [(F, "        d = Config(self.device, None, False)\n", "        d = Config(self.device, None, False)\n        self.trim_defaults()\n")]),
 ('delta add', 'C01', [(F, "            return other + self.nc", "            other.ele = (other + self.nc).ele\n            return other")]),
 ('neg in place', 'C01', [(F, "        return ConfigDelta(config_src=self.config_dst,\n                           config_dst=self.config_src)", "        self.config_src, self.config_dst = self.config_dst, self.config_src\n        return self")]),
 ('get_ns cleans', 'C01', [(M, "        root = reply.getroottree()\n        urls", "        root = reply.getroottree()\n        etree.cleanup_namespaces(root)\n        urls")]),
 ('extract in place', 'C01', [(M, "        remove_read_only(config.ele)\n", "        remove_read_only(config.ele)\n        reply._root.clear()\n")]),
 ('validate marks schema', 'C02', [(F, "        self.roots\n        self._validate_node(self.ele)", "        self.roots\n        for c in self.ele:\n            self.device.get_schema_node(c).set('used', 'true')\n        self._validate_node(self.ele)")]),
 ('defaults into schema', 'C02', [(M, "        default_nodes = []\n        for child in schema_node:", "        default_nodes = []\n        for child in schema_node:\n            if child.get('default') == '':\n                child.attrib.pop('default')")]),
 ('access in roots', 'C02', [(M, "            node = list(self.models[model_name].tree.iterchildren(tag=root))[0]\n", "            node = list(self.models[model_name].tree.iterchildren(tag=root))[0]\n            if node.get('access') is None:\n                node.set('access', 'read-write')\n")]),
 ('schema moved', 'C02', [(M, "        default_nodes = []\n        for child in schema_node:", "        default_nodes = etree.Element('x')\n        for child in schema_node:")]),
 # C23
 ('copy: no text', 'C23', [(N, "    if element.text is not None:\n        new_child.text = element.text\n", "")]),
 ('copy: strip', 'C23', [(N, "        new_child.text = element.text\n", "        new_child.text = element.text.strip()\n")]),
 ('copy: falsy', 'C23', [(N, "    if element.text is not None:\n        new_child.text = element.text\n", "    if element.text is not None and len(element) == 0 and element.text != 'x':\n        new_child.text = element.text\n")]),
 ('copy: no attrib', 'C23', [(N, "                                 attrib=element.attrib,\n", "")]),
 ('copy: one child', 'C23', [(N, "        _copy_element(new_child, subelement)\n", "        _copy_element(new_child, subelement)\n        break\n")]),
 ('copy: not deep', 'C23', [(N, "        _copy_element(new_child, subelement)\n", "        etree.SubElement(new_child, subelement.tag).text = subelement.text\n")]),
 ('copy: localname', 'C23', [(N, "    new_child = etree.SubElement(new_parent, element.tag,", "    new_child = etree.SubElement(new_parent, element.tag.split('}')[-1],")]),
 ('copy: first only', 'C23', [(N, "    for element in elements:\n        _copy_element(new_parent, element)\n", "    for element in elements[:1]:\n        _copy_element(new_parent, element)\n")]),
 ('copy: by tag', 'C23', [(N, "iterchildren(tag=etree.Element)", "iterchildren(tag=element.tag)")]),
 ('no rpc', 'C23', [(N, "        _copy_elements(ret, element.xpath('/nc:rpc/nc:edit-config/nc:config/*',\n                       namespaces={'nc': nc_url}))\n", "")]),
 ('data twice', 'C23', [(N, "        _copy_elements(ret, element.xpath('/nc:data/*',\n                       namespaces={'nc': nc_url}))\n", "        _copy_elements(ret, element.xpath('/nc:data/*',\n                       namespaces={'nc': nc_url}))\n        _copy_elements(ret, element.xpath('/nc:data/*',\n                       namespaces={'nc': nc_url}))\n")]),
 ('ns', 'C23', [(N, "        _copy_elements(ret, element.xpath('/nc:data/*',\n                       namespaces={'nc': nc_url}))\n", "        _copy_elements(ret, element.xpath('/nc:data/*',\n                       namespaces={'nc': yang_url}))\n")]),
 ('early return', 'C23', [(N, "        _copy_elements(ret, element.xpath('/nc:edit-config/nc:config/*',\n                       namespaces={'nc': nc_url}))\n        return ret", "        if len(ret) == 1:\n            return ret\n        _copy_elements(ret, element.xpath('/nc:edit-config/nc:config/*',\n                       namespaces={'nc': nc_url}))\n        return ret")]),
 ('reply data', 'C23', [(N, "self.retrieve_config(self.reply._root)", "self.retrieve_config(self.reply.data)")]),
 ('no trim', 'C23', [(F, "        self.trim_defaults()\n        if validate:\n            self.validate_config()", "        if validate:\n            self.trim_defaults()\n            self.validate_config()")]),
 ('validate str only', 'C23', [(F, "        if validate:\n            self.validate_config()", "        if validate and self.parser is not None:\n            self.validate_config()")]),
 ('dep late', 'C23', [(F, "        self.remove_deprecated = remove_deprecated\n", "        self.remove_deprecated = False\n"), (F, "        if validate:\n            self.validate_config()\n", "        if validate:\n            self.validate_config()\n        self.remove_deprecated = remove_deprecated\n")]),
 ('other type', 'C23', [(F, "            raise TypeError(\"argument 'config' must be None, XML string, \"\n                            \"or Element, but not '{}'\"\n                            .format(type(config)))", "            self.ele = etree.Element(config_tag, nsmap={'nc': nc_url})")]),
 # refactors
 ('ref: add helper', '-', [(N, "        ele1 = deepcopy(self.etree1)\n        ele2 = deepcopy(self.etree2)\n        self.node_add(ele1, ele2)\n        return ele1", "        a, b = self._copies()\n        self.node_add(a, b)\n        return a\n\n    def _copies(self):\n        return deepcopy(self.etree1), deepcopy(self.etree2)")]),
 ('ref: filter split', '-', [(F, "        config = type(self)(self.device,  deepcopy(self.ele))", "        tree = deepcopy(self.ele)\n        cls = self.__class__\n        config = cls(self.device, tree)")]),
 ('ref: copy loop', '-', [(N, CP, """    child = etree.SubElement(new_parent, element.tag,
                             attrib=element.attrib, nsmap=element.nsmap)
    text = element.text
    if text is not None:
        child.text = text
    _copy_elements(child, element.iterchildren(tag=etree.Element))
""")]),
 ('ref: copy attrib dict', '-', [(N, "attrib=element.attrib,", "attrib=dict(element.attrib),")]),
 ('ref: paths loop', '-', [(N, RC, """        ret = etree.Element(config_tag, nsmap={'nc': nc_url})
        ns = {'nc': nc_url}
        for path in ('/nc:rpc-reply/nc:data/*', '/nc:data/*', '/nc:config/*',
                     '/nc:rpc/nc:edit-config/nc:config/*',
                     '/nc:edit-config/nc:config/*'):
            _copy_elements(ret, element.xpath(path, namespaces=ns))
        return ret
""")]),
 ('ref: paths reordered', '-', [(N, RC, """        ns = {'nc': nc_url}
        ret = etree.Element(config_tag, nsmap=ns)
        found = element.xpath('/nc:config/*', namespaces=ns)
        _copy_elements(ret, found)
        _copy_elements(ret, element.xpath('/nc:edit-config/nc:config/*', namespaces=ns))
        _copy_elements(ret, element.xpath('/nc:rpc/nc:edit-config/nc:config/*', namespaces=ns))
        _copy_elements(ret, element.xpath('/nc:data/*', namespaces=ns))
        _copy_elements(ret, element.xpath('/nc:rpc-reply/nc:data/*', namespaces=ns))
        return ret
""")]),
 ('ref: init order', '-', [(F, """        if config is None:
            self.ele = etree.Element(config_tag, nsmap={'nc': nc_url})
        elif (
            isinstance(config, operations.rpc.RPCReply) or
            isinstance(config, str) or
            etree.iselement(config)
        ):
            self.parser = NetconfParser(self.device, config)
            self.ele = self.parser.ele
        elif isinstance(config, Config):
            self.ele = deepcopy(config.ele)
        else:
""", """        if isinstance(config, Config):
            self.ele = deepcopy(config.ele)
        elif config is None:
            self.ele = etree.Element(config_tag, nsmap={'nc': nc_url})
        elif isinstance(config, (operations.rpc.RPCReply, str)) or \\
                etree.iselement(config):
            parser = NetconfParser(ncdevice, config)
            self.parser = parser
            self.ele = parser.ele
        else:
""")]),
 ('ref: parser ele', '-', [(N, """        if self._ele is None:
            if isinstance(self.reply, str):
                parser = etree.XMLParser(remove_blank_text=True)
                self._ele = self.retrieve_config(etree.XML(self.reply, parser))
            elif etree.iselement(self.reply):
                self._ele = self.retrieve_config(self.reply)
            elif isinstance(self.reply, operations.rpc.RPCReply):
                self._ele = self.retrieve_config(self.reply._root)
        return self._ele
""", """        if self._ele is not None:
            return self._ele
        source = self.reply
        if isinstance(source, str):
            parser = etree.XMLParser(remove_blank_text=True)
            source = etree.XML(source, parser)
        elif isinstance(source, operations.rpc.RPCReply):
            source = source._root
        if etree.iselement(source):
            self._ele = self.retrieve_config(source)
        return self._ele
""")]),
 ('ref: le local', '-', [(K, "        if not self._same_text(node_self, node_other):\n            return False\n        for a in node_self.attrib:", "        names = []\n        for n in node_self:\n            names.append(n)\n        names.clear()\n        if not self._same_text(node_self, node_other):\n            return False\n        for a in node_self.attrib:")]),
 ('ref: sub map', '-', [(N, "        ele1 = deepcopy(self.etree1)\n        ele2 = deepcopy(self.etree2)\n        if", "        ele1, ele2 = [deepcopy(e) for e in (self.etree1, self.etree2)]\n        if")]),
 ('ref: lambda', '-', [(N, "        ele1 = deepcopy(self.etree1)\n        ele2 = deepcopy(self.etree2)\n        if", "        dup = lambda e: deepcopy(e)\n        ele1 = dup(self.etree1)\n        ele2 = dup(self.etree2)\n        if")]),
]
if __name__ == '__main__':
    batch(CASES, sys.argv[1].split(','))
