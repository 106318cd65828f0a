import sys
from lib import batch
F = '__init__.py'
G = 'manager.py'
REC = """    def recreate(parent_src, parent_dst):
        for child_src in parent_src.iterchildren(tag=etree.Element):
            child_dst = etree.SubElement(parent_dst,
                                         child_src.tag,
                                         attrib=child_src.attrib,
                                         nsmap=child_src.nsmap)
            child_dst.text = child_src.text
            if len(child_src) > 0:
                recreate(child_src, child_dst)
"""
TOP = """    child = etree.SubElement(self,
                             element.tag,
                             attrib=element.attrib,
                             nsmap=element.nsmap)
    child.text = element.text
    if len(element) > 0:
        recreate(element, child)
"""
GET = """        ret = {}
        for url in sorted(urls, key=lambda u: (u not in special_prefixes, u)):
            # prefixes of different models are not necessarily different
            prefix = get_prefix(url)
            ret[url] = None if prefix in ret.values() else prefix
"""
CASES = [
 ('nsmap of child', 'C32', [(F, "                                         attrib=child_src.attrib,\n                                         nsmap=child_src.nsmap)", "                                         attrib=child_src.attrib)")]),
 ('nsmap of top', 'C32', [(F, "                             attrib=element.attrib,\n                             nsmap=element.nsmap)", "                             attrib=element.attrib)")]),
 ('nsmap of parent', 'C32', [(F, "nsmap=child_src.nsmap)", "nsmap=parent_dst.nsmap)")]),
 ('no attributes', 'C32', [(F, "                                         attrib=child_src.attrib,\n", "")]),
 ('attributes of parent', 'C32', [(F, "attrib=child_src.attrib", "attrib=parent_src.attrib")]),
 ('text only of leaves', 'C32', [(F, "            child_dst.text = child_src.text\n            if len(child_src) > 0:\n                recreate(child_src, child_dst)", "            if len(child_src) > 0:\n                recreate(child_src, child_dst)\n            elif child_src.text and child_src.text.strip():\n                child_dst.text = child_src.text")]),
 ('text stripped', 'C32', [(F, "            child_dst.text = child_src.text\n", "            child_dst.text = (child_src.text or '').strip()\n")]),
 ('single child', 'C32', [(F, "            if len(child_src) > 0:", "            if len(child_src) > 1:")]),
 ('single child top', 'C32', [(F, "    if len(element) > 0:", "    if len(element) > 1:")]),
 ('not recursive', 'C32', [(F, "            if len(child_src) > 0:\n                recreate(child_src, child_dst)\n", "")]),
 ('wrong parent', 'C32', [(F, "                recreate(child_src, child_dst)", "                recreate(child_src, parent_dst)")]),
 ('swapped', 'C32', [(F, "                recreate(child_src, child_dst)", "                recreate(child_dst, child_src)")]),
 ('only if text none', 'C32', [(F, "            if len(child_src) > 0:", "            if child_src.text is None:")]),
 ('same ns only', 'C32', [(F, "            child_dst = etree.SubElement(parent_dst,", "            if etree.QName(child_src).namespace is None:\n                continue\n            child_dst = etree.SubElement(parent_dst,")]),
 ('all children', 'C32', [(F, "parent_src.iterchildren(tag=etree.Element):", "parent_src.iterchildren():")]),
 ('reversed', 'C32', [(F, "parent_src.iterchildren(tag=etree.Element):", "parent_src.iterchildren(tag=etree.Element, reversed=True):")]),
 ('first level twice', 'C32', [(F, "            child_dst.text = child_src.text\n            if len", "            child_dst.text = child_src.text\n            parent_dst.append(deepcopy(child_dst))\n            if len"), (F, "import os\n", "import os\nfrom copy import deepcopy\n")]),
 ('move', 'C32', [(F, "        _append(node, validated_element(config", "        node.append(validated_element(config")]),
 ('options swapped', 'C32', [(F, 'sub_ele(node, "test-option").text = test_option', 'sub_ele(node, "error-option").text = test_option')]),
 ('default-op omitted when merge', 'C32', [(F, "    if default_operation is not None:", "    if default_operation is not None and default_operation != 'none':")]),
 ('test-option omitted', 'C32', [(F, "    if test_option is not None:", "    if test_option is not None and error_option is None:")]),
 ('no assert validate', 'C32', [(F, "        self._assert(':validate')\n", "")]),
 ('no assert rollback', 'C32', [(F, "        if error_option == \"rollback-on-error\":\n            self._assert(\":rollback-on-error\")\n", "")]),
 ('assert rollback always', 'C32', [(F, "        if error_option == \"rollback-on-error\":\n            self._assert(\":rollback-on-error\")\n", "        self._assert(\":rollback-on-error\")\n")]),
 ('rollback else', 'C32', [(F, "            self._assert(\":rollback-on-error\")\n        sub_ele(node, \"error-option\")", "            self._assert(\":rollback-on-error\")\n        else:\n            sub_ele(node, \"error-option\")")]),
 ('target fixed', 'C32', [(F, 'datastore_or_url("target", target, self._assert)', 'datastore_or_url("target", "candidate", self._assert)', 1)]),
 ('default merge', 'C32', [(F, "            default_operation=None,", "            default_operation='merge',")]),
 ('text format', 'C32', [(F, 'sub_ele(config_text, "configuration-text").text = config', 'sub_ele(config_text, "configuration-text")')]),
 ('reply not returned', 'C32', [(F, "    return self._request(node)", "    self._request(node)")]),
 ('no id', 'C32', [(F, 'new_ele("rpc", {"message-id": self._id},', 'new_ele("rpc", {},')]),
 ('wrap moves', '-', [(F, "    _append(ele, subele)\n", "    ele.append(subele)\n")]),
 ('xpath kwargs', 'C32', [(F, "        return self._root_ele.xpath(*args, **kwargs)\n    else:", "        return self._root_ele.xpath(*args, namespaces=self.ns)\n    else:")]),
 ('xpath ignore', 'C32', [(F, "        return self._root.xpath(*args, **kwargs)\n    else:\n        return self._root.xpath(*args, **kwargs)", "        return self._root.xpath(*args, **kwargs)\n    else:\n        return self._root.xpath(*args)")]),
 ('xpath override', 'C32', [(F, "    if 'namespaces' not in kwargs:\n        kwargs['namespaces'] = self.ns\n        return self._root.", "    if True:\n        kwargs['namespaces'] = self.ns\n        return self._root.")]),
 ('xpath no default', 'C32', [(F, "        kwargs['namespaces'] = self.ns\n        return self._root_ele.", "        return self._root_ele.")]),
 ('xpath child', 'C32', [(F, "        return self._root.xpath(*args, **kwargs)\n    else:", "        return self._root[0].xpath(*args, **kwargs)\n    else:")]),
 ('xpath inverted', 'C32', [(F, "    if 'namespaces' not in kwargs:\n        kwargs['namespaces'] = self.ns\n        return self._root.", "    if 'namespaces' in kwargs:\n        kwargs['namespaces'] = self.ns\n        return self._root.")]),
 ('str of data', 'C32', [(F, "    xml_str = etree.tostring(self._root, encoding", "    xml_str = etree.tostring(self._root[0], encoding")]),
 ('str bytes', 'C32', [(F, "    return etree.tostring(xml_ele, encoding='unicode', pretty_print=True)\n\n\ndef _str_notification", "    return etree.tostring(xml_ele, pretty_print=True)\n\n\ndef _str_notification")]),
 ('str unparsed', 'C32', [(F, "    self.parse()\n", "")]),
 ('ns: only children', 'C32', [(G, "        for node in root.iter():\n            urls", "        for node in reply.iterchildren():\n            urls")]),
 ('ns: root only', 'C32', [(G, "        for node in root.iter():\n            urls.update([u for p, u in node.nsmap.items()])", "        urls.update(reply.nsmap.values())")]),
 ('ns: prefixed only', 'C32', [(G, "urls.update([u for p, u in node.nsmap.items()])", "urls.update([u for p, u in node.nsmap.items() if p])")]),
 ('ns: unknown left out', 'C32', [(G, "            ret[url] = 'ns{:02d}'.format(i)\n        return {p: u for u, p in ret.items()}", "            pass\n        return {p: u for u, p in ret.items()}")]),
 ('ns: unknown same', 'C32', [(G, "            while 'ns{:02d}'.format(i) in ret.values():\n                i += 1\n", "")]),
 ('ns: name', 'C32', [(G, "                if url == i[2]:\n                    return i[1]", "                if url == i[2]:\n                    return i[0]")]),
 ('ns: startswith', 'C32', [(G, "                if url == i[2]:\n                    return i[1]", "                if url.startswith(i[2]):\n                    return i[1]")]),
 ('ns: model first', 'C32', [(G, "            if url in special_prefixes:\n                return special_prefixes[url]\n            for i in self.namespaces:\n                if url == i[2]", "            for i in self.namespaces:\n                if url == i[2]")]),
 ('ns: not unique', 'C32', [(G, GET, "        ret = {url: get_prefix(url) for url in urls}\n")]),
 ('ns: swapped', 'C32', [(G, "        return {p: u for u, p in ret.items()}", "        return ret")]),
 # refactorings
 ('R: recursion of all', '-', [(F, REC + "\n" + TOP, """    child = etree.SubElement(self, element.tag, attrib=element.attrib, nsmap=element.nsmap)
    child.text = element.text
    for sub in element.iterchildren(tag=etree.Element):
        _append(child, sub)
""")]),
 ('R: no len', '-', [(F, "            if len(child_src) > 0:\n                recreate(child_src, child_dst)", "            recreate(child_src, child_dst)")]),
 ('R: truth of len', '-', [(F, "            if len(child_src) > 0:\n", "            if len(child_src):\n")]),
 ('R: update attributes', '-', [(F, "                                         child_src.tag,\n                                         attrib=child_src.attrib,\n                                         nsmap=child_src.nsmap)", "                                         child_src.tag,\n                                         nsmap=child_src.nsmap)\n            child_dst.attrib.update(child_src.attrib)")]),
 ('R: skip comments', '-', [(F, "        for child_src in parent_src.iterchildren(tag=etree.Element):\n", "        for child_src in parent_src:\n            if not isinstance(child_src.tag, str):\n                continue\n")]),
 ('R: helper', '-', [(F, REC + "\n" + TOP, """    def copy_one(src, parent):
        dst = etree.SubElement(parent, src.tag, attrib=src.attrib, nsmap=src.nsmap)
        dst.text = src.text
        return dst

    def recreate(parent_src, parent_dst):
        for child_src in parent_src.iterchildren(tag=etree.Element):
            recreate(child_src, copy_one(child_src, parent_dst))

    recreate(element, copy_one(element, self))
""")]),
 ('R: stack', '-', [(F, REC + "\n" + TOP, """    todo = [(element, self)]
    while todo:
        src, parent = todo.pop()
        dst = etree.SubElement(parent, src.tag, attrib=src.attrib, nsmap=src.nsmap)
        dst.text = src.text
        todo += [(c, dst) for c in reversed(list(src.iterchildren(tag=etree.Element)))]
""")]),
 ('R: deepcopy', '-', [(F, REC + "\n" + TOP, "    self.append(deepcopy(element))\n"), (F, "import os\n", "import os\nfrom copy import deepcopy\n")]),
 ('R: xpath setdefault', '-', [(F, """    if 'namespaces' not in kwargs:
        kwargs['namespaces'] = self.ns
        return self._root.xpath(*args, **kwargs)
    else:
        return self._root.xpath(*args, **kwargs)""", """    kwargs.setdefault('namespaces', self.ns)
    return self._root.xpath(*args, **kwargs)""")]),
 ('R: xpath if in', '-', [(F, """    if 'namespaces' not in kwargs:
        kwargs['namespaces'] = self.ns
        return self._root.xpath(*args, **kwargs)
    else:
        return self._root.xpath(*args, **kwargs)""", """    if 'namespaces' in kwargs:
        return self._root.xpath(*args, **kwargs)
    return self._root.xpath(*args, namespaces=self.ns, **kwargs)""")]),
 ('R: xpath helper', '-', [(F, """    if 'namespaces' not in kwargs:
        kwargs['namespaces'] = self.ns
        return self._root.xpath(*args, **kwargs)
    else:
        return self._root.xpath(*args, **kwargs)""", """    return _search(self._root, self.ns, args, kwargs)"""), (F, "def xpath_rpcreply", """def _search(root, ns, args, kwargs):
    if 'namespaces' not in kwargs:
        kwargs['namespaces'] = ns
    return root.xpath(*args, **kwargs)


def xpath_rpcreply""")]),
 ('R: str helper', '-', [(F, """    xml_str = etree.tostring(self._root, encoding='unicode')
    xml_ele = etree.XML(xml_str, etree.XMLParser(remove_blank_text=True))
    return etree.tostring(xml_ele, encoding='unicode', pretty_print=True)""", "    return _pretty(self._root)"), (F, "def _str_rpcreply", """def _pretty(ele):
    parser = etree.XMLParser(remove_blank_text=True)
    xml_ele = etree.XML(etree.tostring(ele), parser)
    return etree.tostring(xml_ele, encoding='unicode', pretty_print=True)


def _str_rpcreply""")]),
 ('R: options loop', '-', [(F, """    if error_option is not None:
        if error_option == "rollback-on-error":
            self._assert(":rollback-on-error")
        sub_ele(node, "error-option").text = error_option
    if test_option is not None:
        self._assert(':validate')
        sub_ele(node, "test-option").text = test_option
    if default_operation is not None:
        # TODO: check if it is a valid default-operation
        sub_ele(node, "default-operation").text = default_operation
""", """    if error_option == "rollback-on-error":
        self._assert(":rollback-on-error")
    if test_option is not None:
        self._assert(':validate')
    for name, value in (("error-option", error_option),
                        ("test-option", test_option),
                        ("default-operation", default_operation)):
        if value is not None:
            sub_ele(node, name).text = value
""")]),
 ('R: option order', '-', [(F, """    if default_operation is not None:
        # TODO: check if it is a valid default-operation
        sub_ele(node, "default-operation").text = default_operation
""", ""), (F, "    if error_option is not None:\n", """    if default_operation is not None:
        sub_ele(node, "default-operation").text = default_operation
    if error_option is not None:
""")]),
 ('R: elif text', '-', [(F, "    if format == 'text':", "    elif format == 'text':")]),
 ('R: node var', '-', [(F, 'sub_ele(node, "test-option").text = test_option', 'option = sub_ele(node, "test-option")\n        option.text = test_option')]),
 ('R: ns loops', '-', [(G, "            urls.update([u for p, u in node.nsmap.items()])", "            for url in node.nsmap.values():\n                urls.add(url)")]),
 ('R: ns set comp', '-', [(G, "        urls = set()\n        for node in root.iter():\n            urls.update([u for p, u in node.nsmap.items()])", "        urls = {u for node in root.iter() for u in node.nsmap.values()}")]),
 ('R: ns get', '-', [(G, "            if url in special_prefixes:\n                return special_prefixes[url]\n            for i in self.namespaces:\n                if url == i[2]:\n                    return i[1]\n            return None", "            if url in special_prefixes:\n                return special_prefixes[url]\n            for name, prefix, namespace in self.namespaces:\n                if namespace == url:\n                    return prefix")]),
 ('R: ns direct', '-', [(G, GET, """        ret = {}
        for url in sorted(urls, key=lambda u: (u not in special_prefixes, u)):
            prefix = get_prefix(url)
            if prefix in ret.values():
                prefix = None
            ret[url] = prefix
""")]),
 ('R: ns used', '-', [(G, GET, """        ret = {}
        used = set()
        for url in sorted(urls, key=lambda u: (u not in special_prefixes, u)):
            prefix = get_prefix(url)
            if prefix in used:
                prefix = None
            used.add(prefix)
            ret[url] = prefix
""")]),
]
if __name__ == '__main__':
    pids = sys.argv[1].split(',') if len(sys.argv) > 1 else ['C32']
    sel = sys.argv[2] if len(sys.argv) > 2 else ''
    sys.exit(batch([c for c in CASES if sel in c[0]], pids))
