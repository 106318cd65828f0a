import sys
from lib import batch
F = 'model.py'
IST = """        def is_type(element, type):
            type_info = element.get('type')
            if type == type_info:
                return True
            if type == 'rpc' or type == 'notification':
                return False
            if type_info == 'rpc' or type_info == 'notification':
                return False
            return True

        ret = []
"""
CASES = [
 ('action flag', 'C33', [(F, "        if type_info == 'rpc' or type_info == 'action':\n            return '-x'", "        if type_info == 'rpc':\n            return '-x'")]),
 ('access before type', 'C33', [(F, "        elif type_info == 'notification':\n            return '-n'\n        access_info", "        access_info"), (F, "        if access_info is None:\n            return ''\n", "        if access_info is None:\n            return '-n' if type_info == 'notification' else ''\n")]),
 ('write only', 'C33', [(F, "            return '-w'", "            return 'rw'")]),
 ('ro flag', 'C33', [(F, "        elif access_info == 'read-only':\n            return 'ro'\n        else:\n            return '--'", "        else:\n            return 'ro'")]),
 ('mandatory leaf', 'C33', [(F, "            if element.get('mandatory') == 'true':\n                return flags + ' {}'.format(name)\n            else:\n                return flags + ' {}?'.format(name)", "            return flags + ' {}?'.format(name)")]),
 ('mandatory false', 'C33', [(F, "            if element.get('mandatory') == 'true':\n                return flags + ' {}'.format(name)", "            if element.get('mandatory') is not None or type_info == 'anydata':\n                return flags + ' {}'.format(name)")]),
 ('case flags', 'C33', [(F, "            return ':({})'.format(name)", "            return flags + ':({})'.format(name)")]),
 ('keyless list', 'C33', [(F, "                return flags + ' {}*'.format(name)\n        elif type_info == 'leaf-list'", "                return flags + ' {}'.format(name)\n        elif type_info == 'leaf-list'")]),
 ('first key', 'C33', [(F, "' {}* [{}]'.format(name, element.get('key'))", "' {}* [{}]'.format(name, element.get('key').split()[0])")]),
 ('choice mandatory swapped', 'C33', [(F, "            if element.get('mandatory') == 'true':\n                return flags + ' ({})'.format(name)", "            if element.get('mandatory') != 'true':\n                return flags + ' ({})'.format(name)")]),
 ('name with prefix', 'C33', [(F, "        name = self.remove_model_prefix(self.url_to_prefix(element.tag))", "        name = self.url_to_prefix(element.tag)")]),
 ('name local', 'C33', [(F, "        name = self.remove_model_prefix(self.url_to_prefix(element.tag))", "        name = etree.QName(element).localname")]),
 ('anydata as leaf', 'C33', [(F, "        if type_info == 'anyxml' or type_info == 'anydata':\n            ret = spaces", "        if type_info == 'anyxml':\n            ret = spaces")]),
 ('feature lost with type', 'C33', [(F, "            ret = spaces + element.get('datatype')\n        if element.get('if-feature')", "            return spaces + element.get('datatype')\n        if element.get('if-feature')")]),
 ('feature no question', 'C33', [(F, "' {' + element.get('if-feature') + '}?'", "' {' + element.get('if-feature') + '}'")]),
 ('column off', 'C33', [(F, "        spaces = ' '*(self.get_width(element) - length)\n        type_info", "        spaces = ' '*self.get_width(element)\n        type_info")]),
 ('line without feature', 'C33', [(F, "                   i.get('datatype') is not None or \\\n                   i.get('if-feature') is not None:", "                   i.get('datatype') is not None:")]),
 ('line without anydata', 'C33', [(F, "                if i.get('type') == 'anyxml' or \\\n                   i.get('type') == 'anydata' or \\\n", "                if i.get('type') == 'anyxml' or \\\n")]),
 ('room of line', 'C33', [(F, "                room_consumed = len(name_str)\n                line += name_str\n                if i.get('type')", "                line += name_str\n                room_consumed = len(line)\n                if i.get('type')")]),
 ('section other', 'C33', [(F, "                line = self.get_depth_str(i, type=type)", "                line = self.get_depth_str(i)")]),
 ('diff section other', 'C33', [(F, "                line = Model.get_depth_str(i, type=type)", "                line = Model.get_depth_str(i)")]),
 ('diff only of deleted', 'C33', [(F, "                if i.get('diff') is not None:\n                    line +=", "                if i.get('diff') is not None and len(i) == 0:\n                    line +=")]),
 ('width: shortest', 'C33', [(F, "            if w > ret:\n                ret = w", "            if w < ret:\n                ret = w")]),
 ('width: last', 'C33', [(F, "            if w > ret:\n                ret = w", "            ret = w")]),
 ('width: cache by tag', 'C33', [(F, "        if parent in self.width:\n            return self.width[parent]", "        if parent.tag in self.width:\n            return self.width[parent.tag]"), (F, "        self.width[parent] = math.ceil((ret + 3) / 3.0) * 3\n        return self.width[parent]", "        self.width[parent.tag] = math.ceil((ret + 3) / 3.0) * 3\n        return self.width[parent.tag]")]),
 ('depth: ancestors order', 'C33', [(F, "        ancestors = list(reversed(list(element.iterancestors())))", "        ancestors = list(element.iterancestors())")]),
 ('depth: inverted', 'C33', [(F, "                if ancestor.getnext() is None:\n                    ret += '   '\n                else:\n                    ret += '|  '", "                if ancestor.getnext() is not None:\n                    ret += '   '\n                else:\n                    ret += '|  '")]),
 ('depth: previous', 'C33', [(F, "                if ancestor.getnext() is None:", "                if ancestor.getprevious() is None:")]),
 ('depth: any section', 'C33', [(F, "                if following_siblings(ancestor, type):", "                if ancestor.getnext() is not None:")]),
 ('depth: other only rpc', 'C33', [(F, "                        s.get('type') != 'rpc' and\n                        s.get('type') != 'notification'", "                        s.get('type') != 'rpc'")]),
 ('depth: section of all', 'C33', [(F, "            if type == 'rpc' or type == 'notification':\n                return [s for s in list(element.itersiblings())\n                        if s.get('type') == type]", "            if type == 'rpc':\n                return [s for s in list(element.itersiblings())\n                        if s.get('type') == type]")]),
 ('depth: preceding', 'C33', [(F, "                return [s for s in list(element.itersiblings())\n                        if s.get('type') == type]", "                return [s for s in list(element.itersiblings(preceding=True))\n                        if s.get('type') == type]")]),
 ('tree: no notifications', 'C33', [(F, "        if notification_lines:\n            ret += ['', '  notifications:'] + notification_lines", "        if notification_lines and not rpc_lines:\n            ret += ['', '  notifications:'] + notification_lines")]),
 ('tree: headings', 'C33', [(F, "            ret += ['', '  notifications:'] + notification_lines", "            ret += ['', '  notifications:'] + rpc_lines")]),
 ('tree: order', 'C33', [(F, "        ret += self.emit_children(tree, type='other')\n        rpc_lines = self.emit_children(tree, type='rpc')\n        if rpc_lines:\n            ret += ['', '  rpcs:'] + rpc_lines\n", "        rpc_lines = self.emit_children(tree, type='rpc')\n        if rpc_lines:\n            ret += ['', '  rpcs:'] + rpc_lines\n        ret += self.emit_children(tree, type='other')\n")]),
 ('nodes: notif in other', 'C33', [(F, "            if type_info == 'rpc' or type_info == 'notification':\n                return False\n            return True\n\n        ret = []\n        for root in [i for i in tree if is_type(i, type)]:\n            for i in root.iter():\n                line = self", "            if type_info == 'rpc':\n                return False\n            return True\n\n        ret = []\n        for root in [i for i in tree if is_type(i, type)]:\n            for i in root.iter():\n                line = self")]),
 ('nodes: not the root', 'C33', [(F, "            for i in root.iter():\n                line = self", "            for i in root.iterdescendants():\n                line = self")]),
 ('nodes: one level', 'C33', [(F, "        for root in [i for i in tree if is_type(i, type)]:\n            for i in root.iter():\n                line = Model", "        for i in [i for i in tree if is_type(i, type)]:\n            if True:\n                line = Model")]),
 ('own prefix anywhere', 'C33', [(F, "        reg_str = '^' + self.prefix + ':(.+)$'", "        reg_str = self.prefix + ':(.+)$'")]),
 ('any prefix', 'C33', [(F, "        reg_str = '^' + self.prefix + ':(.+)$'", "        reg_str = '^.+:(.+)$'")]),
 ('url to itself', 'C33', [(F, "            return self.urls[ret.group(1)] + ':' + ret.group(2)", "            return ret.group(2)")]),
 ('url swapped', 'C33', [(F, "            return self.urls[ret.group(1)] + ':' + ret.group(2)", "            return self.prefix + ':' + ret.group(2)")]),
 # refactorings
 ('R: flags dict', '-', [(F, """        access_info = element.get('access')
        if access_info is None:
            return ''
        elif access_info == 'write':
            return '-w'
        elif access_info == 'read-write':
            return 'rw'
        elif access_info == 'read-only':
            return 'ro'
        else:
            return '--'
""", """        access_info = element.get('access')
        if access_info is None:
            return ''
        return {'write': '-w', 'read-write': 'rw', 'read-only': 'ro'}.get(access_info, '--')
""")]),
 ('R: flags in', '-', [(F, "        if type_info == 'rpc' or type_info == 'action':\n            return '-x'", "        if type_info in ('rpc', 'action'):\n            return '-x'")]),
 ('R: optional mark', '-', [(F, """            if element.get('mandatory') == 'true':
                return flags + ' {}'.format(name)
            else:
                return flags + ' {}?'.format(name)""", """            optional = '' if element.get('mandatory') == 'true' else '?'
            return '{} {}{}'.format(flags, name, optional)""")]),
 ('R: fstring list', '-', [(F, """            if element.get('key') is not None:
                return flags + ' {}* [{}]'.format(name, element.get('key'))
            else:
                return flags + ' {}*'.format(name)
        elif type_info == 'leaf-list':""", """            keys = element.get('key')
            ret = f'{flags} {name}*'
            return ret if keys is None else ret + f' [{keys}]'
        elif type_info == 'leaf-list':""")]),
 ('R: width max', '-', [(F, """        ret = 0
        for sibling in parent:
            w = len(self.get_name_str(sibling))
            if w > ret:
                ret = w
""", """        ret = max(len(self.get_name_str(sibling)) for sibling in parent)
""")]),
 ('R: depth join', '-', [(F, """                if ancestor.getnext() is None:
                    ret += '   '
                else:
                    ret += '|  '
""", """                ret += '   ' if ancestor.getnext() is None else '|  '
""")]),
 ('R: depth any', '-', [(F, "                    if (\n                        s.get('type') != 'rpc' and\n                        s.get('type') != 'notification'\n                    )\n", "                    if s.get('type') not in ('rpc', 'notification')\n")]),
 ('R: emit cond', '-', [(F, "                if i.get('type') == 'anyxml' or \\\n                   i.get('type') == 'anydata' or \\\n                   i.get('datatype') is not None or \\\n                   i.get('if-feature') is not None:\n                    line += self.get_datatype_str(i, room_consumed)\n                ret.append(line)", "                typed = i.get('type') in ('anyxml', 'anydata') or i.get('datatype') is not None\n                if typed or i.get('if-feature') is not None:\n                    line = line + self.get_datatype_str(i, room_consumed)\n                ret += [line]")]),
 ('R: emit continue', '-', [(F, "        for root in [i for i in tree if is_type(i, type)]:\n            for i in root.iter():\n                line = self", "        for root in tree:\n            if not is_type(root, type):\n                continue\n            for i in root.iter():\n                line = self")]),
 ('R: emit type always', '-', [(F, "                if i.get('type') == 'anyxml' or \\\n                   i.get('type') == 'anydata' or \\\n                   i.get('datatype') is not None or \\\n                   i.get('if-feature') is not None:\n                    line += self.get_datatype_str(i, room_consumed)\n", "                line += self.get_datatype_str(i, room_consumed)\n")]),
 ('R: emit_tree loop', '-', [(F, """        rpc_lines = self.emit_children(tree, type='rpc')
        if rpc_lines:
            ret += ['', '  rpcs:'] + rpc_lines
        notification_lines = self.emit_children(tree, type='notification')
        if notification_lines:
            ret += ['', '  notifications:'] + notification_lines
""", """        for section in ('rpc', 'notification'):
            lines = self.emit_children(tree, type=section)
            if lines:
                ret += ['', '  {}s:'.format(section)]
                ret += lines
""")]),
 ('R: is_type', '-', [(F, IST, """        def is_type(element, type):
            special = ('rpc', 'notification')
            type_info = element.get('type')
            if type in special or type_info in special:
                return type == type_info
            return True

        ret = []
""", 0)]),
 ('R: datatype early', '-', [(F, """        if element.get('if-feature') is not None:
            return ret + ' {' + element.get('if-feature') + '}?'
        else:
            return ret
""", """        feature = element.get('if-feature')
        if feature is None:
            return ret
        return '{} {{{}}}?'.format(ret, feature)
""")]),
 ('R: own prefix', '-', [(F, """        reg_str = '^' + self.prefix + ':(.+)$'
        ret = re.search(reg_str, id)
        if ret:
            return ret.group(1)
        else:
            return id
""", """        own = self.prefix + ':'
        if id.startswith(own):
            return id[len(own):]
        return id
""")]),
]
if __name__ == '__main__':
    pids = sys.argv[1].split(',') if len(sys.argv) > 1 else ['C33']
    sel = sys.argv[2] if len(sys.argv) > 2 else ''
    sys.exit(batch([c for c in CASES if sel in c[0]], pids))
