import sys
from lib import batch
F = 'runningconfig.py'
CASES = [
 # C24
 ('24: sign swap', 'C24', [(F, "diff_1.append((k, v, '-'))\n        for k, v, i in list2[previous_index_2:]:", "diff_1.append((k, v, '+'))\n        for k, v, i in list2[previous_index_2:]:")]),
 ('24: after common skip', 'C24', [(F, "for k, v, i in list2[previous_index_2:]:", "for k, v, i in list2[previous_index_2 + 1:]:")]),
 ('24: no advance', 'C24', [(F, "            previous_index_2 = current_index_2 + 1\n", "            previous_index_2 = current_index_2\n")]),
 ('24: kids of first', 'C24', [(F, "                elif list1[current_index_1][1] is not None:\n                    diff_1.append((key, [\n                        (k, v, '-')", "                elif list1[current_index_1][1] is not None:\n                    diff_1.append((key, [\n                        (k, v, '+')")]),
 ('24: rec swapped', 'C24', [(F, "                        list1[current_index_1][1],\n                        list2[current_index_2][1],\n                    ), ''))", "                        list2[current_index_2][1],\n                        list1[current_index_1][1],\n                    ), ''))")]),
 ('24: reverse same', 'C24', [(F, "self._diff_list_reverse = ListDiff(list2, list1).diff", "self._diff_list_reverse = ListDiff(list1, list2).diff")]),
 ('24: diff_reverse', 'C24', [(F, "        return self.get_diff(reverse=True)", "        return self.get_diff(reverse=False)")]),
 ('24: reverse pick', 'C24', [(F, "diff_list = self._diff_list_reverse if reverse else self._diff_list", "diff_list = self._diff_list if reverse else self._diff_list_reverse")]),
 ('24: bool', 'C24', [(F, "        return bool(self.diff)", "        return not self.diff")]),
 ('24: print child sign', 'C24', [(F, "self.list2config(v, diff_type=local_diff_type),", "self.list2config(v, diff_type=diff_type),")]),
 ('24: print none', 'C24', [(F, "            if v is not None:\n                str_ret += self.indent(", "            if v is not None and local_diff_type != '':\n                str_ret += self.indent(")]),
 ('24: keys of wrong list', 'C24', [(F, "        key_list_2 = [i[0] for i in list2]\n        common", "        key_list_2 = [i[0] for i in list1]\n        common")]),
 ('24: siblings one', 'C24', [(F, "            self.handle_sibling_cammands(list2)\n", "")]),
 ('24: common in full', 'C24', [(F, "            if k2 in key_list_1[previous_index_1:]:", "            if k2 in key_list_1:")]),
 ('24: value of wrong', 'C24', [(F, "            if list1[current_index_1][1] == list2[current_index_2][1]:", "            if list1[current_index_1][0] == list2[current_index_2][0]:")]),
 ('R: 24 extend', '-', [(F, "        for k, v, i in list1[previous_index_1:]:\n            diff_1.append((k, v, '-'))\n", "        diff_1.extend((k, v, '-') for k, v, i in list1[previous_index_1:])\n")]),
 ('R: 24 early', '-', [(F, "        return diff_list if diff_list else None", "        if not diff_list:\n            return None\n        return diff_list")]),
 ('R: 24 rename', '-', [(F, "            current_index_1 = previous_index_1 + \\\n                key_list_1[previous_index_1:].index(key)", "            current_index_1 = key_list_1.index(key, previous_index_1)")]),
 ('R: 24 bool', '-', [(F, "        return bool(self.diff)", "        return True if self.diff else False")]),
 ('R: 24 kids var', '-', [(F, "            if list1[current_index_1][1] == list2[current_index_2][1]:\n                if list1[current_index_1][1] is None:", "            kids_1 = list1[current_index_1][1]\n            kids_2 = list2[current_index_2][1]\n            if kids_1 == kids_2:\n                if kids_1 is None:")]),
 # C25
 ('25: pos/neg swapped', 'C25', [(F, "        return '\\n'.join(positive_list), '\\n'.join(reversed(negative_list))", "        return '\\n'.join(positive_list), '\\n'.join(negative_list)")]),
 ('25: pos reversed', 'C25', [(F, "        return '\\n'.join(positive_list), '\\n'.join(reversed(negative_list))", "        return '\\n'.join(reversed(positive_list)), '\\n'.join(reversed(negative_list))")]),
 ('25: startswith', 'C25', [(F, "if key == k or key.startswith(k + ' ')]", "if key.startswith(k)]")]),
 ('25: added only', 'C25', [(F, "positive_keys = [k for k, v, i in list_in if i == '+' and v is None]", "positive_keys = [k for k, v, i in list_in if v is None]")]),
 ('25: section removed twice', 'C25', [(F, "                elif i == '-':\n                    self.append_command('no ' + k,\n                                        negative_list, positive_list)\n\n", "                elif i == '-' and v:\n                    self.append_command('no ' + k,\n                                        negative_list, positive_list)\n\n")]),
 ('25: lists swapped', 'C25', [(F, "        if is_no_cmd:\n            negative_list.append(cmd)", "        if not is_no_cmd:\n            negative_list.append(cmd)")]),
 ('25: nono', 'C25', [(F, "            return cmd[6:].strip(), False", "            return cmd[3:].strip(), False")]),
 ('25: nono neg', 'C25', [(F, "            return cmd[6:].strip(), False", "            return cmd[6:].strip(), True")]),
 ('25: short first', 'C25', [(F, "        if cmd[:6] == 'no no ':\n            return cmd[6:].strip(), False\n        for short_cmd in SHORT_NO_COMMANDS:\n            if cmd[:len(short_cmd)] == short_cmd:\n                return short_cmd.strip(), True\n", "        for short_cmd in SHORT_NO_COMMANDS:\n            if cmd[:len(short_cmd)] == short_cmd:\n                return short_cmd.strip(), False\n        if cmd[:6] == 'no no ':\n            return cmd[6:].strip(), False\n")]),
 ('25: short 10', 'C25', [(F, "            if cmd[:len(short_cmd)] == short_cmd:", "            if cmd[:9] == short_cmd[:9]:")]),
 ('25: cli order', 'C25', [(F, "                    return negative_str + '\\n!\\n' + positive_str", "                    return positive_str + '\\n!\\n' + negative_str")]),
 ('25: cli lost', 'C25', [(F, "            if positive_str:\n                if negative_str:\n                    return negative_str + '\\n!\\n' + positive_str\n                else:\n                    return positive_str", "            if positive_str:\n                return positive_str")]),
 ('25: cli direction', 'C25', [(F, "        diff_list = self.get_diff(reverse=reverse)\n", "        diff_list = self.get_diff()\n")]),
 ('25: cli_reverse', 'C25', [(F, "        return self.get_cli(reverse=True)", "        return self.get_cli()")]),
 ('25: neg drop short', 'C25', [(F, "                    if c2.startswith(c1 + ' '):\n                        indexes.add(idx2)\n                elif c1.startswith(c2 + ' '):\n                    indexes.add(idx1)\n        if indexes:\n            for idx in sorted(indexes, reverse=True):\n                del negative_list", "                    if c2.startswith(c1 + ' '):\n                        indexes.add(idx1)\n                elif c1.startswith(c2 + ' '):\n                    indexes.add(idx1)\n        if indexes:\n            for idx in sorted(indexes, reverse=True):\n                del negative_list")]),
 ('25: neg asc', 'C25', [(F, "            for idx in sorted(indexes, reverse=True):\n                del negative_list", "            for idx in sorted(indexes):\n                del negative_list")]),
 ('25: pos no coexist', 'C25', [(F, "if '\\n' not in c and c not in COEXIST_SHORT_POSITIVE_COMMANDS]", "if '\\n' not in c]")]),
 ('25: pos sections', 'C25', [(F, "if '\\n' not in c and c not in COEXIST_SHORT_POSITIVE_COMMANDS]", "if c not in COEXIST_SHORT_POSITIVE_COMMANDS]")]),
 ('25: dup asc', 'C25', [(F, "            for idx in reversed(indexes):\n                del config_list", "            for idx in indexes:\n                del config_list")]),
 ('25: dup first word', 'C25', [(F, "            if line in commands:\n                indexes.append(idx)", "            if line.strip() in commands or line.startswith('no '):\n                indexes.append(idx)")]),
 ('25: changed parent', 'C25', [(F, "                        negative_list.append(\n                            k + '\\n' + self.indent(negative_str).rstrip())", "                        negative_list.append(\n                            k + '\\n' + self.indent(positive_str).rstrip())")]),
 ('25: changed neg lost', 'C25', [(F, "                    if negative_str:\n                        negative_list.append(", "                    elif negative_str:\n                        negative_list.append(")]),
 ('25: section sign', 'C25', [(F, "positive_str = self.list2config(v, diff_type=None).rstrip()", "positive_str = self.list2config(v, diff_type='').rstrip()")]),
 ('25: overwrite any', 'C25', [(F, "                        if (\n                            len(cmd_line) >= len_exact_cmd and\n                            cmd_line[:len_exact_cmd] == exact_cmd\n                        ):\n                            break", "                        if cmd_line:\n                            break")]),
 ('25: overwrite last', 'C25', [(F, "                        idx_positive_list.append(idx_positive_dict[exact_cmd])", "                        idx_positive_list.append(idx_positive)")]),
 ('25: indent drops', 'C25', [(F, "                    str_ret += diff_type + '  ' + line + '\\n'", "                    str_ret += '  ' + line + '\\n'")]),
 ('R: 25 any', '-', [(F, "                    matching_positive_keys = [\n                        key for key in positive_keys\n                        if key == k or key.startswith(k + ' ')]\n                    if not matching_positive_keys:\n", "                    if not any(key == k or key.startswith(k + ' ')\n                               for key in positive_keys):\n")]),
 ('R: 25 loop', '-', [(F, "                    matching_positive_keys = [\n                        key for key in positive_keys\n                        if key == k or key.startswith(k + ' ')]\n                    if not matching_positive_keys:\n                        self.append_command('no ' + k,\n                                            negative_list, positive_list)\n", "                    for key in positive_keys:\n                        if key == k or key.startswith(k + ' '):\n                            break\n                    else:\n                        self.append_command('no ' + k,\n                                            negative_list, positive_list)\n")]),
 ('R: 25 fstring', '-', [(F, "                            k + '\\n' + self.indent(negative_str).rstrip())", "                            '{}\\n{}'.format(\n                                k, self.indent(negative_str).rstrip()))")]),
 ('R: 25 startswith', '-', [(F, "        if cmd[:6] == 'no no ':", "        if cmd.startswith('no no '):"), (F, "            if cmd[:len(short_cmd)] == short_cmd:", "            if cmd.startswith(short_cmd):"), (F, "        if cmd[:3] == 'no ':", "        if cmd.startswith('no '):")]),
 ('R: 25 get_cli', '-', [(F, "            if positive_str:\n                if negative_str:\n                    return negative_str + '\\n!\\n' + positive_str\n                else:\n                    return positive_str\n            else:\n                return negative_str", "            if positive_str and negative_str:\n                return negative_str + '\\n!\\n' + positive_str\n            return positive_str or negative_str")]),
 ('R: 25 item', '-', [(F, "        for k, v, i in list_in:\n            if k == '':\n                continue\n            if v is None:\n                if i == '+':", "        for entry in list_in:\n            k, v, i = entry\n            if k == '':\n                continue\n            if v is None:\n                if i == '+':")]),
 ('R: 25 slice', '-', [(F, "'\\n'.join(reversed(negative_list))", "'\\n'.join(negative_list[::-1])")]),
 ('R: 25 nested', '-', [(F, "                if len(c1) < len(c2):\n                    if c2.startswith(c1 + ' '):\n                        indexes.add(idx2)\n                elif c1.startswith(c2 + ' '):\n                    indexes.add(idx1)\n        if indexes:\n            for idx in sorted(indexes, reverse=True):\n                del negative_list[idx]", "                if c2.startswith(c1 + ' '):\n                    indexes.add(idx2)\n                elif c1.startswith(c2 + ' '):\n                    indexes.add(idx1)\n        for idx in sorted(indexes, reverse=True):\n            del negative_list[idx]")]),
 ('R: 25 dup comp', '-', [(F, "        if indexes:\n            for idx in reversed(indexes):\n                del config_list[idx]", "        for idx in sorted(indexes, reverse=True):\n            del config_list[idx]")]),
 # C30
 ('30: last lost', 'C30', [(F, "        if last_line:\n            if last_indentation > 0:\n                list_ret.append((\n                    last_line.rstrip(), self.config2list(last_section), ''))\n            else:\n                list_ret.append((last_line.rstrip(), None, ''))\n        return list_ret", "        if last_line and last_indentation > 0:\n            list_ret.append((\n                last_line.rstrip(), self.config2list(last_section), ''))\n        return list_ret")]),
 ('30: hash', 'C30', [(F, "            if re.search('^ *!', line) or re.search('^ *%', line):", "            if re.search('^ *!', line) or re.search('^ *[%#]', line):")]),
 ('30: bang anywhere', 'C30', [(F, "            if re.search('^ *!', line) or", "            if re.search(' *!', line) or")]),
 ('30: short lines', 'C30', [(F, "            if len(line.strip()) == 0:", "            if len(line.strip()) < 2:")]),
 ('30: current', 'C30', [(F, "line[:21] == 'Current configuration':", "line[:7] == 'Current':")]),
 ('30: indent cut', 'C30', [(F, "                    last_section += line[last_indentation:] + '\\n'", "                    last_section += line[last_indentation + 1:] + '\\n'")]),
 ('30: indent lost', 'C30', [(F, "                    last_section += line[last_indentation:] + '\\n'", "                    last_section += line[current_indentation:] + '\\n'")]),
 ('30: section kept', 'C30', [(F, "                last_line = line\n                last_section = ''\n", "                last_line = line\n")]),
 ('30: cut short', 'C30', [(F, "                if current_indentation < last_indentation:", "                if current_indentation < last_indentation - 1:")]),
 ('30: replace one', 'C30', [(F, "            str_in_2 = str_in_2.replace(*cmd)\n", "")]),
 ('30: same read', 'C30', [(F, "        list_2 = self.config2list(str_in_2)", "        list_2 = self.config2list(str_in_1)")]),
 ('30: depth', 'C30', [(F, "        return self.handle_orderless(list_1, list_2, 0)", "        return self.handle_orderless(list_1, list_2, 1)")]),
 ('30: flush children', 'C30', [(F, "                if last_line:\n                    if last_indentation > 0:\n                        list_ret.append((\n                            last_line.rstrip(),\n                            self.config2list(last_section),\n                            '',\n                        ))\n                    else:\n                        list_ret.append((last_line.rstrip(), None, ''))\n                last_line = line", "                if last_line:\n                    if last_indentation > 1:\n                        list_ret.append((\n                            last_line.rstrip(),\n                            self.config2list(last_section),\n                            '',\n                        ))\n                    else:\n                        list_ret.append((last_line.rstrip(), None, ''))\n                last_line = line")]),
 ('30: sibling lost', 'C30', [(F, "                    for sibling in reversed(siblings):\n                        config_list.insert(i+j, sibling)\n                        j += 1\n", "")]),
 ('30: lower', 'C30', [(F, "                list_ret.append((last_line.rstrip(), None, ''))\n        return list_ret", "                list_ret.append((last_line.rstrip().lower(), None, ''))\n        return list_ret")]),
 ('R: 30 helper', '-', [(F, "        if last_line:\n            if last_indentation > 0:\n                list_ret.append((\n                    last_line.rstrip(), self.config2list(last_section), ''))\n            else:\n                list_ret.append((last_line.rstrip(), None, ''))\n        return list_ret", "        if last_line:\n            children = self.config2list(last_section) \\\n                if last_indentation > 0 else None\n            list_ret.append((last_line.rstrip(), children, ''))\n        return list_ret")]),
 ('R: 30 blank', '-', [(F, "            if len(line.strip()) == 0:", "            if not line.strip():")]),
 ('R: 30 startswith', '-', [(F, "            if line[0] == ' ':", "            if line.startswith(' '):")]),
 ('R: 30 regex', '-', [(F, "            if re.search('^ *!', line) or re.search('^ *%', line):", "            if re.search('^ *[!%]', line):")]),
 ('R: 30 width', '-', [(F, "len(re.search('^ *', line).group(0))", "len(line) - len(line.lstrip(' '))")]),
 ('R: 30 method', '-', [(F, "        if last_line:\n            if last_indentation > 0:\n                list_ret.append((\n                    last_line.rstrip(), self.config2list(last_section), ''))\n            else:\n                list_ret.append((last_line.rstrip(), None, ''))\n        return list_ret", "        if last_line:\n            list_ret.append(self._entry(\n                last_line, last_section, last_indentation))\n        return list_ret\n\n    def _entry(self, line, section, indentation):\n        if indentation > 0:\n            return line.rstrip(), self.config2list(section), ''\n        return line.rstrip(), None, ''")]),
 # C31
 ('31: no save', 'C31', [(F, "            removed_items[list1[idx][0]] = list1[idx]\n            del list1[idx]", "            del list1[idx]\n            removed_items[list1[idx][0]] = list1[idx]")]),
 ('31: one config', 'C31', [(F, "            if result and item[0] in lines_list1:", "            if result:")]),
 ('31: any', 'C31', [(F, "            if result and item[0] in lines_list1:", "            if item[0] in lines_list1:")]),
 ('31: depth same', 'C31', [(F, "                                               depth + 1)", "                                               depth)")]),
 ('31: match depth', 'C31', [(F, "            if depth == current_depth and re.search(regx, line):", "            if re.search(regx, line):")]),
 ('31: match depth ge', 'C31', [(F, "            if depth == current_depth and re.search(regx, line):", "            if depth <= current_depth and re.search(regx, line):")]),
 ('31: twice', 'C31', [(F, "                        ] if i in lines_orderless1 and\n                        i in lines_list1[last_anchor_1:next_anchor_1] and\n                        i not in inserted\n", "                        ] if i in lines_orderless1 and\n                        i in lines_list1[last_anchor_1:next_anchor_1]\n")]),
 ('31: not marked', 'C31', [(F, "                    list1.insert(offset_idx_1, removed_items[line])\n                    inserted.append(line)\n", "                    list1.insert(offset_idx_1, removed_items[line])\n")]),
 ('31: rest lost', 'C31', [(F, "        for line_2 in [i for i in lines_list2\n                       if i in lines_orderless1 and i not in inserted]:\n            list1.insert(offset_idx_1, removed_items[line_2])\n            offset_idx_1 += 1\n", "")]),
 ('31: rest part', 'C31', [(F, "        for line_2 in [i for i in lines_list2\n                       if i", "        for line_2 in [i for i in lines_list2[offset_idx_2:]\n                       if i")]),
 ('31: ascending', 'C31', [(F, "        for idx in reversed(to_be_removed):", "        for idx in to_be_removed:")]),
 ('31: swap', 'C31', [(F, "            RunningConfigDiff.handle_orderless(list1[lines1[line]][1],\n                                               list2[lines2[line]][1],", "            RunningConfigDiff.handle_orderless(list2[lines2[line]][1],\n                                               list1[lines1[line]][1],")]),
 ('31: from second', 'C31', [(F, "                    list1.insert(offset_idx_1, removed_items[line])\n                    inserted.append(line)\n", "                    list1.insert(offset_idx_1,\n                                 list2[lines_list2.index(line)])\n                    inserted.append(line)\n")]),
 ('R: 31 cond', '-', [(F, "            if result and item[0] in lines_list1:\n                matches[item[0]] = match_type, idx", "            if not result:\n                continue\n            if item[0] in lines_list1:\n                matches[item[0]] = match_type, idx")]),
 ('R: 31 match', '-', [(F, "            if depth == current_depth and re.search(regx, line):\n                return True, idx", "            if depth != current_depth:\n                continue\n            if re.search(regx, line):\n                return True, idx")]),
 ('R: 31 set', '-', [(F, "        inserted = []\n        last_anchor_2 = None", "        inserted = set()\n        last_anchor_2 = None"), (F, "                        inserted.append(line_2)\n                        offset_idx_1 += 1\n                    offset_idx_2", "                        inserted.add(line_2)\n                        offset_idx_1 += 1\n                    offset_idx_2"), (F, "                    inserted.append(line)\n", "                    inserted.add(line)\n"), (F, "                            inserted.append(line_2)\n", "                            inserted.add(line_2)\n")]),
 ('R: 31 pop', '-', [(F, "            removed_items[list1[idx][0]] = list1[idx]\n            del list1[idx]", "            entry = list1.pop(idx)\n            removed_items[entry[0]] = entry")]),
]
if __name__ == '__main__':
    batch(CASES, sys.argv[1].split(','))
