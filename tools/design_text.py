TEXT = {
'C01': dict(
 analysed='every public operation on Config, ConfigDelta and ModelDevice named '
 'in the statement, with everything they reach; each tree-changing call site '
 '(append, remove, set, text=, ...) is one obligation per operation.',
 oracle='regions: an object is fresh if it comes from a constructor or a deep '
 'copy inside the operation; a write is allowed into fresh regions only.',
 reach='a lost deepcopy three calls away shows as a call path from the '
 'operation to the write.',
 limits='flow-insensitive inside a region: a node moved from an operand to a '
 'result counts as a write to the operand at the moving call.'),
'C02': dict(
 analysed='as C01, plus compiler-independent operations on schema trees.',
 oracle='region of schema nodes: everything obtained from get_schema_node, '
 'models[..].tree and what is reached from there.',
 limits='building and marking of ModelDiff trees is C20.'),
'C03': dict(
 analysed='node_add: every path of the pairing loop (peer in config or not, '
 'type, operation).',
 oracle='RFC 6241 section 7.2 as a table: operation x type x peer.',
 reach='the induction is over the recursive call on the pair of children, '
 'which must be made on the right pair with nothing removed before.',
 limits='cases of choices: the nodes of other cases must go (fixed defect); '
 'which case a node belongs to is C16.'),
'C04': dict(
 oracle='RFC 7950 7.7.9/7.8.6: insert first/last/before/after with key/value.',
 limits='the parsing of the key predicates into a lookup is followed only as '
 'far as that the predicate of the delta itself is used.'),
'C05': dict(oracle='every inserted subtree passed through the code that '
 'removes operation, insert, key and value attributes from each descendant.'),
'C06': dict(
 analysed='node_sub, set_create_operation, set_delete_operation, the '
 'leaf-list replacement and the option handling of the constructor.',
 oracle='table side (only target, only start, both equal, both different) x '
 'type x diff_type x preferred_create/replace/delete.',
 limits='what counts as equal is C10.'),
'C07': dict(
 oracle='table depth x side x type: nodes above the depth are compared, at the '
 'depth replaced, below untouched.',
 limits='known finding: minimum-replace marks nodes with an attribute that '
 'has no namespace (see below); its other cells are checked.'),
'C08': dict(
 oracle='in the sequence of entries of one name the first is stated as first '
 'and each other one after its direct predecessor, by value or by all keys; '
 'the path conditions under which a key value is written between quotes must '
 'exclude that the value contains them.',
 limits='minimality of the stated order is not claimed.'),
'C09': dict(oracle='truth table of the six operators over a<=b and b<=a; '
 'comparison with other types.'),
'C10': dict(
 analysed='_node_le, _same_text, the pairing loops, key and leaf-list lookup, '
 'order of user-ordered entries.',
 oracle='a peer has the same tag and, for lists, the same values of all keys, '
 'for leaf-lists the same value; containment needs every child contained.'),
'C11': dict(
 oracle='every consumer of text of an identityref or instance-identifier leaf '
 'passes it through the converter; the converter resolves the prefix in the '
 'scope of its own node.',
 limits='the regular expressions of xpath parsing in ref.py are compared with '
 'expected shapes on sample strings with re on constants of the source, not '
 'proved.'),
'C12': dict(oracle='table node type x status x emptiness x attributes x '
 'outcome of the schema look-up: removed, kept, or the exception to raise.',
 limits='ncdiff does not validate leaf values, so they are not claimed.'),
'C13': dict(oracle='a leaf equal to its default, an empty non-presence '
 'container, a leaf-list that equals all its defaults; keys never.'),
'C14': dict(oracle='node kept iff selected, ancestor or descendant of a '
 'selected one, or key of a kept list entry.'),
'C15': dict(oracle='every path to a sum, delta or positive comparison has '
 'evaluated the compatibility of both devices for every model used.'),
'C16': dict(
 analysed='get_schema_node and its recursion, the cache, load_model.',
 oracle='candidate filter by tag and transparent parents; cache key built from '
 'root and path; purge of nodes of a reloaded model.'),
'C17': dict(
 oracle='order of file effects on every path: removal of the mark, removal of '
 'others, workers, mark.',
 reach='a crash point is the end of any prefix of a path, so order of effects '
 'is the whole argument; no process is killed.',
 limits='durability (fsync) and partial writes of the mark are covered only '
 'in that the mark is compared by its whole content.'),
'C18': dict(
 oracle='per item one task_done on every exceptional path; queue filled before '
 'workers start; join before the dependencies are written.',
 limits='two workers that find the same new dependency at once may both '
 'download it (harmless, both write the same file); the roots element of '
 'the record is not checked; a saved module that fails to parse loses its '
 'submodules, which is logged by the code.'),
'C19': dict(
 oracle='table keyword x substatements x mode (from RFC 7950) of attributes.',
 limits='see "left alone" for typedef defaults and identities; identity values '
 'accumulate over several compile() calls of one compiler; the compaction of '
 'leafref paths is checked for one sample of each step kind.'),
'C20': dict(oracle='table presence x equality x type per child; trimming.'),
'C21': dict(oracle='per operation class the source/target/filter arguments '
 'under every combination of what is given.'),
'C22': dict(oracle='a node is removed iff the access of its own schema node '
 'is read-only, at every depth.'),
'C23': dict(oracle='structural copy: tag, text, attributes, every child once, '
 'in order; comments and processing instructions skipped.'),
'C24': dict(oracle='transition per position of both lists relative to the '
 'common lines: everything before is listed with its sign, then the common '
 'line, and both positions advance past it.',
 limits='that the list of common lines is a longest one is trusted to '
 'difflib and not needed for soundness.'),
'C25': dict(oracle='table of the command for sign x children x reason; '
 'justification of each removal from the lists of commands.',
 limits='the justification is checked by the facts on the path that removes.'),
'C26': dict(oracle='table of sources of the list of modules under every '
 'outcome of requests; namespaces and roots from what is loaded.'),
'C27': dict(oracle='accept/reject table of option values; flow of options '
 'and operands of each operator.'),
'C28': dict(oracle='known hosts before connect unless verification is off; '
 'session closed on failure; the exception passes unchanged.'),
'C29': dict(oracle='36 pairs of notations by partial evaluation.',
 limits='the order of the list of ancestors, its slice, and _get_ns are '
 'trusted; quotes inside key values are not escaped by ncdiff.'),
'C30': dict(oracle='one line is skipped (with a listed reason), an entry, or '
 'a line of the section of the last entry.',
 limits='tabs, and texts whose first line is indented, are outside of the '
 'statement; handle_sibling_cammands does not visit what comes after an '
 'insertion at the end.'),
'C31': dict(oracle='conservation: each removed line is remembered, put back '
 'once, unchanged; only lines in both configs that match at this depth.',
 limits='repeated lines within a section are outside of the statement; that '
 'reordering makes the diff empty is not claimed (C42).'),
'C32': dict(analysed='the functions of __init__.py that replace methods of '
 'ncclient, and ModelDevice._get_ns.',
 oracle='structural copy (tag, attributes, text, nsmap, children in order) by '
 'induction; option table given/not given x element sent x capability '
 'required; prefix table special/model/made-up with the fact that the prefix '
 'is free.',
 limits='new_ele, sub_ele, validated_element, to_xml and the session are '
 'those of ncclient and trusted; the order of options is not checked.'),
'C33': dict(analysed='the text helpers of Model and ModelDiff, each from a '
 'node in general.',
 oracle='table type x attributes of the flags, names and types as characters; '
 'the width is compared with the maximum over the siblings of the section.',
 limits='the order of sections (data, rpcs, notifications) in the text is '
 'decided by the loops of emit_children only as far as C20 does.'),
}
