"""Text of the properties and of the manifest entries."""
LOOP = 'path-sensitive abstract interpretation of loop bodies as transition ' \
    'systems'
ENG = 'path-sensitive dataflow/effect analysis over the syntax tree'
TRUST = ('Decided from the source only, nothing is executed and no solver is '
         'used. Trusts the models of lxml/ncclient/pyang calls in '
         'sa/engine.py. Forms the analysis cannot interpret are listed as '
         'undecided in the evidence and raise no alarm.')


def P(id, title, statement, over, forall, why, mech, tech, note):
    return dict(id=id, title=title, statement=statement, over=over,
                forall=forall, why=why, mech=mech, tech=tech,
                note=note + ' ' + TRUST)


PROPS = [
 P('C01', 'Operations leave their operands unchanged',
   'Comparing configs (<, <=, ==, ...), subtracting or adding configs and '
   'deltas, negating or rendering a delta, filtering a config, testing or '
   'printing it, building a Config from an element, a reply or another '
   'Config, and extracting a config from a reply never change the config '
   'trees, elements, replies and configs they are given. A config that '
   'results from addition, filtering, construction or extraction shares no '
   'nodes with its operands, so changing one later does not change the other.',
   ['inputs', 'histories'], 'all operands, all options, every operation in '
   'any order',
   'The tests look at results, not at operands; a lost copy shows only when '
   'the same config is used again after the operation that moved its nodes.',
   [('addition and subtraction work on copies', 'netconf.py:NetconfCalculator.add'),
    ('addition and subtraction work on copies', 'netconf.py:NetconfCalculator.sub'),
    ('filtering works on a copy', 'config.py:Config.filter'),
    ('configs are copied when read', 'netconf.py:_copy_element')],
   'interprocedural ownership and effect analysis (points-to with fresh/'
   'operand/schema regions, per public operation)',
   'Every statement reachable from each public operation that may change a '
   'tree or an attribute is resolved to the regions it may touch; a write '
   'into an operand region is a violation.'),
 P('C02', 'Schema trees are never changed by operations on data',
   'Validating, trimming, comparing, subtracting, adding, filtering, sending '
   'and extracting configs, looking up schema nodes, computing xpaths, and '
   'comparing models never modify or move a node of the schema trees of the '
   'loaded models.',
   ['inputs', 'histories'], 'all operations on data, any number of times',
   'A schema node that is marked, trimmed or moved only shows in a later '
   'operation with the same model.',
   [('look-up of schema nodes', 'manager.py:ModelDevice.get_schema_node'),
    ('default handling reads the schema', 'config.py:Config._trim_defaults'),
    ('requests are built from the schema', 'manager.py:ModelDevice.execute')],
   'interprocedural ownership and effect analysis (points-to with fresh/'
   'operand/schema regions, per public operation)',
   'As C01, with the schema trees as the protected region.'),
 P('C03', 'Applying an edit-config follows the NETCONF operation semantics',
   'For every node of an edit-config that is added to a config, the outcome is '
   'the one RFC 6241 prescribes for its operation and schema type: create on '
   'existing data and delete on missing data raise an error, remove of missing '
   'data does nothing, delete/remove take the data away, replace substitutes '
   'the whole node, merge (and no operation) keeps everything not mentioned '
   'and overwrites leaf values. An unknown operation raises an error instead '
   'of being applied, and an operation on one node never removes siblings '
   'other than members of another case of the same choice.',
   ['inputs'], 'all configs, all edit-configs, all combinations of operation, '
   'node type and presence in the config, at any depth',
   'The tests apply a few dozen hand-written edit-configs; the product of '
   'operation x node type x presence x choice membership x depth is far '
   'larger and most cells are never sampled.',
   [('decision over operation and node type', 'netconf.py:NetconfCalculator.node_add'),
    ('entry point of config + delta', 'netconf.py:NetconfCalculator.add'),
    ('pairing of children', 'calculator.py:BaseCalculator._group_kids')],
   ENG + ': decision table operation x node type x peer',
   'Every abstract path through the pairing loop of node_add is checked '
   'against an RFC 6241 decision table.'),
 P('C04', 'User-ordered entries are inserted where the edit-config says',
   'When an edit-config creates, merges or replaces an entry of a user-ordered '
   'list or leaf-list, the entry ends up first, last, directly before or '
   'directly after the named entry exactly as its insert attribute (with value '
   'or key) says, and at the end (or where it already was) without one. A '
   'missing or unknown reference entry raises an error, and entries that are '
   'not user-ordered ignore the attribute.',
   ['inputs'], 'all user-ordered lists and leaf-lists, all insert values, '
   'reference entries present or absent, new or existing entries',
   'The tests exercise a handful of insertions in two models; the table of '
   'operation x new/existing x insert value x reference is not covered.',
   [('insertion of entries', 'netconf.py:NetconfCalculator.node_add'),
    ('insertion helpers', 'netconf.py:NetconfCalculator._node_add_with_peer_list'),
    ('insertion helpers', 'netconf.py:NetconfCalculator._node_add_without_peer_list')],
   ENG + ': insertion table',
   'Position of each tree insertion (before/after/first/last, relative to '
   'which node) per cell of insert value x entry type x peer.'),
 P('C05', 'A config resulting from an addition carries no edit-config attributes',
   'A config obtained by adding an edit-config or a delta to a config contains '
   'plain data: no node of it carries an operation, insert, value or key '
   'attribute taken over from the edit-config, at any depth and for any '
   'operation.',
   ['inputs'], 'all additions of an edit-config, all node types and depths',
   'Left-over attributes only show when the result is compared or sent again '
   'after one specific operation/type combination.',
   [('removal of the attributes of inserted nodes', 'netconf.py:NetconfCalculator._del_attrib'),
    ('insertion points', 'netconf.py:NetconfCalculator.node_add')],
   ENG + ': every insertion into the result is of a stripped subtree',
   'For every insertion site in the addition code the inserted subtree must '
   'have been stripped of all attributes on that path.'),
 P('C06', 'A generated delta states every difference with the right operation',
   'In the edit-config of a delta, everything only in the target appears with '
   'its content and the preferred create operation, everything only in the '
   'source appears as a deletion with the preferred delete operation and '
   'identified by its list keys or value, a changed leaf appears with the '
   'target value, and what is equal on both sides is left out (list keys '
   'excepted). Default non-presence containers are never deleted or created as '
   'such, and data of another case of a choice that the target replaces is not '
   'deleted explicitly. Operation preferences other than the documented ones '
   'are rejected.',
   ['inputs', 'configurations'], 'all pairs of configs and all operation '
   'preferences', 'The tests compare some config pairs with default '
   'preferences; the product of node type, side, preference and choice '
   'membership is not sampled.',
   [('delta generation', 'netconf.py:NetconfCalculator.node_sub'),
    ('create/delete of non-presence containers', 'netconf.py:NetconfCalculator.set_create_operation'),
    ('create/delete of non-presence containers', 'netconf.py:NetconfCalculator.set_delete_operation')],
   ENG + ': decision table side x node type x preference',
   'Every abstract path through the pairing loop of node_sub is checked '
   'against a decision table; recursion is by induction on the same rule.'),
 P('C07', "Delta type 'replace' replaces at the requested depth only",
   "With delta type 'replace' and a depth, subtrees that differ are marked "
   "with operation 'replace' exactly at that depth (with the complete target "
   "content), content above that depth is handled as in a merge, new nodes "
   "are marked 'replace' and removed ones with the preferred delete operation. "
   "The attribute carries the NETCONF namespace.",
   ['inputs', 'configurations'], 'all pairs of configs, all depths',
   'Two or three config pairs are tested at one or two depths.',
   [('replace below a depth', 'netconf.py:NetconfCalculator.node_sub'),
    ('replacement generation', 'netconf.py:NetconfCalculator.get_config_replace'),
    ('choice of the algorithm', 'netconf.py:NetconfCalculator.sub')],
   ENG + ': decision table depth x side x node type',
   'Same machinery as C06 on get_config_replace and the dispatch in sub.'),
 P('C08', 'A delta states the order of user-ordered entries completely',
   'For every user-ordered list or leaf-list whose entries differ in content '
   'or order, the edit-config of the delta gives each entry of the target an '
   'insert attribute: "first" for the first, and "after" with the key (list; '
   'all keys, each value between quotes that it does not itself contain, so '
   'that the reference can be read) or value (leaf-list) of its immediate predecessor in the target for all '
   'others. Entries that are equal on both sides but needed as reference are '
   'kept.',
   ['inputs'], 'all pairs of configs with user-ordered entries, all '
   'permutations', 'Only some permutations of short lists are tested.',
   [('ordering attributes', 'netconf.py:NetconfCalculator.node_sub'),
    ('ordering attributes', 'netconf.py:NetconfCalculator.get_config_replace'),
    ('target sequence', 'calculator.py:BaseCalculator._get_sequence')],
   ENG + ': per-entry attribute rule on the sequence loop',
   'The loop over the target sequence is summarised: first/after, predecessor '
   'index, key/value attribute and the registered scopes.'),
 P('C09', 'Config comparison operators agree with containment',
   'For two configs, <= and >= tell whether one is contained in the other, < '
   'and > whether it is contained but not equal, == whether both contain each '
   'other, and != is the negation of ==. Comparing a config or a delta with '
   'anything else raises TypeError, deltas have no order, a config is false '
   'exactly when it equals the empty config and a delta exactly when both its '
   'sides are equal.',
   ['inputs'], 'all pairs of configs',
   'Tests evaluate some operators on some pairs; agreement of all eight on '
   'all pairs is a universal statement.',
   [('operators', 'config.py:Config.__le__'), ('operators', 'config.py:ConfigDelta.__bool__'),
    ('operator semantics', 'calculator.py:BaseCalculator.le')],
   ENG + ': truth table of each operator over the two containments',
   'Each operator is reduced to a truth function of the two containment '
   'results and compared with the expected table.'),
 P('C10', 'Containment and pairing of nodes are by identity, value and order',
   'A config is contained in another exactly when every node of it has a '
   'counterpart of the same name (list entries: all keys equal, leaf-list '
   'entries: same value) with the same value and attributes whose children '
   'contain its children, and the relative order of user-ordered entries is '
   'the same. White space inside containers and list entries has no '
   'meaning. Each child of either node takes part in exactly one pair, and '
   'two siblings with the same identity are an error.',
   ['inputs'], 'all pairs of config trees',
   'Tests use a few trees; missed keys or ignored order only show with '
   'multi-key lists or particular permutations.',
   [('containment', 'calculator.py:BaseCalculator._node_le'),
    ('pairing', 'calculator.py:BaseCalculator._pair_children'),
    ('peers', 'calculator.py:BaseCalculator._get_peers'),
    ('values', 'calculator.py:BaseCalculator._parse_text')],
   ENG + ': decision rules of the pairing and containment loops',
   'Rules on every abstract path of the comparison and pairing functions.'),
 P('C11', 'Identityref and instance-identifier values are compared by meaning',
   'Values of type identityref or instance-identifier (also as list keys and '
   'leaf-list values, and of types derived from them by typedef) are compared '
   'by the identity or path they denote: a prefix is resolved with the '
   'namespaces in scope of its own node, or as a module name; in a path a '
   'name without prefix is in the namespace of the name before; and two spellings of the same value are equal while equal '
   'texts with different meaning are not. When such a value is carried over '
   'to another node it is rewritten with prefixes valid there, or an error is '
   'raised.',
   ['inputs'], 'all values and prefix declarations',
   'Tests use one or two prefix combinations, never list keys.',
   [('normalisation', 'calculator.py:BaseCalculator._parse_text'),
    ('carrying over', 'calculator.py:BaseCalculator._merge_text'),
    ('prefix resolution', 'ref.py:IdentityRef.parse_prefixed_id'),
    ('prefix composition', 'ref.py:IdentityRef.compose_prefixed_id')],
   ENG + ': every comparison/copy of a typed value passes the converter',
   'Value flow rules for every consumer of node text plus tables for prefix '
   'resolution and composition.'),
 P('C12', 'A validated config contains only data its models define',
   'After a config has been validated, every node in it has a schema node, '
   'every list entry carries all of its keys, no node carries an operation, '
   'insert, value or key attribute, obsolete nodes (and deprecated ones when '
   'asked) are gone at every depth, and no empty list entries or empty '
   'non-presence containers remain; anything else that is valid is left '
   'untouched, and data that cannot be repaired this way raises ConfigError '
   '(ModelMissing if only the model is not loaded). Creating a config '
   'validates it unless told otherwise.',
   ['inputs'], 'all config trees and models',
   'The tests validate a handful of configs; violations deep inside a tree, '
   'on the second key or on one node type are not sampled.',
   [('validation of a node', 'config.py:Config._validate_node'),
    ('entry point', 'config.py:Config.validate_config'),
    ('roots', 'config.py:Config.roots'),
    ('construction', 'config.py:Config.__init__')],
   ENG + ': decision table node type x status x emptiness x attribute',
   'Every abstract path through the child loop of the validation is checked '
   'against a decision table, recursion by induction.'),
 P('C13', 'Trimming defaults removes exactly the default data',
   'Trimming the defaults of a config removes a leaf exactly when its value '
   'is its default (list keys are always kept), a leaf-list exactly when its '
   'values are its defaults (in the same order if user-ordered, as a set '
   'otherwise; then all entries go), and list entries and non-presence '
   'containers that end up empty. It descends into every subtree and removes '
   'nothing else.',
   ['inputs'], 'all config trees, all models with defaults',
   'Only a few leaves with defaults occur in the test configs.',
   [('trimming', 'config.py:Config._trim_defaults'),
    ('entry point', 'config.py:Config.trim_defaults')],
   ENG + ': decision table node type x default',
   'Every abstract path through the child loop of the trimming code.'),
 P('C14', 'A filtered config keeps exactly the selected subtrees',
   'config.filter(xpath) gives a new config that contains every selected '
   'element with its complete subtree, the ancestors of the selected '
   'elements, the keys of every list entry that is kept, and nothing else; '
   'when nothing is selected it is empty. The original config is not '
   'changed.',
   ['inputs'], 'all config trees and xpath expressions',
   'The tests filter two or three configs; keys of outer lists, nested '
   'selections and siblings are not sampled.',
   [('filtering a node', 'config.py:Config._node_filter'),
    ('entry point', 'config.py:Config.filter')],
   ENG + ': decision table selected/ancestor/key/other',
   'Every abstract path of the filter recursion and the collection of the '
   'node sets.'),
 P('C15', 'Configs of incompatible models are never combined',
   'Adding a config or delta to a config, and building a delta of two '
   'configs, succeeds only if every model used by either operand is loaded '
   'on both devices and has no model difference, and (for two different '
   'devices) exists on both with the same prefix and URL. Otherwise '
   'ModelMissing or ModelIncompatible is raised before anything is computed.',
   ['inputs', 'configurations'], 'all pairs of configs on all pairs of '
   'devices', 'The tests use one device; skipped models or a one-sided '
   'check never show.',
   [('verdict', 'config.py:ConfigCompatibility.is_compatible'),
    ('models', 'config.py:ConfigCompatibility.models_compatible'),
    ('namespaces', 'config.py:ConfigCompatibility.namespaces_compatible'),
    ('use', 'config.py:Config.__add__'), ('use', 'config.py:ConfigDelta.__init__')],
   ENG + ': facts required on every accepting path',
   'Every path that reaches a positive verdict must have tested every model '
   'on both devices; every path that computes a sum or delta must have '
   'evaluated the verdict of its own operands.'),
 P('C16', 'Every data node is paired with its own schema node',
   'The schema node found for a data node is the one at the same path of '
   'the model that owns the root of that path, with choice and case nodes '
   'being transparent and no other node. A cached answer is used only for '
   'the very same path, and after load_model() the cache never returns a '
   'schema node of the replaced model. A node that is not in the model raises '
   'ConfigError, one with several candidates ModelError. The '
   'keys of a list are all keys its model declares, in order, whatever white '
   'space separates them.',
   ['inputs', 'histories'], 'all models, all data trees, all orders of '
   'loading and looking up', 'The tests load each model once and look up '
   'the nodes of a few configs; cache reuse across models and nested '
   'choices are not exercised.',
   [('lookup', 'manager.py:ModelDevice.get_schema_node'),
    ('invalidation', 'manager.py:ModelDevice.load_model'),
    ('path of a node', 'composer.py:Composer.path'),
    ('owner of a node', 'composer.py:Composer.model_name'),
    ('keys', 'composer.py:Composer.keys')],
   ENG + ': decision of the candidate test, cache typestate',
   'Key and value of every cache access, the filter over candidates, the '
   'purge after loading a model and every writer of the tables.'),
 P('C17', 'An interrupted download is not taken as a complete one',
   'need_download is False exactly when capabilities.txt is there and its '
   'whole content is that of the connected device (all server capabilities, '
   'sorted, one per line); only then, and only if checking is asked for, '
   'download_all() does nothing. Otherwise capabilities.txt is removed '
   'before any other file of the folder is removed or written, all other '
   'files (schemas, compiled models, dependencies) are removed before workers '
   'start, and capabilities.txt is written after the last schema has been '
   'worked on, with the text that need_download looks for, and only if no '
   'request of this download ended with an exception other than a refusal '
   '(RPCError) by the device and no schema failed to be saved. A refusal does '
   'not make the download incomplete. So whatever moment the process stops '
   'at, or whichever request fails, the next check downloads again. XML files '
   'of the folder that are missing or damaged are worked out again: reading '
   'them gives None instead of an exception, and the YANG files are parsed.',
   ['crash_points', 'histories'], 'all crash points, failures and earlier '
   'contents of the folder',
   'The tests download once, from a device that answers, into an empty '
   'folder; a stale mark shows only after a failure in between.',
   [('check', 'model.py:ModelDownloader.need_download'),
    ('order of removal and writing', 'model.py:ModelDownloader.download_all'),
    ('failures', 'model.py:ModelDownloader.download'),
    ('damaged files', 'model.py:read_xml')],
   'typestate/ordering analysis of file-system effects on every path, '
   'exceptional paths included',
   'The complete mark is a typestate: removed first, written last, only on '
   'paths whose facts say that no failure was recorded. What workers may '
   'write while download_all runs is forgotten when they start and when they '
   'are joined.'),
 P('C18', 'All schemas are downloaded and parsed, workers never hang',
   'download_all() and load_context() queue every model of the device (every '
   '.yang file of the folder), start at least one worker after the queue is '
   'filled, and wait until the queue is worked off before they write the '
   'dependencies, which begin empty. A worker works on every item it takes '
   'and marks it as done exactly once, after the work, whatever the work '
   'raises; it ends only when the queue is empty. Each schema is requested '
   'by its name; a positive reply is saved whole as <folder>/<module>.yang '
   'in UTF-8, parsed and its dependencies are recorded; nothing is saved from '
   'an error. All modules it imports or includes that have not been asked '
   'for yet are queued, and remembered so that none is asked for again. The '
   'record of a module replaces an earlier one and tells its name, kind, '
   'prefix, namespace, what it belongs to, and every include, import, '
   'revision, augment and deviation; its imports and includes are returned.',
   ['schedules', 'inputs'], 'all sets of modules, failures of single '
   'modules, interleavings of the workers',
   'Tests have no failing download and no thread that dies; a lost '
   'task_done() shows as a hang in the field only.',
   [('download', 'model.py:ModelDownloader.download'),
    ('queue', 'model.py:ModelDownloader.download_all'),
    ('workers', 'model.py:DownloadWorker.run'),
    ('workers', 'model.py:ContextWorker.run'),
    ('files', 'model.py:CompilerContext.load_context'),
    ('record', 'model.py:CompilerContext.update_dependencies')],
   'pairing (get/task_done) and must-pass-through analysis on every path, '
   'exceptional paths included',
   'Each iteration of a worker is one transition: items taken minus items '
   'marked as done is zero at its end, for every exception of every call in '
   'it. Races between two workers that find the same new dependency at the '
   'same time (downloaded twice) are not excluded.'),
 P('C19', 'Compiling keeps what the YANG modules say',
   'compile() gives a schema tree with exactly one node for every data '
   'node, rpc and notification of the module (augmentations included, as '
   'pyang delivers them), below its parent and in the namespace of the '
   'module that defines it. Each node has its keyword as type; the access '
   'that config, rpc, input, output and notification imply; status if '
   'deprecated or obsolete; all defaults; key of lists; ordered-by of lists '
   'and leaf-lists ordered by the user; presence of containers; mandatory of '
   'leafs and choices, and of keys; is_key of keys; the name of its type, '
   'identityrefs with their base and leafrefs with every step of their path; '
   'the values of booleans, enumerations, unions and identityrefs, also '
   'through typedefs: and none of these attributes where the YANG does not '
   'say so. Everything the module imports and all modules that import or '
   'include it are loaded first, from scratch, and validated. The tree tells '
   'the namespace of every module loaded. It is kept in the file of the '
   'module and the same tree is used next time. Submodules are refused.',
   ['inputs'], 'all YANG modules, statements and orders of compilation',
   'Tests compile two small modules without most of these statements.',
   [('nodes', 'model.py:ModelCompiler.depict_a_schema_node'),
    ('access', 'model.py:ModelCompiler.set_access'),
    ('types', 'model.py:ModelCompiler.set_leaf_datatype_value'),
    ('modules', 'model.py:ModelCompiler.compile'),
    ('dependencies', 'model.py:ModelCompiler.get_dependencies'),
    ('model', 'model.py:Model.__init__')],
   ENG + ': decision tables keyword x substatements x mode -> attribute',
   'About 3700 abstract paths of depict_a_schema_node, projected on the '
   'facts that matter to each attribute, against the table of expected '
   'values; every loop of compile and get_dependencies against the members '
   'it has to treat.'),
 P('C20', 'A model diff states every difference between two models',
   'ModelDiff compares two versions of a model node by node: it has nodes '
   '(and is true) exactly if some node, at any level, exists in one version '
   'only or has a different tag, text or attribute. Every node that is only '
   'in the second model is in the diff with all its descendants, all marked '
   '"added"; only in the first one, "deleted"; a node of both whose own '
   'definition differs is marked "modified"; nodes that merely lead to '
   'differences are there without a mark; equal subtrees are not there. '
   'added, deleted and modified are the part of the diff with that mark '
   'and the nodes that lead there, without other marks, or None if there is '
   'none; asking for them does not change the diff. The text of a diff or a '
   'model has every node once, in the section of its kind (data, rpcs, '
   'notifications). Diffs of models with different names are refused, and '
   'the models stay as they are.',
   ['inputs'], 'all pairs of models',
   'No test compares two models that differ.',
   [('comparison', 'model.py:ModelDiff.compare_nodes'),
    ('equality', 'model.py:ModelDiff.node_less'),
    ('one kind of difference', 'model.py:ModelDiff.trim'),
    ('text', 'model.py:ModelDiff.emit_children')],
   ENG + ': decision table presence x equality x node type of every child',
   'Every abstract path through the loops over the children of both nodes '
   'against the table of expected reports, and likewise equality, marking '
   'and trimming.'),
 P('C21', 'The request sent is the request asked for',
   'execute() sends exactly one request, of the operation asked for by name '
   'or class, with the given arguments. With models given, get asks for '
   'exactly the read-write and read-only roots and get_config for exactly '
   'the read-write roots of those models, in a subtree filter; models that '
   'are not loaded raise ModelMissing and no matching root raises '
   'ValueError, before anything is sent. get_config reads running if and '
   'only if no source is given. edit_config sends a Config as its element '
   'and targets running if and only if no target is given and the device '
   'offers writable-running but not candidate. The reply is returned with '
   'its namespaces.',
   ['inputs', 'configurations'], 'all operations, arguments, models and '
   'device capabilities', 'The tests have a mocked device with fixed '
   'capabilities and very few argument combinations.',
   [('requests', 'manager.py:ModelDevice.execute'),
    ('notifications', 'manager.py:ModelDevice.take_notification')],
   ENG + ': decision table per operation, argument flow',
   'execute is analysed once per operation class; every path to the call '
   'of ncclient is judged.'),
 P('C22', 'A config extracted from a reply has no state data',
   'extract_config() builds a validated Config of the reply for this device '
   'and removes exactly the nodes, at any depth, whose own schema node is '
   'read-only; everything else is kept.',
   ['inputs'], 'all replies', 'The tests extract replies of a few shapes; '
   'state data below lists, of leaf type or next to other state data is '
   'not sampled.',
   [('extraction', 'manager.py:ModelDevice.extract_config')],
   ENG + ': decision table access x children',
   'Every abstract path of the recursion over children.'),
 P('C23', 'Configs are read completely and unchanged from any source',
   'A Config can be built from nothing, an XML string, an element, an RPC '
   'reply or another Config; anything else raises TypeError. The content of '
   'rpc-reply/data, data, config, rpc/edit-config/config and '
   'edit-config/config is taken over as it is: every element at any depth, '
   'in document order, exactly once, with its tag, attributes and text; '
   'comments and processing instructions are skipped. Defaults are then '
   'trimmed, and the config is validated unless validate=False.',
   ['inputs'], 'all sources, all trees',
   'The tests read a few documents; attributes, text next to children, '
   'comments and unusual envelopes are not sampled.',
   [('construction', 'config.py:Config.__init__'),
    ('payload', 'netconf.py:NetconfParser.retrieve_config'),
    ('copy', 'netconf.py:_copy_element')],
   ENG + ': structural induction over the copy, table of source types',
   'Every abstract path of construction, payload selection and the recursive '
   'copy.'),
 P('C24', 'A running-config diff states every difference, in both directions',
   'For two running-configs, RunningConfigDiff.diff lists, at every depth and '
   'in order, each line that is only in the first config with sign - and each '
   'line that is only in the second with sign +, exactly once and with all '
   'its children; a common line has no sign and appears when its children '
   'differ, with the differences below it, or as a position reference. There '
   'is no diff (None, false) exactly when no line differs. diff_reverse is '
   'the diff from the second config to the first. str() prints every entry '
   'with its sign, children below their parent with the sign of a parent '
   'that has one.',
   ['inputs'], 'all pairs of configs',
   'The tests compare some forty pairs of configs; repeated lines, '
   'positions of common lines and deep changes are endless.',
   [('comparison', 'runningconfig.py:ListDiff.compare'),
    ('direction', 'runningconfig.py:RunningConfigDiff.get_diff'),
    ('printing', 'runningconfig.py:RunningConfigDiff.list2config')],
   LOOP + ': decision table of one iteration, entry and exit of loops',
   'Loop bodies of the comparison as transition systems: per iteration the '
   'segments before the common line, the common line, the advance of both '
   'positions.'),
 P('C25', 'Generated CLI has a command for every change',
   'The CLI of a running-config diff removes lines before it adds others. An '
   'added line is sent as it is, an added section with all its lines; a '
   'removed line or section is sent with "no" in front ("no no x" is x; '
   'commands listed in SHORT_NO_COMMANDS are shortened to the listed '
   'beginning); changed children follow their parent line, removed and added '
   'ones apart. Added lines are sent in the order of the config, removed '
   'ones in reverse order. A command is left out only if it is a removal of '
   'a line that is equal to, or by whole words the beginning of, an added '
   'line at the same level; an exact duplicate; a "no" command that '
   'begins, by whole words, with another "no" command; a command that is, by '
   'whole words, the beginning of another added one and is not listed as '
   'coexisting; or overwritten by an added command listed as overwritable. '
   'cli_reverse is the CLI of the reverse direction; without differences '
   'there is no CLI.',
   ['inputs'], 'all diffs',
   'The tests check the CLI of some twenty diffs; prefixes of words, '
   'positions of dropped commands and mixed sections are not sampled.',
   [('commands', 'runningconfig.py:RunningConfigDiff.list2cli'),
    ('order', 'runningconfig.py:RunningConfigDiff.get_cli'),
    ('forms', 'runningconfig.py:RunningConfigDiff.handle_command'),
    ('cleanup',
     'runningconfig.py:RunningConfigDiff.remove_unnecessary_positive_commands'
     )],
   LOOP + ': decision table sign x children x reason, justification of every '
   'deletion',
   'Every abstract path of the generation of one command; every deletion '
   'from the command lists must be justified by facts of its path.'),
 P('C26', 'The models of a device are found and loaded as it offers them',
   'models_loadable is the sorted list of the modules the device names: '
   'with an ietf-netconf-monitoring capability those of a get of '
   'netconf-state/schemas, else, or if that request fails or is answered '
   'with an error, with the yang-library 1.0 capability those of '
   'modules-state/module, else, or if that fails too, every module named in '
   'a capability. It is worked out once, and no failing request makes it '
   'raise. scan_models() downloads into the given folder for "check" (the '
   'default; only if needed) and "force" (always) but not for "ignore", and '
   'then compiles from that folder; namespaces are the (name, prefix, URL) '
   'of every module there that has a prefix, never those of an earlier scan, '
   'and raise ValueError before the first scan. load_model() reads an .xml '
   'file, or compiles a model named in models_loadable; other files, unknown '
   'names, and names before scan_models() raise ValueError. The model is '
   'registered under its own name and returned; roots tells the name of the '
   'model for every root of every loaded model.',
   ['configurations', 'histories'], 'all sets of capabilities, failing '
   'requests, orders of scanning and loading',
   'The tests mock one device with one set of capabilities and never let a '
   'request fail.',
   [('list of models', 'manager.py:ModelDevice.models_loadable'),
    ('namespaces', 'manager.py:ModelDevice.namespaces'),
    ('scanning', 'manager.py:ModelDevice.scan_models'),
    ('loading', 'manager.py:ModelDevice.load_model'),
    ('roots', 'manager.py:ModelDevice.roots')],
   ENG + ': decision table capabilities x outcome of requests, exceptional '
   'paths included',
   'Every path of models_loadable with every request possibly raising; '
   'scan_models once per value of download; cached fields against what '
   'resets them.'),
 P('C27', 'Options and algebra of deltas',
   'A ConfigDelta takes only the documented option values (ValueError or '
   'TypeError otherwise) and computes its edit-config with exactly the given '
   'options, from config_src to config_dst (the source itself if neither '
   'target nor delta is given, source + delta if a delta is given). c1 - c2 '
   'leads from c2 to c1, -delta swaps source and target, config - delta is '
   'config + (-delta), delta + config is config + delta, and unsupported '
   'operands give NotImplemented. Random reordering happens only with a '
   'depth, permutes the children of nodes at exactly that depth, keeps '
   'leading list keys in place, loses nothing and is reproducible with the '
   'same seed.',
   ['inputs', 'configurations'], 'all option values, all operand types, all '
   'trees', 'Most option values and operand types are never tried by the '
   'tests.',
   [('options', 'config.py:ConfigDelta.__init__'),
    ('edit-config', 'config.py:ConfigDelta.nc'),
    ('operators', 'config.py:Config.__sub__'),
    ('reordering', 'config.py:ConfigDelta.reorder_children')],
   ENG + ': constant propagation for options, flow of operands',
   'Accept/reject decided per option value by constant propagation; flow of '
   'each option and operand into the calculator.'),
 P('C28', 'Connecting gives a verified, fully set up device or an error',
   'connect() passes all its arguments to the SSH session, loads the known '
   'hosts before connecting unless hostkey_verify is given and false, and '
   'gives a ModelDevice of that session. If connecting fails, the session '
   'is closed (when it has a transport) and the same exception is raised. '
   'The device takes over the options timeout, async_mode and raise_mode '
   'if, and only if, they are given.',
   ['configurations', 'crash_points'], 'all arguments, all failures to '
   'connect', 'The tests replace the session and never fail to connect.',
   [('connecting', 'manager.py:connect'),
    ('options', 'manager.py:ModelDevice.__init__')],
   ENG + ': argument flow and typestate of the session, exceptional paths '
   'included', 'Every path of connect() with the connection possibly '
   'raising.'),
 P('C29', 'Names and paths are converted between notations without mistakes',
   'The notations in Tag mean what they say (YTOOL, XPATH, LXML_XPATH, '
   'JSON_PREFIX: prefix:name; JSON_NAME: module:name; LXML_ETREE: '
   '{URL}name; only LXML_XPATH and LXML_ETREE always write the namespace). '
   'convert_tag() splits a tag as the source notation says, returns its '
   'namespace (the default one if the tag has none and may leave it out, '
   'else ValueError) and the name with the name, prefix or URL of exactly '
   'the model that has that namespace, left out if and only if the target '
   'notation allows it and it is the default one. Unknown namespaces are a '
   'ValueError, except the four well-known ones; a namespace of several '
   'models is a ModelError. convert_ns() gives the value of the one model '
   'that matches, else ValueError. get_xpath() writes every step in the '
   'notation asked for, relative to the namespace of its parent; for config '
   'nodes each list entry is identified by all its keys and their values and '
   'each leaf-list entry by its value (as they are, between double quotes), '
   'the last step only if instance is '
   'true; YTOOL paths start with the model name and have no predicates, nor '
   'have paths of schema nodes. default_in_use() lists exactly the child '
   'leafs and leaf-lists with a default, the default case of choices, and '
   'what is in use below that case and below non-presence containers.',
   ['inputs', 'configurations'], 'all tags, models and nodes',
   'The tests convert a few tags of four models; pairs of notations, '
   'default namespaces and clashes are hardly touched.',
   [('notations', 'composer.py:Tag'),
    ('tags', 'manager.py:ModelDevice.convert_tag'),
    ('namespaces', 'manager.py:ModelDevice.convert_ns'),
    ('paths', 'composer.py:Composer.get_xpath'),
    ('defaults', 'manager.py:ModelDevice.default_in_use')],
   ENG + ': partial evaluation for each pair of notations, decision table of '
   'the remaining paths',
   'Constant folding of the notations; every path of convert_tag for the 36 '
   'pairs of notations, of convert_ns for its 9 pairs, of get_xpath for '
   'three notations with and without instance, and of default_in_use for '
   'the child in general.'),
 P('C30', 'Running-config text is read completely',
   'Every line of a running-config (whose first line is not indented) '
   'becomes exactly one entry, in order, with its text without trailing '
   'white space; only empty lines, lines that start with ! or %, and the '
   'banners "Building configuration"/"Current configuration" are skipped. '
   'Lines indented below a line are its children, read in the same way with '
   'their relative indentation; a line with no lines below has no children. '
   'Both configs are treated alike: the same texts are replaced in both, and '
   'the first config stays the first. Commands listed as siblings are moved '
   'next to the command they are shown in, never dropped.',
   ['inputs'], 'all texts',
   'The tests read some eighty texts; indentation patterns, ends of '
   'sections and odd lines are endless.',
   [('lines', 'runningconfig.py:RunningConfigDiff.config2list'),
    ('both texts', 'runningconfig.py:RunningConfigDiff.running2list'),
    ('siblings',
     'runningconfig.py:RunningConfigDiff.handle_sibling_cammands')],
   LOOP + ': decision table of one line over the reading state',
   'Every abstract path of the treatment of one line: skipped with a reason, '
   'new entry with the one before kept, or line of the current section.'),
 P('C31', 'Orderless commands never lose, add or change lines',
   'Before configs are compared, only lines that match ORDERLESS_COMMANDS '
   'at exactly their depth and are in both configs may change their place, '
   'and only in the first config; each of them is put back exactly once, '
   'unchanged, and all other lines keep their order. The second config is '
   'left as it is. The same holds for the children of common lines, one '
   'level deeper. (No line is repeated within a section.)',
   ['inputs'], 'all pairs of configs',
   'The tests reorder a few lines; combinations of orderless and other '
   'lines are endless.',
   [('moving', 'runningconfig.py:RunningConfigDiff.handle_orderless'),
    ('lookup', 'runningconfig.py:RunningConfigDiff.match_orderless')],
   LOOP + ': conservation typestate of removed lines '
   '(removed, remembered, put back, marked)',
   'Every removal, insertion and mark in every loop of the function with '
   'the facts of its path.'),
 P('C32', 'Requests hold what they are given, and messages can be searched',
   'Every request holds its operation complete: each element once, in order, '
   'with its tag, attributes, text and declared prefixes, without comments '
   'and processing instructions, in an rpc element with the message id; the '
   'Config that is sent stays as it was. An edit-config names the given '
   'target, holds error-option, test-option and default-operation if and '
   'only if they are given (rollback-on-error and test-option require '
   ':rollback-on-error and :validate), then the config or, with format '
   'text, its text, and returns the reply. xpath() of replies and '
   'notifications searches the whole message with the given namespaces, '
   'else with its ns; str() shows the whole message. ns names every '
   'namespace declared anywhere in the message, each by its own prefix: nc, '
   'yang, tailf and ncEvent for the well-known ones, the prefix of the model '
   'unless it is taken, else a made-up one.',
   ['inputs', 'configurations'], 'all operations, configs, options and '
   'messages',
   'The tests replace the session and never look at what is sent.',
   [('requests', '__init__.py:_append'),
    ('edit-config', '__init__.py:request'),
    ('rpc', '__init__.py:_wrap'),
    ('search', '__init__.py:xpath_rpcreply'),
    ('prefixes', 'manager.py:ModelDevice._get_ns')],
   ENG + ': structural copy rule by induction over the tree, decision table '
   'of the options',
   'Every path of the methods ncdiff puts in place of those of ncclient, '
   'and of _get_ns with the loop over nodes in general.'),
 P('C33', 'The text of models and of model diffs is right line by line',
   'Every node of a model is one line of its text: for each ancestor below '
   'the root "|" if that ancestor is followed by a sibling of the same '
   'section, else blank; "+--"; flags (-x for an rpc or action, -n for a '
   'notification, else -w, rw, ro or -- by its access write, read-write, '
   'read-only or other); and the name: (choice), :(case) without flags, "*" '
   'behind lists and leaf-lists, "?" behind non-mandatory choices, leafs, '
   'anyxml and anydata, keys of a list in brackets. The prefix of the '
   'model\'s own namespace is left out, names of other namespaces are '
   'written with a prefix. Behind the name follow the type (<anyxml>, '
   '<anydata>, or datatype) and the if-feature in braces, in the same column '
   'for all siblings, behind the longest name. In a diff of models the mark '
   'of a changed node stands in that column.',
   ['inputs'], 'all models and pairs of models',
   'The tests compare the text of two models.',
   [('flags', 'model.py:Model.get_flags_str'),
    ('names', 'model.py:Model.get_name_str'),
    ('types', 'model.py:Model.get_datatype_str'),
    ('lines', 'model.py:Model.get_depth_str'),
    ('columns', 'model.py:Model.get_width'),
    ('diffs', 'model.py:ModelDiff.get_diff_str')],
   ENG + ': decision table node type x attribute values against the text '
   'built',
   'Texts are followed character by character through concatenation and '
   'formatting for each type of node and each combination of attributes the '
   'code tests.'),
 P('C40', 'Applying a delta to its start config gives the target config',
   'For any two configs of the same device, adding to the first the delta '
   'between them gives a config equal to the second, whatever options the '
   'delta is made with.',
   ['inputs'], 'all pairs of configs, all options',
   'The tests try some pairs of configs; the space of pairs is unbounded.',
   [('delta', 'netconf.py:NetconfCalculator.sub'),
    ('application', 'netconf.py:NetconfCalculator.add')], '', ''),
 P('C41', 'Generated CLI turns one running-config into the other',
   'Entered on a device that has the first running-config, the commands '
   'generated by a running-config diff leave the device with the second one.',
   ['inputs', 'configurations'], 'all pairs of configs, all devices',
   'The tests compare texts; no device is involved.',
   [('commands', 'runningconfig.py:RunningConfigDiff.get_diff')], '', ''),
 P('C42', 'Running-configs equal but for orderless commands have no diff',
   'Two running-configs that differ only in the order of orderless commands '
   'have an empty diff.',
   ['inputs'], 'all pairs of configs',
   'The tests reorder a few lines of few configs.',
   [('moving', 'runningconfig.py:RunningConfigDiff.handle_orderless')],
   '', ''),
 P('C43', 'Deltas and diffs are minimal',
   'A delta has no edit and a running-config diff has no line that could be '
   'left out with the same outcome.',
   ['inputs'], 'all pairs of configs',
   'The tests compare with texts that are taken to be minimal.',
   [('delta', 'netconf.py:NetconfCalculator.node_sub'),
    ('diff', 'runningconfig.py:RunningConfigDiff.compare')], '', ''),
]
NOT_APPLICABLE = {
    'C40': 'Equality of two computed values over all pairs of trees: the '
    'composition of both recursions over matching, choices, defaults and '
    'order depends on run-time data that no static rule in reach bounds. '
    'What is decidable of it, the outcome per node of each direction, is '
    'claimed as C03-C08 and C10.',
    'C41': 'Quantifies over the parser of the device, of which there is no '
    'source. That a command is generated for every difference is claimed as '
    'C24 and C25.',
    'C42': 'Depends on the sequence of indices computed at run time (where a '
    'line is put back in relation to all others); static analysis decides '
    'conservation of lines (C31), not their final order.',
    'C43': 'Minimality is a global optimum over run-time values (the longest '
    'common subsequence); a static rule on single statements cannot decide '
    'it.',
}
