"""The properties (source of properties.jsonl and MANIFEST.json)."""

PROPERTIES = []


def P(id_, title, statement, over, qtext, why, files, mech, level_note=None,
      na=None, state=None, observe=None, level='proof', technique=None):
  prop = {'id': id_, 'title': title, 'statement': statement,
          'quantifier': {'over': over, 'text': qtext},
          'why_tests_cant': why,
          'anchors': {'files': files,
                      'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
  if state:
    prop['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
  if observe:
    prop['anchors']['observe_at'] = observe
  d = {'prop': prop, 'level_note': level_note, 'na': na, 'level': level}
  if technique:
    d['technique'] = technique
  PROPERTIES.append(d)


LRU = 'py/koladata/ext/storage/lru_size_tracking_cache.py'

P('P01', 'The size-tracking cache never exceeds its byte budget',
  'After any sequence of operations on the storage LRU cache (lookup, insert, remove, clear, '
  'changing the limit), the total size it reports is exactly the sum of the declared sizes of '
  'the entries it holds, and that total lies between zero and the current limit. A negative '
  'limit is rejected with ValueError and changes nothing.',
  ['inputs', 'histories'],
  'all keys, values, entry sizes >= 0, limits, and all histories of operations (induction over '
  'the operation list: every operation preserves the invariant from every state that has it)',
  'the tests run a dozen fixed histories; the accounting has to survive every interleaving of '
  'evictions, duplicate inserts, oversized entries and limit changes',
  [LRU],
  [('total is adjusted on insert, remove, evict and clear', LRU + ': set, remove, clear, _shrink_cache_to_at_most')],
  'Data-structure invariant proved inductive for every public operation and for all inputs: '
  'unbounded dict, unbounded loop (loop invariants). Assumes entry sizes are non-negative ints '
  'and that keys have a lawful __eq__/__hash__; trusts the verifier and its rules for dict/RLock.',
  state=[('entries', 'keys with value and declared size, oldest first', LRU),
         ('total', 'the reported total size', LRU)])

P('P02', 'Lookups, inserts and evictions follow first-writer-wins LRU semantics',
  'An insert under a key that is present returns and keeps the existing value, an insert larger '
  'than the limit is returned but not stored, and any other insert is stored and returned. '
  'Lookups and inserts make their entry the most recently used; evictions remove least recently '
  'used entries first and no more than needed to respect the limit; nothing else ever '
  'removes, reorders or replaces an entry.',
  ['inputs', 'histories'],
  'all keys, values (None, False and other falsy ones included), sizes, limits and histories',
  'tests sample a few histories with small caches; which entry is evicted depends on the whole history',
  [LRU],
  [('pop and re-insert marks an entry as most recent; eviction walks old to new', LRU + ': get, set, _shrink_cache_to_at_most')],
  'Functional postcondition of each public operation over (contents, recency order, limit), proved '
  'for all inputs; histories by composition. Same assumptions as P01.')

P('P03', 'The size-tracking cache is linearizable under concurrent use',
  'When threads operate on one storage LRU cache concurrently, every operation takes effect '
  'atomically: results and final contents are those of some sequential order of the operations. '
  'No operation can deadlock with itself, and the lock is released on every exit, exceptional ones included.',
  ['schedules', 'inputs'],
  'all inputs and all schedules: each operation accesses shared state only inside one critical '
  'section of one lock, so every schedule is equivalent to a sequential one',
  'the single threaded tests run one schedule; races need a switch at one particular bytecode',
  [LRU],
  [('one re-entrant lock held around every access', LRU + ': _rlock in every method')],
  'Lock-discipline contract on ghost lock state (ownership of the fields by the lock; exactly one '
  'critical section per operation; balanced release on all exits), from which atomicity follows by '
  'the standard reduction argument, which is itself not machine-checked. Trusts threading.RLock.')

TM = 'py/koladata/expr/tracing_mode.py'

P('P04', 'Tracing mode is scoped to its block and its execution context',
  'Inside a block that enables or disables tracing the requested mode is in force, and on every exit '
  '(normal or by any exception, which propagates unchanged) the mode that was in force before is restored, '
  'for any nesting. Tracing is off by default, and code running in another thread or task never observes '
  'the change.',
  ['inputs', 'histories', 'schedules'],
  'all modes before and inside the block, all bodies and exits, all nestings, all other contexts',
  'tests enter a few blocks in one thread; a leaked mode needs a particular nesting, exit or interleaving',
  [TM],
  [('mode is kept in a context variable and reset on exit', TM + ': enable_tracing, is_tracing_enabled')],
  'Postcondition of the context manager for arbitrary bodies (normal/exceptional) over a ghost store '
  'context -> mode; proved for one block and, by induction, nestings (three levels are also checked directly). '
  'Trusts contextvars and contextlib.contextmanager.')

P('P05', 'Configured names switch between eager and tracing versions, and only they',
  'After a module is prepared, reading a public name yields the eager object outside tracing and exactly the '
  'registered tracing version (the same object if registered so) while tracing; names registered as eager-only '
  'raise AttributeError while tracing. A public name without registration, and a registration that conflicts with an '
  'earlier one, are rejected with ValueError and change nothing; public names cannot be reassigned.',
  ['inputs', 'histories'],
  'all modules, public name lists, objects (falsy, unhashable and equal-but-distinct ones included) and both modes',
  'tests prepare one small module; objects with unusual truth value, equality or hash are not sampled',
  [TM],
  [('registry keyed by object identity; attribute dispatch on the mode', TM + ': configure_tracing, eager_only, same_when_tracing, prepare_module_for_tracing')],
  'Contracts of the registration functions and of the prepared module over symbolic name lists and objects '
  '(loop over the public names by invariant). Assumes public names are not the dunder names the dispatcher itself defines.')

TQ = 'py/koladata/ext/tqdm/'

P('P06', 'Progress reporters are scoped to their block and execution context',
  'Within the block that installs a progress reporter that reporter (or none) is the active one, and on every exit '
  'the previously active one is active again; exceptions of the block propagate unchanged. There is no reporter by '
  'default, and other threads and tasks never see the change.',
  ['inputs', 'histories', 'schedules'],
  'all reporters, previous reporters, bodies, exits and other contexts',
  'tests use one thread and a handful of nestings',
  [TQ + 'context.py'],
  [('context variable set and reset by token', TQ + 'context.py')],
  'Same ghost-store contract as P04. Trusts contextvars and contextlib.contextmanager.')

P('P07', 'Reports mirror the progress bar and never disturb it',
  'Each display of an enabled bar sends exactly one report, and closing sends exactly one report marked closed, '
  'after which nothing more is sent; every report carries the identifier, counter, total and labels of the bar as '
  'it is, and says it is displayed exactly if it is neither disabled nor closed and removed. A reporter that fails '
  'never disturbs the bar, and without a reporter nothing is sent.',
  ['inputs', 'histories'],
  'all bar states (enabled, disabled, leave or not, unknown total), reporters including failing ones, and histories of display/close',
  'tests look at a few bars; the bar library calls display and close re-entrantly in many orders',
  [TQ + 'tqdm.py', TQ + 'types.py'],
  [('display/close overrides that report', TQ + 'tqdm.py')],
  'Contracts of display and close of the reporting bar from an arbitrary bar state, with the base bar under an assumed '
  'contract that may re-enter display. Assumes reporters fail with Exception subclasses; trusts the tqdm library.')

P('P08', 'User arguments to progress bars win over reporter configuration',
  'When a bar is created under a reporter, each refresh setting of the reporter configuration applies exactly where the '
  'user did not pass that argument; terminal or widget output is suppressed exactly if configured and the user did '
  'not choose otherwise. All other arguments reach the bar unchanged, and without a reporter nothing is added.',
  ['inputs'],
  'all subsets of arguments and configuration fields, all values including zero, None and False',
  'tests sample a few argument sets; the interaction of set/unset/falsy arguments is combinatorial',
  [TQ + 'tqdm.py', TQ + 'types.py'],
  [('constructor merges configuration into keyword arguments', TQ + 'tqdm.py')],
  'Postcondition of the constructor over symbolic presence and value of every argument and configuration field.')

P('P09', 'Progress records round-trip and derived progress is consistent',
  'A progress state written to a record and read back is the same state, except that zero or empty in an optional '
  'field means unknown; writing it again gives the same record. The completed fraction is known exactly if counter and '
  'non-zero total are, the remaining time exactly if additionally the rate is, and they are counter/total and '
  '(total-counter)/rate.',
  ['inputs'],
  'all progress states with every combination of known and unknown fields',
  'tests convert two states; each optional field has its own unknown/zero corner',
  [TQ + 'types.py', TQ + 'proto/progress.proto'],
  [('conversion to and from the record; derived fields', TQ + 'types.py')],
  'Postconditions of the conversions, field defaults read from the .proto of the tree. Numbers are mathematical reals '
  '(nan/infinity only in the executable cross-check); trusts protobuf.')

P('P10', 'Report callbacks are serialised by one lock per reporter',
  'The report hook of a reporter is called exactly once per report with the reported state, always while the lock of '
  'that reporter is held, and the lock is released on every exit even if the hook fails. Reports '
  'from concurrent threads and bars therefore never overlap within one reporter.',
  ['schedules', 'inputs'],
  'all states, hooks (failing ones included), callers and schedules',
  'single-threaded tests cannot see overlapping callbacks',
  [TQ + 'types.py', TQ + 'tqdm.py'],
  [('lock around the hook', TQ + 'types.py')],
  'Lock-discipline contract over ghost lock state on every path; mutual exclusion follows from it and the trusted lock.')

FS = 'py/koladata/file_io/fs_implementation.py'

P('P11', 'Renaming without overwrite never replaces an existing destination',
  'A rename without permission to overwrite fails if the destination exists, a failed rename changes nothing, and a '
  'successful one moves exactly the source to the destination and touches nothing else. The other file operations '
  '(existence, directory test, removal, directory creation, open, glob) act on exactly the given path.',
  ['inputs'],
  'all paths, all kinds of source and destination, both overwrite modes',
  'tests rename a few files; losing data needs the right combination of kinds and flags',
  [FS],
  [('existence check before rename or replace', FS + ': FileSystemInteraction')],
  'Postconditions over a ghost file system (path -> entry). Assumes no other process interferes between check and rename '
  '(as documented) and ignores dangling links; trusts POSIX semantics of os functions.')

P('P12', 'Unwrapping a decorated function always reaches the innermost function',
  'Unwrapping a callable follows the chain of wrapped functions to its end, whatever its length and whatever equality '
  'or hash the callables define, and stops at an attribute that is not callable. It terminates even '
  'on cyclic chains and never fails.',
  ['inputs'],
  'all chains: any length, cyclic ones, unhashable callables and callables with custom equality',
  'tests unwrap chains of length one or two of plain functions',
  ['py/koladata/util/kd_functools.py'],
  [('loop with visited set', 'py/koladata/util/kd_functools.py: unwrap')],
  'Loop invariant plus variant over an abstract wrap relation; assumes the chain reaches finitely many objects and '
  'attribute access is pure.')

DU = 'py/koladata/base/py_conversions/dataclasses_util.py'

P('P13', 'Field types follow the annotations; unsupported annotations are rejected',
  'The type reported for a field, item, key or value is the annotated one with a single optional layer removed and '
  'flagged; any-typed fields are optional with no type check; a missing field gives no answer. Unions other than a type or '
  'none, tuples of fixed length, containers without parameters and unsupported classes raise ValueError and nothing else.',
  ['inputs'],
  'all type annotations, attribute names, both call modes and any state of the shared cache',
  'tests list a dozen annotations; annotations nest arbitrarily and come in several spellings',
  [DU],
  [('case analysis on origin and arguments of the annotation', DU + ': get_class_field_type, maybe_decay_optional')],
  'Postcondition against a declarative case table over uninterpreted typing functions. Assumes typing.get_origin/get_args/'
  'get_type_hints are pure and the cache argument holds results of earlier calls.')

P('P14', 'Made dataclasses compare by fields and list their fields in order',
  'An instance of a dynamically made dataclass equals exactly the dataclass instances with an equal field dictionary, '
  'and comparing it with anything never fails. The class has one field per requested name, in order, defaulting to none; '
  'listing an object yields exactly its field/value pairs in declaration order, or nothing for objects without fields.',
  ['inputs'],
  'all objects compared, all field lists and values',
  'tests compare two or three objects; the other operand can be anything',
  [DU],
  [('custom equality on asdict; field listing', DU + ': _eq, make_dataclass, fields_names_and_values')],
  'Postconditions over uninterpreted dataclass functions, unbounded field count; the field dictionary of the standard '
  'library is trusted.')

DSP = 'py/koladata/ext/storage/data_slice_path.py'

P('P15', 'Data slice paths survive printing and parsing, and mean what they spell',
  'Parsing the text of a data slice path gives the same path, for every sequence of actions and every attribute name. Parsing '
  'any text either gives exactly the actions it spells by the documented grammar or raises ValueError, and always terminates. '
  'Evaluating a path applies its actions in order; concatenation and extension append actions; depth counts them; the '
  'subschema of an action is the documented one or IncompatibleSchemaError.',
  ['inputs'],
  'all action sequences, attribute names (quotes, dots, brackets, empty, reserved-looking ones included) and texts',
  'tests parse a few dozen paths; names and texts that resemble other syntax are unbounded',
  [DSP],
  [('prefix parsers tried in order', DSP + ': parse_from_data_slice_path_prefix, parse_from_string'),
   ('canonical text of an action', DSP + ': GetAttr.__str__, to_string')],
  'Each prefix parser is proved sound for every text and complete on every spelling followed by another one (theory of strings, '
  'cvc5); the parse loop is proved over their contracts with an inductive invariant and a termination variant. '
  'Trusts kd.strings base64/utf-8 to be inverse and ValueError on bad input.')

DBM = 'py/koladata/ext/storage/data_bag_manager.py'
DBM_ASM = ('Assumes update numbers below 10^12, unique uuids, and a file system whose rename without overwrite is atomic '
           'and has no effect when it raises; protobuf messages, serialization and kd.bags.updated are trusted.')

P('P16', 'Adding bags is all or nothing, for every batch and every failure point',
  'add_bags validates the whole batch (fresh names, dependencies added earlier) before it writes anything, and rejects an '
  'invalid one without effect. A failure or crash at any operation leaves exactly the old or exactly the new state on disk, '
  'files complete, older files untouched; a failed call leaves the manager at the old state, and a normal return '
  'means the new state is persisted.',
  ['inputs', 'crash_points', 'histories'],
  'all managers, batches and failures at any file operation',
  'tests add a few bags on a healthy file system; atomicity is about failing at every point of the update',
  [DBM],
  [('bag files first, then metadata in a temporary file renamed into place, memory last', DBM + ': _add_bags, _persist_metadata')],
  'The real add_bags, inlined down to file operations, is proved to reach its single commit point only with every '
  'new file complete and the metadata equal to old entries followed by new ones; every file operation may raise. ' + DBM_ASM)

P('P17', 'Concurrent writers never lose or overwrite a committed update',
  'When managers on one persistence directory update it concurrently, every update that returns normally stays part of every '
  'later state; a manager whose view is out of date fails with an error, changes nothing committed, and '
  'stays usable for reading its own view.',
  ['inputs', 'schedules'],
  'all numbers of managers, batches and interleavings of their file operations',
  'tests run one fixed interleaving of two managers',
  [DBM],
  [('fresh file names; commit by rename without overwrite to the next update number', DBM + ': _add_bags, _persist_metadata')],
  'Rely/guarantee proof: other writers may change the directory between any two file operations within the protocol, '
  'and every step of add_bags obeys it. ' + DBM_ASM,
  state=[('update number', 'the number of the committed metadata a manager extends', DBM)])

P('P18', 'Reading bags yields exactly the dependency closure, in order of addition',
  'load_bags and get_minimal_bag use exactly the requested bags and everything they transitively depend on (plus, with '
  'with_all_dependents, all transitive dependents of the request and what those depend on), no more and no less; get_minimal_bag '
  'merges each of them once, in the order in which the bags were added; canonical_topological_sorting returns exactly the given '
  'names in that order; available names and custom metadata are those of the added bags; unknown names raise ValueError.',
  ['inputs', 'histories'],
  'all dependency graphs, orders of addition and requests',
  'tests use a few small graphs',
  [DBM],
  [('closure of the dependency relation and its reverse; sorting by index of addition',
    DBM + ': _get_dependency_closure, _get_reflexive_and_transitive_closure_image, canonical_topological_sorting, _make_single_bag, get_custom_metadata')],
  'The work-list loops are proved with inductive invariants against the least closed set (it contains the request, is closed, '
  'and lies within every closed set that contains the start); get_minimal_bag is proved over the contracts of the closure, '
  'loading and sorting. Termination of the work list is not proved. ' + DBM_ASM)

P('P19', 'A loaded bag is the bag that was added, whatever the cache holds',
  'Loading bags returns, for every requested name, the data persisted under that name by add_bags, whether it comes from the '
  'shared bag cache or from disk, whatever other managers put in or evicted from the cache, and for branches too; a failed '
  'load raises and changes neither the manager nor what later loads return.',
  ['inputs', 'histories', 'fault_sequences'],
  'all cache contents and evictions, managers sharing the cache, requests and read failures',
  'tests load a few bags with one manager at a time',
  [DBM],
  [('loading through the cache; the cache key of a bag', DBM + ': _load_exactly_these_bags, _read_bag_from_file, _get_bag_cache_key')],
  'Every cache write is proved to store the bag of the file its key names, every cache read may return that bag or nothing; '
  'loading and add_bags are proved with these as invariants. ' + DBM_ASM)

P('P20', 'Branches and extracted copies hold exactly the closure and are independent',
  'create_branch and extract_bags produce a directory whose manager has exactly the dependency closure of the request, each bag '
  'once, in the original order, with its data, dependencies and custom metadata; they change neither the source manager nor any '
  'existing file, write only to the output directory and through the file system given, refuse an output directory that is not '
  'empty without writing to it, and afterwards updates on either side do not show on the other.',
  ['inputs', 'histories', 'crash_points'],
  'all managers (branches of branches included), requests, output directories and failures',
  'tests branch a few fixed managers',
  [DBM],
  [('copying of the metadata of the closure', DBM + ': create_branch'), ('copying of the bags', DBM + ': extract_bags')],
  'create_branch is proved down to its single commit, whose content is proved to be the copied entries of the closure, each '
  'pointing to the file of the original; extract_bags over the contracts of loading, create_new and add_bags. ' + DBM_ASM)

P('P21', 'Opening shows the latest committed state; creating never harms a directory',
  'Opening a persistence directory shows its committed state with the highest update number among those present when it was '
  'opened (or a newer one), ignoring leftovers of failed writers, for every directory name, and writes nothing; a directory '
  'without committed metadata is rejected with ValueError. create_new succeeds on a missing or empty directory, leaving a '
  'committed empty state, and refuses any other directory without writing to it. The file system given is the one used.',
  ['inputs', 'histories', 'schedules'],
  'all directory names and contents, numbers of updates below 10^12, and writers at work during the call',
  'tests open a handful of directories',
  [DBM],
  [('choice of the latest metadata', DBM + ': _read_latest_metadata, create_from_dir'), ('creation', DBM + ': create_new, _persist_metadata')],
  'Proved over a ghost file system with interference; that the glob pattern of the code matches exactly the committed names and '
  'that their lexicographic order is numeric is decided on the pattern text itself (automata inclusion). ' + DBM_ASM)

VIEW = 'py/koladata/ext/view/view.py'

P('P22', 'select, inverse_select, group_by and collapse keep exactly the right items',
  'On one dimension of a Koda View: select keeps, in order, exactly the items whose filter is present; inverse_select puts the items '
  'back, in order, at the places where the filter is present and None elsewhere, so that it undoes select; both reject, by '
  'ValueError, filters with values other than present and None and items or filters of a length that does not fit. '
  'collapse gives the common value of the items that are not None, or None if there is none or they differ. group_by puts items '
  'with equal keys (any number of key columns; the items themselves if there is none) into one group, each group in '
  'the original order, groups in order of first appearance or, with sort, of their keys; items with a None key are dropped, nothing '
  'else is, and falsy items and keys are ordinary ones.',
  ['inputs'],
  'all tuples of items, filters and keys of any length, with arbitrary items (equal but not identical, falsy, unhashable items)',
  'tests list examples of three or four items',
  [VIEW],
  [('loops over the items of one dimension', VIEW + ': _select_impl, _inverse_select_impl, _collapse_impl, _group_by_impl')],
  'Loop invariants against recursively defined specification functions over sequences of unknown length, for an arbitrary number '
  'of key columns. Assumes lawful == and hash of keys and that != is the negation of ==; the contract of sorted is trusted.')

P('P23', 'View operations act on aligned items and give views of the documented shape',
  'A Koda View is a jagged array of a given depth. Comparisons, masks, coalesce, get_attr, get_item, take, map, deep_map apply to the items '
  'of their arguments aligned to the deepest one and give a view of that depth; missing items stay missing unless the operation is '
  'documented to see them (coalesce, include_missing, set_*, append). explode, slices, implode, flatten (all dimension arguments, negative '
  'and out of range ones included), expand_to (with ndim), group_by, collapse, select (with and without expand_filter) and inverse_select '
  'give a view of the documented depth made of the documented items in order. set_attrs, set_item and append change exactly the present '
  'items, with the value aligned to each, in order; no other operation changes an item or a view. Arguments that do not fit (depth, '
  'boxing, scalar, negative numbers) are rejected with ValueError. The kv operators mean the methods '
  'of the same name applied to the boxed first argument, with the same defaults, and return their result.',
  ['inputs'],
  'all depths, jagged shapes, items, dimension arguments, kinds of arguments (views of any depth, the view itself, primitives, values that '
  'cannot be boxed) and user functions',
  'tests list examples with one or two dimensions and a few items',
  [VIEW, 'py/koladata/ext/view/operators.py', 'py/koladata/ext/view/kv.py'],
  [('methods reduce to map_structures over (depth, object) pairs', VIEW + ': View, _map1, _map2, map_, align, box'),
   ('operators', 'py/koladata/ext/view/operators.py')],
  'For every method and operator, over symbolic depths and opaque items: which structures are traversed at which depth, what the leaf '
  'function does to arbitrary leaves, and object and depth of the result. The C++ traversal map_structures has a trusted contract '
  '(the cross-check compiles the real clib.cc against stub headers and runs it). Values given for attributes and items that cannot '
  'be boxed are used as they are.')

SHP = 'py/koladata/ext/storage/schema_helper.py'
DSM = 'py/koladata/ext/storage/data_slice_manager.py'
SMX = 'py/koladata/ext/storage/schema_helper_mixin.py'
COMP = 'py/koladata/ext/storage/composite_initial_data_manager.py'
BRANCH = 'py/koladata/ext/storage/data_slice_manager.py: branch, _get_dir_for_new_branch'

DSV = 'py/koladata/ext/storage/data_slice_manager_view.py'
P('P24', 'The schema graph has exactly the nodes and edges of the schema',
  'For every schema (recursive and shared ones included) a SchemaHelper has exactly one node per struct schema reachable from it and '
  'one per occurrence (place and kind) of a primitive, ITEMID or NONE schema, named by item id or by place, and an edge from a struct schema to '
  'each of its items, keys, values and attributes. Children, parents, leaves, non-leaves, the schema at a node, and the '
  'minimal schema bag of a relationship agree with that graph; names that are not nodes are rejected with ValueError, and so are schemas with OBJECT or '
  'SCHEMA in them. The names affected by an attribute update are exactly the nodes of the new value at that place.',
  ['inputs'],
  'all schemas: any depth, sharing, recursion, attribute names',
  'tests list a dozen schemas',
  [SHP],
  [('breadth-first analysis of the schema', SHP + ': _analyze_schema, get_schema_node_name'),
   ('converse graph and queries', SHP + ': _get_converse_relation, SchemaHelper')],
  'Proved: the name of a node for opaque schemas and actions, the converse relation for relations of any size (loop invariants), '
  'and every query of the graph. Bounded, not counted as proved: the breadth-first construction itself, on generated schemas '
  'with recursion and sharing against an independent reading of the data model.')

P('P25', 'A request loads exactly the parts of the data slice it needs',
  'The schema node names needed to populate given paths are exactly: the node of each path of both arguments, the descendants of the paths that '
  'include descendants, and all ancestors of these; an invalid path is rejected with ValueError. Ancestors and descendants are '
  'the images under the (non-reflexive) transitive closure of the schema graph and its converse, cycles included. The node of a path is '
  'the one its actions lead to; exists(path) tells whether they lead anywhere. The schema bag of a set of nodes has the stub of every node, the relationships between '
  'them and the root, and nothing else. The graph is not changed by queries.',
  ['inputs'],
  'all schema graphs (any size, cyclic ones included), sets of nodes and collections of paths of any length',
  'tests use a few small acyclic schemas',
  [SHP],
  [('transitive closure', SHP + ': _get_transitive_closure_image'), ('needed names', SHP + ': get_schema_node_names_needed_to'),
   ('schema bags', SHP + ': get_schema_bag')],
  'The work list is proved to give the least closed set (start successors, closed, inside every closed superset) for any graph; the '
  'queries over that contract, with loop invariants for collections of any size. Termination of the work list is not proved.')

P('P26', 'Updates of a data slice manager are atomic and exclusive',
  'A successful update() makes exactly the requested change: the slice is the one before with the attribute at the path replaced, it is '
  'committed as the next update number with one more entry in the history (path, attribute, description, and exactly the bags it added), '
  'and earlier entries stay as they are. An update that fails (invalid path, non-entity target, read-only manager, unsupported '
  'schema, i/o error, or somebody else committed first) changes neither the manager nor any committed state; the loser of a race gets an error and what the '
  'winner committed is never overwritten. A failed or crashed update leaves the directory readable as before.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'all managers, paths, attribute values, histories of updates, failures of any file operation, and other writers committing at any moment',
  'tests run fixed histories without failures between operations',
  [DSM],
  [('commit by rename without overwrite', DSM + ': _persist_metadata'), ('memory is changed after the commit', DSM + ': update')],
  'Proved over a ghost file system with interference and i/o faults at every operation: the commit (complete before published, exactly once, never over another, '
  'nothing on failure). Bounded, not counted as proved: the body of update(), run on generated histories with a fault injected '
  'at every file operation and rival commits, against one bag of facts per revision.')

P('P27', 'Every revision can be read back, exactly as it was committed',
  'A manager opened on a directory (latest or any revision) and a read-only copy serve the same slice, schema and history as the manager that committed that '
  'revision; requests for parts serve the data of all nodes that are needed. Opening picks the newest committed revision, or the one asked '
  'for; a revision that is not there, an empty directory or negative numbers are rejected with ValueError; opening writes nothing. create_new works in a missing or '
  'empty directory only, and its result holds the initial data given. The same holds for composite initial data made of several managers.',
  ['inputs', 'histories', 'schedules'],
  'all directory names, histories, revision numbers, requests, and writers at work while the directory is opened',
  'tests open a handful of directories',
  [DSM, SMX, COMP],
  [('which metadata is read', DSM + ': _read_metadata, _get_latest_metadata_version'), ('opening', DSM + ': create_from_dir, get_readonly_copy'),
   ('what is served', DSM + ': get_data_slice, internal_get_data_bag_for_schema_node_names')],
  'Proved: which metadata is read (ghost file system, other writers committing meanwhile), what an opened manager or a copy holds, '
  'for histories of any length (loop invariants over revisions), which bags of which nodes a request is served from. '
  'Bounded, not counted as proved: the composite manager, create_new, and that the served slice equals the one committed '
  '(generated histories).')

P('P28', 'Branches are faithful, independent and never share a directory',
  'branch() at a revision (negative numbers count from the end; others are rejected with ValueError and write nothing) gives a manager whose slice and schema are '
  'those of that revision, with a history of its own whose only entry names the parent directory and revision and exactly the bags of the revisions up to it. '
  'Everything is written before the branch is committed, only into its directory and through the file system given. A '
  'directory in use is refused untouched; without one a fresh directory below the parent is claimed, distinct from those of all other branches made at any time by any '
  'process. Later updates of parent and branch do not affect each other.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'all histories, revision numbers, output directories, file systems, failures of any operation, and branches made concurrently',
  'tests make a few branches one after another',
  [DSM],
  [('branching', DSM + ': branch'), ('claiming a directory name', DSM + ': _get_dir_for_new_branch')],
  'Proved over a ghost file system and opaque collaborators: which bags of which revisions are copied (loop invariants over a history of any length), what the branch '
  'holds and commits, the order of writes and where they go, the refusals. Bounded, not counted as proved: equality of '
  'the slices served, on generated histories with names that collide.')

P('P29', 'A view stands for exactly one path of one data slice manager',
  'A DataSliceManagerView can be created only at a path that exists (otherwise ValueError) and keeps its manager and path. Its schema and data are those the manager '
  'serves at that path (with the additional views asked for), updates and attribute assignments through it are exactly one update of the manager at the path with the name, '
  'value and description given, branch() is the view of a new branch of the manager at the same path; once the path is gone all of these raise '
  'ValueError and change nothing. Navigation (root, parent, grandparent, ancestor, attribute, list items, dict keys and values, children, '
  'descendants) gives views of the same manager at exactly the documented paths, and ValueError where there is none (AttributeError for names '
  'that cannot be used with the dot). Two views are equal exactly if they have the same manager and path.',
  ['inputs', 'histories'],
  'all managers, paths (of any length, existing or not, or gone by now), attribute names, values, and sets of views to populate',
  'tests use one manager with one small schema',
  [DSV],
  [('the view of a path', DSV + ': __init__, __eq__, is_view_valid'), ('navigation', DSV + ': get_ancestor, get_attr, __getattr__, get_list_items'),
   ('data', DSV + ': get_schema, get_data_slice, update, __setattr__, branch')],
  'Proved for all paths and managers, the manager being opaque: creation, validity, equality, navigation up and down, schema, data, '
  'updates, assignment, branches, and that nothing is asked of the manager where the path is gone. Bounded, not counted as proved: children, '
  'descendants, grep and the names listed for completion (real managers with generated histories).')

NA_CC = ('the code is C++ against arolla/abseil headers that are not in this sandbox (it does not build here), and no '
         'installed deductive verifier accepts this C++; a hand-written model of it would be a different family')

P('N01', 'Immutable data stays immutable and forks are isolated',
  'An immutable bag or slice never changes; a fork starts equal to its origin and later changes to either side are not '
  'visible in the other.',
  ['inputs', 'histories'], 'all bags, values and histories of updates', 'tests sample a few update histories',
  ['koladata/data_bag.cc', 'koladata/data_slice.cc', 'koladata/internal/data_bag.cc'],
  [('copy on write and fork flags', 'koladata/data_bag.cc')], na=NA_CC)
P('N02', 'Serialization round-trips every value',
  'Dumping and loading a slice, bag, functor or expression yields an equivalent value, and a corrupt input is rejected.',
  ['inputs'], 'all values of all supported types', 'tests round-trip a fixed list of values',
  ['koladata/s11n', 'py/koladata/functions/s11n.py'], [('codecs', 'koladata/s11n')], na=NA_CC)
P('N03', 'Parallel and sequential evaluation of a functor agree',
  'Evaluating a functor in parallel gives the same result or error as sequential evaluation for every schedule.',
  ['inputs', 'schedules'], 'all functors, inputs and schedules', 'tests run a few functors under one schedule',
  ['koladata/functor/parallel', 'py/koladata/operators/koda_internal_parallel.py'],
  [('parallel transform and executors', 'koladata/functor/parallel')], na=NA_CC)
P('N04', 'Tracing a Python function yields an equivalent functor',
  'Calling the traced functor gives the same value as calling the Python function eagerly.',
  ['inputs'], 'all traceable functions and inputs', 'tests trace a fixed list of functions',
  ['py/koladata/functor/functor_factories.py', 'py/koladata/expr/tracing.py'],
  [('tracing to expressions', 'py/koladata/expr/tracing.py')],
  na='the meaning of a functor is given by the C++ operators and arolla evaluator, neither of which is installed or '
     'verifiable here; the Python part alone cannot state the equivalence')
P('N05', 'Operators compute the documented values with sparsity and broadcasting',
  'Pointwise, aggregation and collapse operators give the documented result for all shapes, types and missing items.',
  ['inputs'], 'all operators, shapes, types and sparsity patterns', 'tests list examples',
  ['koladata/operators', 'koladata/internal/op_utils'], [('operator implementations', 'koladata/operators')], na=NA_CC)
P('N06', 'Conversions between Python, JSON, protos and slices round-trip',
  'Converting to a slice and back gives an equal value for all supported nested values.',
  ['inputs'], 'all nested values of supported types', 'tests list examples',
  ['py/koladata/base/py_conversions', 'koladata/proto', 'koladata/json'],
  [('conversion code', 'py/koladata/base/py_conversions')], na=NA_CC)
