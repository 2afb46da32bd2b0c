"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
INIT = 'src/footprints/__init__.py'; COL = 'src/footprints/collectors.py'; ACC = 'src/footprints/access.py'
PRI = 'src/footprints/priorities.py'; UT = 'src/footprints/util.py'; REP = 'src/footprints/reporting.py'
CFG = 'src/footprints/config.py'; STD = 'src/footprints/stdtypes.py'; DOC = 'src/footprints/doc.py'; PRX = 'src/footprints/proxies.py'


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


p('C01', "Resolved attributes honour their declaration",
  "When a description is accepted by a footprint (successfully resolved), every attribute that ends up with a value has first been remapped through the declared remap table until no entry applies, and is then an instance of the declared type (built with the declared constructor arguments when it was not one already) or a subclass of it for class-valued attributes, belongs to the declared values when there are any, and is not one of the outcast values. A value that cannot be brought to satisfy this (the constructor of the type refuses it with a value, type or footprint error, or it is not acceptable) is discarded for that attribute instead of being let through or aborting the search; optional attributes left undefined are exempt.",
  ['inputs', 'configurations'], "every footprint definition (type, args, isclass, remap, values, outcast, default) and every description",
  "the tests resolve a few dozen fixed (definition, description) pairs; the space of definitions times descriptions is unbounded",
  [INIT], [('resolve', INIT + ':Footprint.resolve'), ('in_values', INIT + ':Footprint.in_values'), ('definition-time retyping of values and outcast', INIT + ':Footprint.__init__')],
  observe=['Footprint.resolve', 'FootprintBase.footprint_couldbe', 'FootprintBase.__init__'])

p('C02', "Origin of an attribute's value: description, alias, default settings, default",
  "The value an attribute starts from is the one given under its own name in the description, otherwise the one given under one of its aliases, otherwise the one registered in the global default settings, otherwise, for optional attributes only, the declared default (asked for its value if it is able to compute one), and otherwise nothing: the undefined marker for an optional attribute, a missing value for a mandatory one. For an optional attribute a None in the description counts as not given; falsy values that are not None are ordinary values. Exactly the attributes taken from the description, an alias or the default settings are counted as user inputs.",
  ['inputs', 'configurations'], "every footprint, description and content of the default settings",
  "tests cover some combinations of presence in name/alias/settings/default, not the full table, nor falsy values",
  [INIT], [('first guess', INIT + ':Footprint._firstguess'), ('cached key table', INIT + ':Footprint._firstguess_keys')],
  observe=['Footprint.resolve', 'FootprintBase.footprint_couldbe'])

p('C03', "A class is eligible only when fully resolved and all its `only` rules hold",
  "A class accepts a description only if every one of its attributes got a value (optional ones may hold the undefined marker) and every rule of its `only` clause is satisfied. A rule is looked up in the resolved values, then in the default settings, and fails when no value is found; it holds when at least one of its allowed items accepts the value: `after_x` means greater than or equal, `before_x` strictly lower, items able to match are asked to match, anything else must be equal.",
  ['inputs', 'configurations'], "every class definition (attributes and only rules), description and settings; with or without a report",
  "tests try a handful of only-clauses; the rule kinds, boundaries and multi-item combinations are not enumerated",
  [INIT], [('couldbe', INIT + ':FootprintBase.footprint_couldbe'), ('checkonly', INIT + ':Footprint.checkonly')],
  observe=['FootprintBase.footprint_couldbe', 'Footprint.checkonly'])

p('C04', "Attribute references in values are replaced by settled values, or refused",
  "A bracketed reference in a string value is replaced only by the value (or the property, method result or formatted form that is asked for) of an attribute whose own resolution is finished, or by extra information available with the description; values still pending are waited for. A reference to something unknown uses its inline fallback when it has one and otherwise raises the unreachable-attribute error; text that is substituted is inserted verbatim (references it contains are processed in turn), and a value still holding a reference is never accepted as resolved. Resolution always terminates: circular references end with the dedicated too-many-replacements error, while a footprint with many attributes or a long acyclic chain resolves.",
  ['inputs', 'programs'], "every set of attribute values containing references, in any order and nesting, and every content of the substituted values",
  "tests have a dozen reference strings; order of attributes, chain lengths, self references and special characters are unbounded",
  [INIT, UT], [('replacement', INIT + ':Footprint._replacement'), ('property/method access', INIT + ':Footprint._process_replm'), ('resolution queue', INIT + ':Footprint.resolve'), ('extras', INIT + ':Footprint._findextras / _addextras')],
  observe=['Footprint.resolve'])

p('C05', "The best candidate wins",
  "When several classes accept a description, the one that is instantiated has the highest current priority level and, among equal levels, the largest number of attributes taken from the user's inputs. The object is built from that class with the attribute values resolved for that very class; when nothing accepts the description the result is None. A choice between several candidates is always notified: as a warning when the first two have the same level (the choice rests on the inputs alone), at the level set on the collector otherwise.",
  ['inputs', 'configurations', 'histories'], "every set of candidate classes, priorities (including levels changed afterwards) and descriptions",
  "tests compare two or three classes; maximality over any candidate set and any priority history cannot be sampled",
  [COL, INIT], [('find_best', COL + ':Collector.find_best'), ('weight', INIT + ':FootprintBase.footprint_weight'), ('find_all triples', COL + ':Collector.find_all')],
  observe=['Collector.find_best', 'Collector.load', 'Collector.pickup'])

p('C06', "A search sees every collected class, whatever the reporting mode",
  "Searching for all candidates returns each collected class that accepts the description, together with the values and inputs resolved for that very class, and no other class. Searching for any candidate returns an object whenever at least one class accepts the description, and None otherwise. The reporting mode (none, on error, light, full) never changes the outcome: it only decides what is recorded, and in on-error mode a failed search, and only a failed one, is replayed once with recording.",
  ['inputs', 'configurations'], "every collector content, description and reporting mode",
  "tests run the default reporting mode on small collectors",
  [COL], [('find_all', COL + ':Collector.find_all'), ('find_any', COL + ':Collector.find_any')],
  observe=['Collector.find_all', 'Collector.find_any'])

p('C07', "The fast-track index is only an optimisation",
  "Declaring fast-track attributes on a collector never loses a candidate: the pre-selected subset always contains every collected class that could accept the description. Classes for which such an attribute is optional, absent, free of declared values or remapped are always part of the subset, and the subset follows every later addition or removal of classes.",
  ['inputs', 'configurations', 'histories'], "every collector history (definitions, removals, re-definition of the fast-track set) and description",
  "one test compares a fixed set of classes; histories of add/discard and value/type mixes are unbounded",
  [COL], [('index update', COL + ':Collector._upd_fasttrack_index'), ('subset', COL + ':Collector._fasttrack_subsetting'), ('removal', COL + ':Collector.discard')],
  state=[('_fasttrack_index/_fasttrack_trap', 'per attribute: classes by value, and classes always kept', COL)],
  observe=['Collector.fasttrack', 'Collector.find_all'])

p('C08', "Collector membership, filters and removals act on exactly the right classes",
  "A collected class stays in its collector until it is explicitly discarded. The package, flag and level filters return exactly the collected classes that satisfy the stated criterion (name prefix; flag method equal to the wanted value, true when none is said; level at or above, respectively strictly below, the given one), each discard operation removes exactly what the filter of the same name returns, and resetting a package's level changes the priority of exactly the classes of that package, to the given level.",
  ['inputs', 'histories'], "every collector content, package name, flag and level",
  "tests use one collector and a couple of levels; boundary levels and complementarity are not explored",
  [COL, INIT], [('filters', COL + ':Collector.filter_*'), ('discards', COL + ':Collector.discard_*'), ('reset', COL + ':Collector.reset_package_level')],
  observe=['Collector.filter_higher_level', 'Collector.discard_package'])

p('C09', "Defining a class registers it exactly where it belongs, or not at all",
  "A concrete class is added to the collector of each of its tags and its future instances are announced to those collectors (unless a collector opted out of registration); an abstract class is only added to the set of abstract classes and can never be selected nor instantiated. A definition that is refused (no mandatory attribute although the class is explicit, or an attribute or alias named like one of its collector tags) leaves no trace in any collector.",
  ['programs'], "every class definition (bases, tags, abstract, explicit, attributes and aliases, decorators)",
  "tests define a few classes; combinations of several tags, abstract bases and refusals are not covered",
  [INIT, COL], [('metaclass', INIT + ':FootprintBaseMeta.__new__'), ('abstract guard', INIT + ':FootprintBase.__init__'), ('collector add', COL + ':Collector.add')],
  observe=['class statement', 'collectors.items()'])

p('C10', "Footprints are inherited by merging and never altered afterwards",
  "The footprint of a class merges those of its bases, right-most base first and the class's own last so that the later one wins, exactly like method inheritance; absent fields get their documented defaults. Definitions are isolated: building, resolving, querying or subclassing never modifies the footprint of another class, the dictionaries the user wrote, or a mutable piece handed out to callers as a copy; after definition only the priority level may change, through the priority interface.",
  ['programs', 'histories'], "every inheritance graph, and every sequence of operations after the definitions",
  "tests check a few merges; absence of aliasing over all operations is a property of every path in the code",
  [INIT, UT], [('merge', INIT + ':Footprint.__init__'), ('base order', INIT + ':FootprintBaseMeta.__new__'), ('memoised key tables', INIT + ':Footprint._resolve_keys')],
  observe=['Footprint.attr', 'Footprint.as_copy'])

p('C11', "Attribute access modes are enforced, instance by instance",
  "A read-only attribute can be neither rebound nor deleted, a read-write one can be rebound but not deleted, a read-write-delete one can be both; each refused operation raises AttributeError and changes nothing. The weak variants store a weak proxy for any real value. An operation on one object affects that object only, and the attribute storage refuses writes and deletions that do not carry the class's own authorization.",
  ['inputs', 'histories'], "every access mode, object and sequence of reads, writes and deletions",
  "tests check the three modes on one object; effects on sibling objects and repeated deletions are not covered",
  [ACC, INIT], [('descriptors', ACC + ':FootprintAttrDescriptor*'), ('storage guard', INIT + ':FootprintBase.footprint_setattr / footprint_delattr'), ('descriptor installation', INIT + ':FootprintBaseMeta.__new__')],
  observe=['obj.attr = value', 'del obj.attr'])

p('C12', "Writing an attribute is validated like resolving it",
  "Assigning a writable attribute converts the value to the declared type with the declared constructor arguments (None excepted), or demands a subclass for class-valued attributes, then refuses a value outside the declared values or within the outcast ones. A refusal (a value or type error of the constructor included) raises ValueError and leaves the attribute as it was; what is accepted is what gets stored.",
  ['inputs', 'configurations'], "every declaration of a writable attribute and every assigned value",
  "tests assign a few values to a few attributes",
  [ACC, INIT], [('__set__', ACC + ':FootprintAttrDescriptorRWD.__set__'), ('in_values', INIT + ':Footprint.in_values')],
  observe=['obj.attr = value'])

p('C14', "Live objects are tracked, dead ones are not retained",
  "Every object of a collected class, whether built by selection, directly, by cloning, copying or unpickling, is announced to the collectors of its class and appears among their instances as long as it is alive. The library keeps only weak references to instances in collectors and, by default, to classes and collectors in reports, so tracking never keeps an object alive. A collector asks for the instances of its classes unless it was told otherwise.",
  ['histories', 'programs'], "every way of creating objects and every lifetime",
  "tests create objects one way and look once; leaks and missed creation paths need all paths",
  [INIT, COL, REP], [('notification', INIT + ':FootprintBase.footprint_riseup'), ('construction and unpickling', INIT + ':FootprintBase.__init__ / __setstate__'), ('instances catalog', COL + ':Collector.newobsitem')],
  observe=['Collector.instances'])

p('C15', "default() only reuses a reusable and compatible object",
  "Asking for a default object returns an existing live instance only if its class allows reuse and the description, once resolved by that instance's footprint, gives every attribute a value equal to the one the instance holds; otherwise a new object is looked up by the normal selection with the same description. Searching instances by attribute values (grep) returns exactly the live instances having all the given attributes with equal values.",
  ['inputs', 'histories'], "every set of live instances and description",
  "tests have one or two instances",
  [COL, INIT], [('default', COL + ':Collector.default'), ('compatible', INIT + ':FootprintBase.footprint_compatible'), ('grep', COL + ':Collector.grep')],
  observe=['Collector.default', 'Collector.grep', 'footprints.default', 'footprints.grep'])

p('C16', "Descriptions are not disturbed by selection",
  "Resolving, searching or loading never modifies the description nor the values it holds. Picking up adds one entry to the description, the selected object under the collector's tag (or None), and removes only the attributes and aliases that this object's footprint consumed and the hidden underscore options (the module-level function also takes away the entry that names the collector); when an object is already present under the tag it is kept and used for that clean-up.",
  ['inputs'], "every description and every collector",
  "tests compare a few descriptions before and after",
  [INIT, COL], [('pickup', COL + ':Collector.pickup_and_cache'), ('cleanup', INIT + ':FootprintBase.footprint_cleanup'), ('track', INIT + ':Footprint.track')],
  observe=['Collector.pickup', 'footprints.pickup', 'Footprint.resolve'])

p('C17', "Copies, clones and exports are faithful and independent",
  "Copying an object gives one that holds the same attribute values in its own storage, so that rebinding an attribute of either does not show in the other. A clone is a fresh object of the same class built through full resolution of the original's attributes overridden by the extra ones; a full clone also holds the public instance attributes of the original (and shares none of its private ones), an ordinary one does not. An almost-clone is loaded from the deep dictionary view of the original overridden by the extra attributes. Dictionary views cover every attribute with its current value (deep copies for the deep view), and the export uses for each attribute the dedicated export method of the object, else the value's own export ability, else a deep copy.",
  ['inputs', 'histories'], "every object and every subsequent modification",
  "tests export and clone a few objects and do not modify the copies",
  [INIT], [('clone', INIT + ':FootprintBase.footprint_clone'), ('dict views', INIT + ':FootprintBase.footprint_as_dict / footprint_as_shallow_dict'), ('export', INIT + ':FootprintBase.footprint_export'), ('state', INIT + ':FootprintBase.__getstate__ / __setstate__')],
  observe=['footprint_clone', 'footprint_as_dict', 'footprint_export', 'copy.copy'])

p('C18', "Undefined optional attributes read as None",
  "An optional attribute that was given no value reads as None on the object, in its dictionary views and in its exports, counts among its undefined attributes, and can be given a weak access mode like any other; this remains true for objects that were copied or unpickled. The internal undefined marker is never visible through the object.",
  ['inputs', 'histories'], "every object with undefined attributes, before and after copy or pickle round trips",
  "tests read undefined attributes on freshly built objects only",
  [INIT, ACC], [('read access', INIT + ':FootprintBase.footprint_getattr'), ('weak proxies', INIT + ':Footprint.resolve'), ('unpickling', INIT + ':FootprintBase.__setstate__')],
  observe=['obj.attr', 'footprint_as_dict', 'footprint_undefs'])

p('C19', "Priority levels form one consistent order",
  "Levels compare by their current position in their set: equality, order and rank always agree, and comparing with something that is not a level of the set is simply not equal. Adding, inserting before or after, moving up, down, to the top or bottom and removing act on the named level only, keep every other level in its relative order and keep each name once, whatever the letter case; an operation naming an unknown level fails without changing the set.",
  ['inputs', 'histories'], "every priority set and sequence of operations",
  "tests run one sequence of operations on the default set",
  [PRI], [('level comparisons', PRI + ':PriorityLevel'), ('set operations', PRI + ':PrioritySet.extend / insert / rerank / remove')],
  state=[('_levels', 'ordered list of upper-case names', PRI)],
  observe=['priorities.top', 'PriorityLevel.rank'])

p('C20', "Frozen priority orders are snapshots",
  "Freezing records the current order under a name (any name but the default one); restoring that name, or resetting to the initial order, brings back exactly the recorded levels in the recorded order with a usable level object for each. Later operations on the set never alter a recorded order.",
  ['histories'], "every sequence of freezes, modifications and restorations",
  "tests freeze and restore once",
  [PRI], [('freeze/restore/reset', PRI + ':PrioritySet.freeze / restore / reset')],
  observe=['PrioritySet.freeze', 'PrioritySet.restore'])

p('C21', "Expanding a description yields the full product, and nothing else",
  "Expanding a description replaces each list, tuple, set, comma-separated string or inclusive integer range by its items, one description per combination, numbered from 1 in order, and resolves dictionaries keyed by another entry with that entry's value. Containers and strings of the protected kinds (FP types) are left alone; each result is a dictionary of its own, the original description is left unchanged, and too deep an expansion ends with an error rather than looping.",
  ['inputs'], "every description",
  "tests and docstrings expand about ten descriptions",
  [UT], [('expand', UT + ':expand'), ('inplace', UT + ':inplace')],
  observe=['util.expand'])

p('C22', "Glob statements are parsed faithfully",
  "A glob statement is turned into a file pattern and a regular expression in which literal text stands for itself, each named part becomes one named group and one wildcard, nested and escaped braces are honoured, and the whole file name must match; the files found are taken in sorted order. Duplicate names, unbalanced braces and invalid expressions raise ValueError; captured texts replace the matching references of the other entries verbatim.",
  ['inputs'], "every glob string and file name",
  "tests parse a few strings",
  [UT], [('parser', UT + ':_parse_globs'), ('substitution', UT + ':inplace')],
  observe=['util.expand'])

p('C23', "Every rejection is reported, for the right attribute and reason",
  "When a report is requested, each attribute that ends without a value has at least one entry naming that attribute and why (missing, invalid null string, not in values, outcast, could not reclass, not a subclass), each failed `only` rule has one (no value found or do not match); no entry is made for an attribute that was accepted, and one rejected for its value when it is settled is not reported as missing too. Entries are recorded under the class being tried, within the collector being searched. Asking for a report or not never changes the result.",
  ['inputs', 'configurations'], "every definition and description, with and without a report",
  "tests look at the reports of a few failures",
  [INIT, COL, REP], [('resolution diagnostics', INIT + ':Footprint.resolve'), ('only diagnostics', INIT + ':Footprint.checkonly'), ('report contexts', INIT + ':FootprintBase.footprint_couldbe')],
  observe=['FootprintLog', 'Collector.report_log'])

p('C24', "Reports always reflect the recorded history",
  "Dictionary and XML views of a report contain exactly what has been recorded when they are asked for, whichever views were asked for before and in whichever style; flat and factorized views are fed with every recorded entry (dictionary views are keyed by search, class and attribute: of several entries for the same attribute of a class, or the same class in a search, they show the last). Entries are attached to the class and collector in progress, and an entry without such a context is refused with the dedicated error. Clearing a report or reducing it to its last search leaves exactly nothing, or that search, and the bound on the length of the history stays in force.",
  ['histories', 'inputs'], "every sequence of recordings and views",
  "tests produce each view once",
  [REP], [('log', REP + ':FootprintLog'), ('views', REP + ':FootprintLogCollector / FootprintLogClass'), ('flat and factorized', REP + ':FlatReport / FactorizedReport')],
  observe=['FootprintLog.as_dict', 'FootprintLog.as_xml', 'FootprintLog.whynot'])

p('C25', "Settings, defaults, extras and proxies reach every resolution",
  "Default settings replaced or updated at any time, the extended switch, the extra-information callback and the fatal and fast modes are taken into account by every later resolution; extra information comes, by decreasing priority, from the footprint objects found in the description, the callback, the other entries of the description and, in extended mode, the default settings, and never overrides an attribute being resolved. Proxies registered in the setup are given, for every existing and every future collector, its load function under its tag and the collector itself under the plural tag (a new proxy keeps the attributes it already has unless it is cleared), and the generic proxy does the same on the fly for existing collectors only.",
  ['configurations', 'histories'], "every sequence of setting changes, proxy registrations and resolutions",
  "tests change a few settings once",
  [CFG, PRX, COL, INIT], [('setup', CFG + ':FootprintSetup'), ('proxy population', CFG + ':add2proxies / FootprintSetup.add_proxy'), ('generic proxy', PRX + ':FootprintProxy'), ('per-search cache', COL + ':ResolveCache')],
  observe=['footprints.setup', 'footprints.proxy'])

p('C26', "Protected containers behave as hashable values",
  "Equal protected dictionaries, lists, sets, strings and tuples have equal hashes, however they were built, and keep the behaviour of the plain type they stand for. Their items view is a copy of the container; a set exports as a list of all its items, a regular expression exports as its pattern and flags, can be deep-copied and gives access to the compiled expression.",
  ['inputs'], "every content and order of construction",
  "tests build one value of each type",
  [STD], [('hash', STD + ':FPDict / FPList / FPSet'), ('copy and export', STD + ':FPRegex / FPSet')],
  observe=['hash()', 'footprint_export'])

p('C27', "Generated documentation covers every attribute, in the declared order",
  "The generated documentation of a footprint describes every attribute, with its access mode, its default when it is optional, its values and outcast, and lists every alias and `only` rule. Attributes are ordered by visibility level first, then by decreasing z-order, then by name.",
  ['inputs', 'configurations'], "every footprint, visibility set and z-order",
  "tests format two footprints",
  [DOC, INIT], [('sphinx formatter', DOC + ':_formating_sphinx_v1'), ('z-order clamp', INIT + ':Footprint.__init__')],
  observe=['doc.format_docstring'])

p('C28', "Questions about a footprint agree with its definition",
  "The mandatory attributes are exactly those not declared optional; the set of known keys and of options is exactly the attributes and all their aliases, and tracking a description returns exactly the entries whose key is one of them. The lists of values, outcast values, access modes and the attribute map of a collector report exactly what each class declares. The attribute map may be restricted to some attributes (one name or several) and completes the map it is given; its displays show every attribute of the map exactly once, with each class that has it, its module and its non-empty values and outcast values.",
  ['inputs', 'programs'], "every footprint and description",
  "tests query a few footprints",
  [INIT, COL], [('queries', INIT + ':Footprint.allkeys / as_opts / track / mandatory / optional'), ('attribute map', COL + ':Collector.build_attrmap / get_values')],
  observe=['Footprint.allkeys', 'Footprint.track', 'Collector.build_attrmap'])

p('C29', "Module functions and collectors agree",
  "The module-level pickup, load, default and grep functions give exactly what the same operation gives on the collector named by the tag (the garbage collector when no tag is given), or on all collectors for grep; classes and priorities listed, and package priorities reset, at module level cover every collector. Collector tags are insensitive to case and to a final plural s.",
  ['inputs', 'configurations'], "every tag and description",
  "tests use one or two tags",
  [INIT, COL], [('module interface', INIT + ':pickup / load / default / grep / collected_classes / reset_package_priority'), ('tag normalisation', COL + ':Collector.tag_clean')],
  observe=['footprints.load', 'footprints.pickup'])

p('C30', "A class gets exactly what its own definition adds: decorators and short names",
  "A class is passed through each decorator of the decorative footprints it uses directly (its own footprint or those of the list it gives), once each, in the order they were declared, and it is the decorated class that is given back and registered; decorators are never inherited by subclasses nor applied for plain footprints, a decorative footprint made from others keeps theirs before its own, and a decorator that is not callable is refused. When short names are asked for, every method footprint_xxx is also available as xxx, without ever replacing a name that is already defined.",
  ['programs'], "every class definition and every composition of decorative footprints",
  "tests decorate one class with one decorator; order, composition, lists of footprints and inheritance are not covered",
  [INIT], [('application', INIT + ':FootprintBaseMeta.__new__'), ('gathering', INIT + ':DecorativeFootprint.__init__'), ('plain copy', INIT + ':DecorativeFootprint.as_footprint')],
  observe=['class statement', 'DecorativeFootprint(...)'])

p('C31', "Proxies and module tables show exactly the collectors that exist",
  "At any time, a proxy answers for exactly the collectors that exist: iterating over it, its listings (returned or printed) and its map of objects cover each of them once, under its plural name, empty ones included, with their true sizes and contents; a name exists in it when, without its plural, it is the tag of a collector; reading a plural name gives that collector, a singular one its load function, and a private or unknown name gives nothing (or the value proposed). The get, keys, values and items functions of each module answer for the table of its own class.",
  ['configurations', 'histories'], "every set of collectors and every name",
  "tests query a proxy once, with two collectors",
  [COL, 'src/footprints/proxies.py'], [('proxy', 'src/footprints/proxies.py:FootprintProxy'), ('module tables', COL + ':get / keys / values / items')],
  observe=['proxies.get().catlist()', 'proxies.get().toys'])

p('C32', "Diagnostic views show every recorded rejection, where it belongs",
  "The presentations of a report lose, merge and invent nothing. Reshuffling a flat report always starts from all its entries: each one goes down one level per sorting key it has, named by the key and its value, and ends under its focus with everything else that was recorded (None when nothing is left); entries lacking a key are left out only when asked. A factorized report places each entry under the first available value of each of its ordering keys, in that order (an entry with none is refused with KeyError), and printing it, simply or by groups, shows every branch and every entry once with the values that lead to it, selected values first in the order of their selection and the other ones after. Iterating over the last search of an XML report gives one independent dictionary per rejection, with its class, attribute and reason. Asking why a class failed gives exactly the classes of the last search that have rejections and whose name matches, whatever the case, or None without any search; a light dump shows every class and every entry.",
  ['inputs', 'histories'], "every recorded history, every list of sorting keys, every ordering and selection, every depth of grouping",
  "tests print one small report and compare a few lines; orders of consecutive selected values, missing keys, shared branches and repeated reshuffling are not covered",
  [REP], [('flat report', REP + ':FlatReport.reshuffle'), ('factorized report', REP + ':FactorizedReport.add / get_order / printer / simpleprinter / niceprinter / dumper'), ('XML iteration', REP + ':StandardReport.iter_last'), ('questions', REP + ':FootprintLog.whynot'), ('light dump', REP + ':FootprintLogClass.lightdump')],
  observe=['FlatReport.reshuffle', 'FactorizedReport.dumper / softprint / orderedprint', 'StandardReport.iter_last', 'FootprintLog.whynot'])

p('C33', "A failed selection is reported as the settings ask",
  "When a pick-up finds no object, the last search recorded in the collector's own report is shown exactly once, in the style asked for by the description (_report_style), else in the collector's (a collector reports unless told otherwise): raw shows the light dump of the search, flat the rejections sorted by reason then attribute, followed by attribute then by the other conditions, entries lacking a key left out, factorized the two ordered views. Nothing is shown when an object is found, when the description disables the warning (_emptywarning), when no report is asked for (_report in the description, else the collector's own setting), or when the collector keeps no report. The functions and class definitions that create collectors hand them the reporting mode, length and style of the setup in force. Each collector keeps a report of its own, under its tag, bounded by the length it was given except in full mode, and its accessors give or print that report, its last search, and nothing else.",
  ['inputs', 'configurations'], "every description (with or without reporting options), every reporting mode, length and style of the setup, every collector",
  "tests create collectors with the standard setup and print reports without looking at them; the combinations of description options, setup and outcome are never enumerated",
  [COL, INIT, REP, CFG], [('pick-up', COL + ':Collector.pickup_and_cache'), ('report of a collector', COL + ':Collector.__init__'), ('accessors', COL + ':Collector.report_dump / report_last / report_sorted / report_dumplast / report_whynot'), ('creation', INIT + ':collector / pickup / load / default, FootprintBaseMeta.__new__')],
  observe=['Collector.pickup', 'Collector.load', 'Collector.report_dumplast', 'Collector.report_whynot'])

p('C34', "A setup keeps its settings and hands them to the setups made from it",
  "A footprint setup keeps every setting it is created with under its own name (flags by their truth, the fast keys in order, absent default settings or proxies as empty ones); its default settings are insensitive to letter case and, like its set of proxies, are its own: changing them never changes the objects they were given as, nor the reverse. Its dictionary view is a standalone one that gives each setting and its tag under the name used to create it. Calling a setup without settings gives the setup itself; calling it with settings asks for a setup with these settings and all its other ones, and never changes the one that is called. Its summary prints each setting once, with its value.",
  ['inputs', 'configurations'], "every combination of settings given at creation and at call",
  "the tests create one setup with the standard settings; round trips of each setting and sharing of containers are not looked at",
  [CFG], [('creation', CFG + ':FootprintSetup.__init__'), ('view', CFG + ':FootprintSetup.as_dict'), ('call', CFG + ':FootprintSetup.__call__'), ('summary', CFG + ':FootprintSetup.info')],
  observe=['FootprintSetup()', 'FootprintSetup.as_dict', 'FootprintSetup.__call__', 'FootprintSetup.info'])

p('C35', "Objects built by hand are resolved like those that are searched",
  "Creating an object directly from its class gives it exactly the attributes that the footprint of that class resolves, in one resolution, from what is given: the dictionaries in order, then the keywords, the last one winning; anything else given is ignored. The creation fails when an attribute has no acceptable value or when the class is abstract. When the values are said to be resolved already (`checked`), they are kept as they are given, without any resolution. `checked` itself is never an attribute, what is given is never changed, and the object is announced to the observers exactly once, when its attributes are there.",
  ['inputs', 'programs'], "every class and every list of arguments and keywords",
  "the tests build a few objects with keywords only; precedence, unchanged arguments and the order of the announcement are not looked at",
  [INIT], [('creation', INIT + ':FootprintBase.__init__')], observe=['FootprintBase()'])

p('C90', "Files matched by a glob statement are exactly those on disk that match",
  "Expanding a glob statement yields one description per file of the working directory whose name matches it, at the time of the call.",
  ['inputs', 'fault_sequences'], "every directory content",
  "directory contents are unbounded and change concurrently",
  [UT], [('expand', UT + ':expand')], observe=['util.expand'])

p('C91', "Substitution results do not depend on attribute declaration order",
  "Permuting the attributes of a footprint never changes the values resolved for a description when every reference is acyclic.",
  ['inputs', 'programs'], "every permutation of attributes and every acyclic reference graph",
  "permutations are factorial in the number of attributes",
  [INIT], [('resolution queue', INIT + ':Footprint.resolve')], observe=['Footprint.resolve'])

p('C92', "Objects survive a pickle round trip with equal attribute values",
  "For every picklable object, unpickling its pickle gives an object whose attributes compare equal to the original ones.",
  ['inputs'], "every object, attribute type and pickle protocol",
  "attribute types are user classes with their own pickling code",
  [INIT], [('state', INIT + ':FootprintBase.__getstate__ / __setstate__')], observe=['pickle.loads'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
