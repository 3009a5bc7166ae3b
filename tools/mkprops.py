#!/usr/bin/env python3
"""Writes properties.jsonl (the human-maintained source of the property list)."""
import json, os
P = []
L = 'openquake/commonlib/'


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f if '/' in f else L + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


# ---------------------------------------------------------------- validation
prop('V01', 'Range validators accept exactly the numbers inside their range',
     'The longitude, latitude, probability, generic float-range and positive-float validators accept a text exactly when it denotes a number inside the closed range they stand for ([-180,180], [-90,90], [0,1], [min,max], [0,inf]) and then return precisely that number; the positive-integer validator does the same for integers >= 0. '
     'Everything else, including NaN, either infinity outside the range, the neighbouring double just outside a bound, and text that is not a number, is rejected with a ValueError and nothing else.',
     ['inputs'], 'every text, i.e. every IEEE double (incl. NaN, infinities, signed zero, denormals) or integer the text can denote, and every non-numeric text; every min/max pair of the generic range',
     'valid_test samples two or three values per validator and never NaN, infinities or bound neighbours.',
     ['valid.py'], [('FloatRange', 'valid.py:FloatRange'), ('longitude/latitude/positiveint/positivefloat', 'valid.py')])
prop('V02', 'Lexical validators accept exactly their language and keep the value',
     'A name is accepted exactly when it consists of one ASCII letter or underscore followed by ASCII letters, digits or underscores; a name list exactly when it is a non-empty whitespace-separated sequence of such names (returned in order); a choice exactly when it is one of the listed values; a boolean exactly for 0, 1, true, false (mapped to the right truth value); non-empty text exactly when it is not empty; an optional value is None exactly for the empty string and otherwise behaves like the wrapped validator. '
     'Accepted values are returned unchanged and every rejection is a ValueError.',
     ['inputs'], 'every string up to the length bound, over all ASCII characters',
     'valid_test checks a handful of strings; the accepted language is a set of strings, including strings with newlines and upper-case booleans.',
     ['valid.py'], [('Regex/Choice/NoneOr/boolean/namelist', 'valid.py')])
prop('V03', 'Intensity measure type strings are parsed exactly or rejected',
     'An intensity measure type text is accepted exactly when the whole text is one of PGA, PGV, PGD, IA, RSD, MMI or SA(<unsigned decimal period>). '
     'For the plain types the result is the type itself with no period and no damping, for SA it is SA with the numeric value of the period and 5% damping; every other text, including an accepted text with extra characters before or after it, is rejected with a ValueError.',
     ['inputs'], 'every string up to the length bound, over all ASCII characters',
     'valid_test tries PGA, SA(0.1), PGx and one malformed SA; the accepted language is a set of strings.',
     ['valid.py'], [('IMTstr', 'valid.py:IMTstr')])

# ---------------------------------------------------------------- records
prop('R01', 'Record casting, validity and error reports agree',
     'For every record type and every row, casting succeeds exactly when each field on its own is valid, and then yields a named tuple with the values the field validators return, in declaration order; otherwise it reports exactly the invalid fields, each once, in column order, with the error message of that field, and no tuple. '
     'Asking whether the record (or a single field, by index or by name) is valid gives the matching answer, where a whole record is valid exactly when all fields and all the record constraints are. '
     'The printed report of an invalid record contains one line per failing field, naming the file (or else the record type), the field, the row and the column of that field. '
     'In the record types of the library, coordinates, probabilities, intensity measure types, counts, amounts, choices and optional values are validated as such by their fields.',
     ['inputs'], 'every row of field strings (each field symbolically valid or invalid with an arbitrary value), every record layout',
     'record_test checks two concrete records; combinations of valid and invalid fields are never covered.',
     ['record.py', 'records.py'], [('Record.cast/is_valid', 'record.py:Record'), ('InvalidRecord', 'record.py:InvalidRecord')])
prop('R02', 'Assigning a record field validates first and changes only that field',
     'Assigning a text to a field, by position or by name, stores the text unchanged in that field and in no other when the field validator accepts it, and raises ValueError leaving the whole record unchanged when the validator rejects it. '
     'Fields not passed at construction have their default (an empty text unless declared otherwise), and reading a field by name, by position or by iteration gives the stored text.',
     ['inputs', 'histories'], 'every sequence of assignments up to the bound, every field and every validator outcome',
     'the tests assign no fields at all.',
     ['record.py'], [('Record.__setitem__/__getitem__', 'record.py:Record'), ('MetaRecord.mkinit', 'record.py')])
prop('R03', 'Tables keep unique constraints and lookups exact under any history',
     'After any sequence of append, insert, replace and delete operations on a table, no two stored records agree on all the fields of any unique constraint, and looking up a primary key returns the one stored record having that key or raises KeyError if there is none. '
     'An insertion (or replacement) that would duplicate a unique key raises KeyError naming the duplicated fields, and a refused operation leaves the stored records, their order and all later lookups and insertions exactly as if it had never been attempted.',
     ['histories', 'inputs'], 'every history of table operations up to the bound, with arbitrary (possibly equal) field values',
     'table_test performs one append and one duplicate; multi-constraint records and histories with failures, deletions and replacements are never exercised.',
     ['record.py'], [('Table.insert/__setitem__/__delitem__/getrecord', 'record.py:Table')])
prop('R04', 'Table sets refuse unresolved foreign keys and route records by type',
     'A record is accepted into a table set exactly when, for each of its foreign keys, a record with that key is already stored in the referenced table, and its own unique constraints hold; otherwise ForeignKeyError (or KeyError) is raised and nothing is stored. '
     'An accepted record is appended to the table of its own type only; iterating over a table set gives its non-empty tables in declaration order.',
     ['histories', 'inputs'], 'every sequence of insertions up to the bound into a set of related tables, arbitrary key values',
     'the foreign key machinery is only touched by whole-file conversion tests which never contain a dangling key.',
     ['record.py', 'records.py', 'converter.py'], [('TableSet.check_fk/insert', 'record.py:TableSet')])
prop('R05', 'Equality of records and tables is equality of contents',
     'Two records, or a record and another sequence, are equal exactly when they have the same length and the same fields at each position, and two tables exactly when they have the same number of records and pairwise equal records; comparing never raises, and "different" is always the negation of "equal".',
     ['inputs'], 'every pair of records/sequences/tables up to the bound, with equal or different lengths',
     'equality is only used between two concrete equal tables.',
     ['record.py'], [('Record.__eq__/__ne__, Table.__eq__/__ne__', 'record.py')])
prop('R06', 'The record types of the models accept exactly the documented values',
     'Every record type of the vulnerability, fragility, exposure and ground motion models has its documented columns, primary key, further unique keys, foreign key and kind of model. '
     'Each column accepts exactly the texts of its documented kind (free text, non-empty text, whole number, number, coordinate, probability, measure type, boolean, choice, list of names; possibly optional) and converts them to that value; anything else is refused with a ValueError. '
     'An exposure with costs per area is valid only with both the area type and the area unit.',
     ['inputs'], 'every column of every record type with arbitrary short texts, every integer text and every multiple of 1/64 in a range including all the limits',
     'the tests touch five of the nineteen record types with a few valid values.',
     ['records.py', 'valid.py'], [('record types', 'records.py')])
prop('R07', 'Record types behave as declared',
     'A record type has the fields declared in its body or inherited, in order of declaration; building a record gives each field the positional or named argument, or else its declared default, and refuses unknown, repeated and surplus arguments. '
     'Reserved names, duplicated names in a key and several primary keys are refused when the type is declared; keys read the named fields in the order given, the hook for initialization is called once with all the fields set, and the declared checks of the whole record take part in its validity. '
     'Derived and copied types do not affect the types they come from.',
     ['inputs', 'programs'], 'every order of declaration, every default out of a list of difficult texts and every split of arguments up to the bound',
     'the tests use a few fixed record types without defaults, inheritance, hooks or checks.',
     ['record.py'], [('MetaRecord/Field/Unique/ForeignKey', 'record.py')])
prop('R08', 'The text of a table is CSV which reads back as the same table',
     'Reading the text of a record or a table as CSV gives records with the same columns in the same order, whatever separators, quotes, blanks and newlines the columns contain; the empty table gives no records and duplicated keys are refused. '
     'A table is valid exactly when all its records are.',
     ['inputs'], 'every table up to the bound of arbitrary words and of arbitrary short texts including separators, quotes and newlines',
     'the tests print one table of numbers.',
     ['record.py', 'csvmanager.py'], [('Record.__str__/Table.__str__', 'record.py'), ('create_table', 'csvmanager.py')])

# ---------------------------------------------------------------- general utilities
prop('G01', 'Splitting into blocks preserves, orders, separates and bounds items',
     'Splitting a sequence of weighted items yields non-empty blocks whose concatenation is exactly the sequence of items with non-zero weight in their original order; every block contains items of one kind only, carries a weight equal to the sum of the weights of its items, and exceeds the maximum weight only if it consists of a single item. '
     'No block is closed early: two consecutive blocks of the same kind could not have absorbed the next item without exceeding the maximum. '
     'A negative weight or a non-positive maximum raises ValueError.',
     ['inputs'], 'every list of items up to the bound with arbitrary integer or exact rational weights and arbitrary kinds, every maximum weight',
     'general_test splits three fixed sequences; zero weights, kinds and their interaction are a space of inputs.',
     ['general.py'], [('block_splitter', 'general.py:block_splitter')])
prop('G02', 'Splitting into about N blocks never loses items or makes too many blocks',
     'Splitting a sequence with a block-number hint produces the same grouping as splitting with a maximum weight of ceil(total weight / hint), so nothing is lost, duplicated or reordered, and for items of one kind with weight one the number of blocks never exceeds the hint. '
     'An empty sequence, or one in which every item has zero weight, yields no blocks.',
     ['inputs'], 'every list of items up to the bound, arbitrary non-negative weights, kinds and hints',
     'general_test fixes one sequence and three hints.',
     ['general.py'], [('split_in_blocks', 'general.py:split_in_blocks')])
prop('G03', 'Weighted sequences track their items and total weight',
     'After any sequence of insertions, appends, extensions, additions and merges, a weighted sequence holds exactly the items a plain list would hold under the same operations and its weight is the sum of the weights of the inserted items; the operands of an addition or merge are left unchanged. '
     'Two weighted sequences are equal exactly when they contain equal items in the same order and number ("different" is the negation), and they are ordered by weight.',
     ['histories', 'inputs'], 'every history of operations up to the bound with arbitrary weights, items and positions',
     'general_test builds two or three concrete sequences.',
     ['general.py'], [('WeightedSequence', 'general.py:WeightedSequence')])
prop('G04', 'Deep comparison is sound, symmetric on structure and never crashes',
     'Deep comparison of two nested structures of lists, tuples, dictionaries, objects, slotted objects, strings and numbers answers equal exactly when they have the same shape, the same keys and attributes, equal non-numeric leaves and numeric leaves agreeing to the requested number of decimals, where excluded attribute names are ignored at every level. '
     'It always answers with a pair (truth value, message), with an empty message exactly when equal, and never raises because the structures differ.',
     ['inputs'], 'every pair of structures up to the depth/size bound, with symbolic leaves, keys and lengths',
     'general_test compares fixed structures; key sets, lengths, nesting of excluded names and type mismatches are a space of inputs.',
     ['general.py'], [('deep_eq', 'general.py:deep_eq')])
prop('G05', 'Small helpers: distinct, ceiling division, string to boolean',
     'Removing duplicates keeps the first occurrence of each key, in order, and nothing else. '
     'The ceiling division of a by a positive b returns the least integer not below a/b for integers in the exactly representable range, and refuses a non-positive b. '
     'A text is true exactly when its lower-cased form is true, yes, t or 1.',
     ['inputs'], 'every key sequence up to the bound; all integers a, b in the stated range; every text up to the bound',
     'no unit test covers these helpers beyond one example.',
     ['general.py'], [('distinct/ceil/str2bool', 'general.py')])
prop('G06', 'Temporary files are new, complete, closed and where asked for',
     'Writing a temporary file returns the path of a new file with exactly the given content (none if no content is given) and the given prefix and suffix in the given directory, which is created with its parents when missing, or else in the default one. '
     'No other file is changed or left behind, files already there are kept, two calls never return the same path and the file is closed.',
     ['inputs', 'histories'], 'every combination of directory, prefix, suffix and arbitrary content, up to the bound on calls',
     'the tests use it for fixtures only.',
     ['general.py'], [('writetmp', 'general.py')])

# ---------------------------------------------------------------- parallel
prop('P01', 'Map-reduce aggregates every task result exactly once, in any order',
     'Running a function over a list of argument tuples and aggregating gives the same value as folding the aggregation over the individual results in the order in which the tasks complete (the submission order when distribution is disabled), each result being used exactly once, whatever the completion order and the number of tasks, including zero. '
     'If some task raises, the aggregation raises a RuntimeError carrying the error message and traceback text of a failed task, and never silently skips or double-counts a result. '
     'Waiting for a task manager returns the number of submitted tasks, and after an aggregation the manager can be reused for new tasks.',
     ['schedules', 'inputs', 'fault_sequences'], 'every completion order, every set of failing tasks, both distribution settings, up to the bound on the number of tasks',
     'no unit test covers the module; completion orders and failure combinations are schedules.',
     ['parallel.py'], [('TaskManager', 'parallel.py:TaskManager'), ('map_reduce', 'parallel.py:map_reduce')])
prop('P02', 'Safe calls trap every exception and pickling is transparent',
     'A safe call returns (result, None) when the function returns and (text, exception class) when it raises, where the text names the exception class and its message; it lets no exception escape. '
     'With pickling enabled the function receives the original arguments and the pair comes back pickled, so the caller sees the same pair as without pickling; a pickled object unpickles to an equal object and its length is the size of the pickle.',
     ['inputs', 'fault_sequences'], 'every outcome of the called function (arbitrary value or one of several exception classes, incl. non-Exception ones), arbitrary arguments, pickling on or off',
     'no unit test covers the module.',
     ['parallel.py'], [('safely_call', 'parallel.py'), ('Pickled', 'parallel.py')])
prop('P03', 'Progress reports are strictly increasing and end at 100%',
     'For a positive number of tasks the progress of an aggregation is reported once at the start with the number of tasks, then with strictly increasing percentages, each the truncated percentage of tasks done so far, and 100% is reported exactly once, when the last task is done. '
     'The counter advances by one per task starting from zero.',
     ['inputs'], 'every number of tasks up to the bound',
     'no unit test covers it; off-by-one errors and truncation depend on the number of tasks.',
     ['parallel.py'], [('log_percent_gen', 'parallel.py')])
prop('P04', 'Pickling a sequence keeps positions, sharing and values',
     'Converting an iterable of objects to pickled objects gives a list of the same length whose i-th element unpickles to a value equal to the i-th object, whether the iterable is a list or produces its objects on the fly. '
     'Objects already pickled are passed through unchanged, and the same object occurring several times is pickled only once.',
     ['inputs', 'schedules'], 'every sharing pattern up to the bound, lists and generators, every possible reuse of object identities by the runtime',
     'no unit test covers it; identity reuse of dead temporaries is decided by the memory allocator.',
     ['parallel.py'], [('pickle_sequence', 'parallel.py')])
prop('P05', 'Performance monitor reports one memory delta per readable process',
     'On leaving a monitored block, with or without an exception, the monitor has a duration equal to the difference of the clock readings, the exception of the block (None if there was none, also when the monitor is reused), and one memory delta for each monitored process that was readable at both ends, each equal to the final minus the initial memory of that same process, in the order given. '
     'A process whose memory cannot be read is dropped without affecting the deltas of the others, the report hook is called exactly once, and the exception is not swallowed.',
     ['inputs', 'fault_sequences'], 'every memory reading, clock reading and pattern of access failures, up to the bound on processes',
     'no unit test covers it; access failures are faults of the environment.',
     ['parallel.py'], [('PerformanceMonitor', 'parallel.py:PerformanceMonitor')])
prop('P06', 'Memory is watched and distribution is switched off by a truth word',
     'Checking the memory logs exactly one warning, telling the percentage, when the used memory is above the limit (80% unless given) and none otherwise; the task manager checks at every submission, warns at each reading above the limit and computes the same results whatever the readings. '
     'Distribution is disabled exactly when the environment variable holds 1, true or yes in any capitalization.',
     ['inputs', 'configurations'], 'every percentage and limit, every sequence of readings up to the bound on tasks, every text up to the bound in the environment variable',
     'no unit test covers the module; readings come from the environment.',
     ['parallel.py'], [('check_mem_usage/no_distribute', 'parallel.py'), ('TaskManager', 'parallel.py:TaskManager')])

# ---------------------------------------------------------------- logic trees
prop('L01', 'Full enumeration yields every path once with the product weight',
     'Enumerating a branch set yields, exactly once each, all the paths from it to a branch without children, in the order of the branches at each level, and the weight of a path is the exact product of the weights of its branches. '
     'If the branch weights of every branch set sum to one then the weights of all the paths sum to one; looking up a branch by id returns the branch with that id or fails.',
     ['inputs', 'programs'], 'every tree shape up to the bound, with arbitrary exact decimal weights',
     'logictree_test enumerates one fixed tree.',
     ['logictree.py'], [('BranchSet.enumerate_paths', 'logictree.py:BranchSet')])
prop('L02', 'Random sampling follows the branch weights and consumes one draw per level',
     'Sampling a branch set with a random number u in [0,1) selects the branch in whose interval of cumulative weight u falls, so each branch is selected for a set of draws of measure equal to its weight, and a branch of zero weight is never selected for u>0. '
     'Sampling a path starts at the root, makes exactly one draw per branch set met, follows the child of each selected branch until there is none, and returns the value of the selected root branch together with the ids of all the selected branches; a sampling tree yields exactly the requested number of such paths, with no weight, from a generator seeded with the given seed.',
     ['inputs', 'programs'], 'every draw of the random generator, every weight vector summing to one and tree shape up to the bound',
     'logictree_test samples 1000 times from a few fixed trees.',
     ['logictree.py'], [('sample/sample_one/sample_path', 'logictree.py')])
prop('L03', 'Logic trees are assembled level by level exactly as declared',
     'Parsing a logic tree attaches the branch set of each level as the child of exactly the branches it applies to: those listed in its applyToBranches attribute if present, and otherwise all the branches of the previous level. '
     'The tree is refused with a validation error when a branch id is reused, when the weights of a branch set do not sum to exactly one, when applyToBranches mentions an undefined branch or a branch which is not on the previous level, or when a branch set applies (whether by applyToBranches or by the lack of it) to a branch which already has a child; no other tree built from valid values is refused.',
     ['programs', 'inputs'], 'every logic tree file up to the bound on levels, branch sets and branches, with arbitrary ids, weights and applyToBranches lists',
     'logictree_test covers a dozen fixed trees.',
     ['logictree.py'], [('BaseLogicTree.parse_*', 'logictree.py:BaseLogicTree'), ('SourceModelLogicTree.apply_branchset', 'logictree.py')])
prop('L04', 'Source model logic tree validation enforces exactly the documented rules',
     'With validation on, a source model logic tree is refused unless: the first level has exactly one branch set, of type sourceModel, and no later branch set is of type sourceModel or gmpeModel; sourceModel branch sets have no filters and all others at most one; filters mention only source ids, source types and tectonic region types occurring in the referenced source models; absolute uncertainties name exactly one source id. '
     'Uncertainty values must be two decimal numbers separated by blanks for abGRAbsolute and a single one for the other non-sourceModel types (a decimal number is an optional sign followed by digits or by optional digits, a point and at least one digit, with blanks allowed around); every accepted value is then converted to precisely the float(s) its text denotes.',
     ['inputs', 'programs'], 'every uncertainty type, filter combination, filter value and value text up to the bound; every content of the referenced source models',
     'logictree_test has one file per rule; rule interactions and the value syntax are a space of inputs.',
     ['logictree.py'], [('SourceModelLogicTree.validate_*', 'logictree.py:SourceModelLogicTree')])
prop('L05', 'Uncertainties modify exactly the sources and parameters they address',
     'Applying the uncertainties of a path modifies a source only if its magnitude distribution is a truncated Gutenberg-Richter one and the source passes the filter of the branch set (tectonic region type equality, source type, membership of the source id in the list); every other source is left untouched. '
     'For a source passing the filter, each branch of the path other than the source model one is applied exactly once, in path order, with the value of that branch, as the modification belonging to its uncertainty type (set a and b, increment b, increment or set the maximum magnitude).',
     ['inputs', 'programs'], 'every source class, source id, tectonic region type, filter and path up to the bound',
     'logictree_test applies a few uncertainties to one or two mock sources.',
     ['logictree.py'], [('BranchSet.filter_source/apply_uncertainty', 'logictree.py:BranchSet'), ('make_apply_uncertainties', 'logictree.py')])
prop('L06', 'GMPE logic trees map every known tectonic region type to its GSIM',
     'For a GMPE logic tree and a set of tectonic region types, branch sets of other region types are ignored wherever they occur, and every path through the tree determines a dictionary assigning to each of the given region types that the tree defines the GSIM of the branch selected for it, and nothing else. '
     'With validation on, the tree is refused when a value is not an available GSIM, when a level has several branch sets of given region types, when a given region type is defined twice or missing, when the branch set of a given region type has the wrong uncertainty type or any filter besides the region type, or when a branch set has no region type; otherwise it is accepted.',
     ['inputs', 'programs'], 'every tree up to the bound on levels and branches, arbitrary region types (known, unknown, repeated) and values',
     'logictree_test covers a few fixed trees, none with an ignored branch set in the middle.',
     ['logictree.py'], [('GMPELogicTree', 'logictree.py:GMPELogicTree')])
prop('L07', 'GSIM realizations are the weighted product of the region branch sets',
     'A GSIM logic tree with distinct branch set ids, restricted to some tectonic region types, yields exactly one realization for each choice of one branch per relevant branch set; its value maps each region type to the chosen GSIM, its path is the ids of the chosen branches ordered by branch set, and its weight is the exact product of the branch weights, so all the weights sum to one. '
     'The number of realizations equals the advertised number of paths, the number of branches per branch set is advertised correctly, and duplicated region types, several branch sets on a level, wrong uncertainty types, weights not summing to one or no relevant branch at all are refused.',
     ['inputs', 'programs'], 'every tree up to the bound with arbitrary branch and branch set ids (in any relative order), region types and weights',
     'logictree_test reads three fixed files, in which ids happen to sort the same way as the levels.',
     ['logictree.py'], [('GsimLogicTree', 'logictree.py:GsimLogicTree')])
prop('L08', 'Logic trees of a calculation and the errors of their documents',
     'Building a logic tree from the parameters of a calculation reads the file given for that kind of tree and uses its directory, its random seed and its number of samples, without reading the source models again. '
     'A document which cannot be parsed or does not follow the schema, or such a source model, is refused with a parsing error, and an invalid element with a validation error; both tell the file and the directory, and a validation error also tells the line of the element and the reason.',
     ['inputs', 'configurations'], 'every seed, number of samples and shape of tree up to the bound; every element at fault with an arbitrary line',
     'the tests of the logic trees do not use calculations and compare the messages of fixed documents.',
     ['logictree.py'], [('from_hc/ParsingError/ValidationError', 'logictree.py')])

# ---------------------------------------------------------------- sources
prop('S01', 'Source collectors keep exact statistics, order and content',
     'A collector holds exactly the sources given to it, in order, whether passed at construction or added later, its minimum and maximum magnitude are the extremes over the magnitude distributions of those sources (None if it has none), and it refuses a source of another tectonic region type; the list passed by the caller is not modified. '
     'Filtering returns a new collector of the same region type with exactly the sources the filter keeps (a filter result of None discards), in order, leaving the original unchanged. '
     'Collectors are ordered by number of sources and then by region type, the ruptures counted are the sum over the counted sources.',
     ['inputs', 'histories'], 'every list of sources up to the bound with arbitrary magnitudes, region types and filter outcomes',
     'source_test updates one collector with four fixed sources and never builds one from a list.',
     ['source.py'], [('SourceCollector', 'source.py:SourceCollector')])
prop('S02', 'Parsing a source model groups every source once and rejects duplicates',
     'Parsing a source model converts each source once, applies the uncertainties to it once before its magnitudes are recorded, and returns, ordered, exactly one collector per tectonic region type occurring in the model, containing exactly the sources of that type in file order. '
     'If two sources of the model have the same id, whatever their region types and positions, the duplicate is reported as an error naming the id.',
     ['inputs'], 'every sequence of sources up to the bound with arbitrary (possibly equal) ids and region types and arbitrary magnitude changes by the uncertainties',
     'source_test parses one model and one with a duplicate.',
     ['source.py'], [('parse_source_model', 'source.py:parse_source_model')])
prop('S03', 'Splitting a source conserves seismicity and identifies the parts',
     'Splitting an area source gives one point source per mesh point, at that point, whose rates add up to the rates of the area source for each magnitude bin; splitting a fault source gives one fault source per magnitude with non-zero rate, carrying exactly that rate and magnitude; any other source is returned alone and unchanged. '
     'The parts have distinct ids derived from the original id and numbered consecutively from 0, keep all the other parameters of the original, and the original source is not modified; a fault source without any non-zero rate gives no parts.',
     ['inputs'], 'every number of mesh points and magnitude bins up to the bound, arbitrary rates (including zero) and parameters, both magnitude distributions',
     'source_test splits two fixed sources, none with zero rates.',
     ['source.py'], [('split_source/area_to_point_sources/split_fault_source', 'source.py')])
prop('S04', 'Blocks of sources cover exactly the filtered and split sources',
     'Generating blocks from a collector filters each source once, splits the retained ones, and groups all the split sources with at least one rupture, in order, in blocks of weight equal to their number of ruptures and not exceeding max_weight * N / (N + 100) unless a block has a single source, where N is the number of sources. '
     'Afterwards the collector holds exactly the split sources, its number of ruptures has grown by their total and it reports as retained the number of split sources and as total that number plus the discarded sources; a collector without sources is refused, and any positive maximum weight is accepted.',
     ['inputs'], 'every list of sources up to the bound with arbitrary filter outcomes, split counts, rupture counts and maximum weights',
     'source_test generates the blocks of one fixed model.',
     ['source.py', 'general.py'], [('SourceCollector.gen_blocks', 'source.py'), ('block_splitter', 'general.py')])
prop('S05', 'NRML sources and ruptures are converted faithfully',
     'Converting a NRML point, area, simple fault, complex fault or characteristic source, or a simple or complex fault rupture, gives the hazard library object of the corresponding class in which each parameter (ids, names, region type, geometry in the right order, depths, dip, rake, nodal planes and hypocentral depths with their probabilities, magnitude distribution, scaling relationship, aspect ratio, mesh spacing, discretization, temporal model) has the value given in the NRML object or in the converter settings. '
     'The NRML object is not modified, and an error while converting a source (of a class that can be instantiated from a text) is re-raised with the same class and a message naming the id and name of the source.',
     ['inputs'], 'every value of every parameter (symbolic), every number of nodal planes, depths, edges, vertices and surfaces up to the bound, every source kind',
     'source_test converts one example of each kind; a swapped or dropped parameter with equal example values goes unnoticed.',
     ['source.py'], [('NrmlHazardlibConverter', 'source.py:NrmlHazardlibConverter')])

# ---------------------------------------------------------------- conversions
prop('C01', 'Vulnerability models survive the round trip through tables',
     'Converting a valid discrete vulnerability model to records and back gives a model with the same vulnerability sets, in order, each with the same attributes, intensity measure levels and functions, each function with the same loss ratios, coefficients of variation and distribution. '
     'Each level, loss ratio and coefficient stays paired with the ones at the same position; a function which the risk library refuses is refused.',
     ['inputs'], 'every model up to the bound on sets, functions and levels with arbitrary texts and numbers',
     'convert_test round-trips fixed example files (and cannot run where nrmllib is missing).',
     ['converter.py', 'records.py'], [('Vulnerability.node_to_records/to_node', 'converter.py')])
prop('C02', 'Fragility models survive the round trip through tables',
     'Converting a valid discrete or continuous fragility model to records and back gives a model with the same format, description, limit states, and function sets in order, each with the same taxonomy, no-damage limit, type, intensity measure attributes and levels, and for each limit state the same probabilities of exceedance or the same mean and standard deviation. '
     'A function whose limit state is out of the declared order is refused, and so is a function which the risk library refuses (where a discrete function with a no-damage limit starts there with probability 0).',
     ['inputs'], 'every model up to the bound on sets, limit states and levels, with arbitrary texts and numbers',
     'convert_test round-trips fixed example files (and cannot run where nrmllib is missing).',
     ['converter.py', 'records.py'], [('FragilityDiscrete/FragilityContinuous', 'converter.py')])
prop('C03', 'Exposure models survive the round trip through tables',
     'Converting a valid exposure model to records and back gives the same exposure metadata (category, taxonomy source, description, area, deductible and limit settings, cost types) and the same assets in order, each with the same id, taxonomy, number, area, location, costs and occupancies. '
     'Assets at equal coordinates share one location record and assets at different coordinates never do; costs and occupancies, in any order, are never attached to another asset, and a missing taxonomy source reads as UNKNOWN.',
     ['inputs'], 'every exposure up to the bound on assets, cost types and periods, with arbitrary texts, optional parts and coordinates (equal or different)',
     'convert_test round-trips fixed example files (and cannot run where nrmllib is missing).',
     ['converter.py', 'records.py'], [('Exposure.node_to_records/to_node/_assetgenerator', 'converter.py')])
prop('C04', 'Ground motion fields survive the round trip through tables',
     'Converting a ground motion field set or collection to records and back gives the same collection attributes, the same field sets with the same ids and investigation times, and within each the same fields, each with the same intensity measure type (with the same period for spectral acceleration), rupture id, and the same sites and values in order. '
     'No site value moves to another field, rupture or set. The damping of a spectral acceleration is not part of the tables.',
     ['inputs'], 'every collection up to the bound on sets, fields and sites with arbitrary texts and numbers',
     'convert_test round-trips fixed example files (and cannot run where nrmllib is missing).',
     ['converter.py', 'records.py'], [('GmfCollection', 'converter.py:GmfCollection')])
prop('C05', 'Archives return what was last written under a name',
     'For in-memory, directory and zip archives, reading a name after any history of writes returns the content last written and closed under that name, a name is reported as contained exactly when it can be opened, listing with a prefix gives exactly the stored names starting with it, and opening a missing name for reading is an error. '
     'Closing the archive closes every file opened through it, and a file opened for writing in a zip archive is stored in it exactly once even if closed twice.',
     ['histories', 'inputs'], 'every history of writes, reads, listings and closes up to the bound with arbitrary names and contents',
     'csvmanager_test opens one fixed archive.',
     ['csvmanager.py'], [('MemArchive/DirArchive/ZipArchive/TempFile', 'csvmanager.py')])
prop('C06', 'Every invalid CSV record is found, located and counted once',
     'Searching an archive of CSV files for invalid records reports exactly the rows with some invalid field, each once, with the name of the file and the position of the row (0 for the first row after the header), in the order of the record types and rows, and at most the requested number of them if a limit is given. '
     'A CSV file whose header differs from the field names of its record type is refused; only files named <prefix>__<record type>.csv take part, others are ignored.',
     ['inputs', 'configurations'], 'every set of CSV files up to the bound with arbitrary rows, headers, names and limits',
     'csvmanager_test reads one archive with two fixed invalid rows.',
     ['csvmanager.py', 'record.py'], [('CSVManager.find_invalid/read/_getmanagers', 'csvmanager.py'), ('find_invalid', 'record.py')])
prop('C07', 'Converted CSV archives contain the same model as the NRML',
     'Storing a model in an archive writes one CSV file per record type occurring in the model, named after the given prefix and the record type, with a header and one row per record in order; reading the archive back gives the same records and hence the same model. '
     'Converting an archive to NRML writes one <prefix>.xml for each prefix in the archive, from the tables of that prefix only, to the output archive if given and else to the archive itself; a single model can be extracted only from an archive with exactly one prefix.',
     ['inputs', 'configurations'], 'every set of records up to the bound, arbitrary field texts including separators, quotes and newlines, one or more prefixes',
     'csvmanager_test and convert_test use fixed files.',
     ['csvmanager.py', 'converter.py'], [('CSVManager.convert_*/write/get_tableset', 'csvmanager.py')])
prop('C08', 'The command line converter never writes NRML from invalid CSV',
     'Run on a CSV archive, the command line converter prints every invalid record (up to the limit; a limit of zero or less counts as one) and exits with an error stating their number before writing anything when there is at least one, and otherwise writes the NRML to the output archive, or to the input archive when no output is given. '
     'Run on a NRML file it requires an output archive, and fills it with the CSV files of that model named after the file.',
     ['inputs', 'configurations'], 'every combination of input kind, output, limit and validity of the records up to the bound',
     'no test runs the command line script.',
     ['bin/NRMLconvert.py', 'csvmanager.py'], [('main/print_invalid', 'bin/NRMLconvert.py')])

# ---------------------------------------------------------------- readini / risk loaders
prop('I01', 'Job files are read completely with correctly resolved paths',
     'Parsing a job configuration returns every parameter of every section under its lower-cased key with its text, except that a parameter whose key ends in _file is returned under inputs, without the suffix, as an absolute path resolved against the directory of the configuration file (absolute paths unchanged), and a sites file is returned as a multipoint of its coordinates in order. '
     'If a source model logic tree is given, the source inputs are the sorted distinct paths of all the source models it mentions, stripped of surrounding whitespace and resolved the same way.',
     ['inputs', 'configurations'], 'every set of parameters up to the bound, arbitrary keys, values, absolute or relative paths and logic tree contents',
     'readini_test parses two fixed files.',
     ['readini.py'], [('parse_config/_collect_source_model_paths', 'readini.py')])
prop('K01', 'Vulnerability loaders build one function per taxonomy and loss type',
     'Reading vulnerability models for a list of loss types gives, for every taxonomy occurring in any of their files, the dictionary of exactly the loss types whose file defines the taxonomy, each with the function built from that record (measure type, levels, ratios, coefficients, distribution), using the retrofitted files exactly when asked and skipping loss types without a file; occupants and fatalities are translated into each other and every other name is unchanged. '
     'A taxonomy defined twice in a file, or values the risk library refuses, raise a ValueError naming the taxonomy.',
     ['inputs', 'configurations'], 'every set of files up to the bound with arbitrary taxonomies (possibly equal), loss types and validity of the functions',
     'riskloaders_test reads two fixed files.',
     ['riskloaders.py'], [('get_taxonomy_vfs/get_risk_models', 'riskloaders.py')])
prop('K02', 'Fragility loaders build one function per limit state',
     'Reading a fragility model returns the damage states, no_damage followed by the limit states in order, and for every taxonomy a risk model holding one function per limit state in order, with the intensity measure type of that taxonomy. '
     'Discrete functions use the given levels and probabilities, with a point of zero probability at the no-damage limit in front when there is one and the first level as limit otherwise; continuous functions use the given mean and standard deviation.',
     ['inputs'], 'every model up to the bound on taxonomies, limit states and levels with arbitrary values, both formats',
     'riskloaders_test reads two fixed files.',
     ['riskloaders.py'], [('get_damage_states_and_risk_models', 'riskloaders.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
