# property -> (technique, level note)
TECH['C01'] = ('Abstract interpretation (value-numbering dataflow) of every state-replacing method of every '
               'correlation class: caches are discovered from the property getters, and no exit state may keep the '
               'entry value of one; must-clear-before-accumulate and C++ buffer rebinding rules.',
               'Decided for every path of the analysed methods; assumes objects are changed through their methods.')
TECH['C13'] = ('Effect analysis: the read-only fields are discovered from the attributes of the shared specification '
               'object; every store reachable from any method, property or driver after construction is classified '
               'by the object it reaches (abstract interpretation with aliases), and none may reach one.',
               'All stores of all classes; assumes user code does not write underscore attributes.')
TECH['C14'] = ('Taint/effect analysis of randomness: sources of random numbers over the syntax tree and C++ sources, '
               'flow of the supplied generator into every constructor, function and compiled seed argument (matched '
               'through the pybind export table), and C++ call-graph reachability of draws from parallel regions.',
               'Decides where numbers come from and that their order is schedule independent, not their quality.')
TECH['C03'] = ('Ownership/effect analysis of every OpenMP region over the parsed C++ syntax trees: private/shared '
               'classification of every written lvalue, argument and receiver, interprocedural write summaries, a '
               'range-partition rule for shared arrays, merge-exactly-once and zero-start rules, and call-graph '
               'reachability of global, static and mutable writes.',
               'All regions and everything reachable from them; sums may still differ by rounding order.')
TECH['C06'] = ('Interface-consistency analysis across the language boundary: the pybind export table is parsed from '
               'the C++ sources, every Python call reaching it is resolved by abstract interpretation, and argument '
               'terms are matched with parameter names, component arrays with the C++ constructor initialisers, and '
               'wrapper calls with the parameters they relay.',
               'All call sites and wrappers; relies on names denoting the same quantity in both languages.')
TECH['C02'] = ('Abstract interpretation of __iadd__, _sum and _clear of every class into a multiset of contributions '
               'per accumulated quantity, compared with the definition for each bin type; flow-sensitive value '
               'numbering of the C++ add, copy, clear, allocate and release functions matched with the pointer fields.',
               'All classes and bin types; floating-point rounding of the sums is outside.')
TECH['C04'] = ('abstract interpretation of the C++ traversal (value numbering of every recursive call), tabulated over all '
               'truth assignments of the conditions the calls depend on',
               'The multiset of visited cell combinations, as produced by the call sites of each traversal function under '
               'each truth assignment of its branch conditions, equals the expansion of the split cells; loop bounds over '
               'top-level cells are enumerated for symbolic cells. Numerical correctness of the geometric cut-offs is outside.')
TECH['C17'] = ('Abstract interpretation of finalize, toSAS and the resampling paths of every class; the final array terms '
               'are read element-wise in each case (empty bin, non-empty bin) into polynomial normal forms and compared '
               'with the definition; unnormalise and normalise must be inverse to each other.',
               'All classes and bin types; floating-point rounding is outside.')
TECH['C24'] = ('Unit (dimension) inference over abstractly interpreted terms: every array and scalar carries the powers of '
               'the user units it is in; sums, comparisons and choices must agree, arguments of compiled separations must '
               'be internal, reported mean separations are compared in polynomial normal form with one conversion out.',
               'All correlation classes, bin types and catalog constructors; terms the interpreter cannot read get no unit '
               'and are not judged.')
TECH['C16'] = ('Abstract interpretation of the C++ accumulation kernels into tables of polynomials over the cell values '
               '(loops summarised, indices tabulated for small sizes), compared in normal form with the definition of each '
               'sum; projections, azimuths and tree averages compared with spin-s rotations for every spin and geometry.',
               'All data types, spins and geometries as symbolic polynomial identities; array sizes of multipole sums are '
               'tabulated for 3 radial bins and n <= 2; rounding is outside.')
TECH['C18'] = ('Abstract interpretation of every estimator and of the patch-combination bookkeeping into terms; estimates '
               'are compared as rational normal forms with the documented formula for every combination of given random '
               'counts, and the collections of patch combinations handed to each resampling are read as counted sets.',
               'All correlations with randoms, all given/omitted combinations and resampling methods; patch selections are '
               'compared on symbolic small index sets; rounding is outside.')
TECH['C19'] = ('Abstract interpretation of the pair selectors, design-matrix builders and covariance functions: selections are '
               'read as counted sets over symbolic patch multiplicities, rows as small-model traces, covariances as normal '
               'forms of matrix products, all compared with the definition of the method.',
               'All classes, all patched/unpatched combinations and all four resampling methods plus shot; the number of '
               'patches is abstracted by a small universe, which decides selections made by comparing indices.')
TECH['C09'] = ('Constant propagation of the option values through both languages: the compiled entry points are followed '
               'with switch labels, template arguments and helper-class constants evaluated over the finite set of '
               'options (bin type x metric x coordinates x ordering x line-of-sight limits); the template '
               'instantiations below each implementation are closed over the call graph; Python option parsing is '
               'folded per option string and compared with what the compiled code implements',
               'All option combinations are enumerated; loops and data do not enter. Conditions that are not '
               'constant let both branches through.')
TECH['C07'] = ('Abstract interpretation of writers and readers into terms: what the reader stores in an attribute is composed '
               'with the column or header entry written under that name and compared in normal form with the attribute '
               'itself; table names, keys, counts and guards of _write and _read are matched by truth tables.',
               'All classes, bin types and choices of randoms; number formatting (precision) and the file libraries '
               'themselves are outside.')
TECH['C05'] = ('Abstract interpretation of the patch drivers: the loops over patches and workers are evaluated symbolically '
               'over small universes of patch numbers, list orders and worker counts; the combinations processed, keys '
               'stored and totals recorded are read as counted sets and compared with the required combinations.',
               'All 2pt and 3pt drivers, with and without communicator, local method, existing results; universes of up to '
               '4-5 patches and 3 workers. Skipping by distance is judged by what it does when it skips, not by geometry.')

TECH['C12'] = ('Abstract interpretation of copy, __getstate__/__setstate__ and __eq__ of every class: the effect of copy on '
               'each attribute (fresh, shared, missing, re-tied) by discovered kind of attribute, what pickles leave out '
               'against what is rebuilt on demand, and equality evaluated as a Boolean function of its comparisons; '
               'field-by-field matching of C++ copying constructors and assignments.',
               'All correlation classes and Catalog; relies on copy.deepcopy and pickle honouring the state methods.')

TECH['C25'] = ('Abstract interpretation of the tree getters, of the function behind each cache and of the field constructions: '
               'each constructor argument is traced to a key argument and from there to the parameter of the request; the '
               'cache class is reduced to what it looks up, stores, returns and evicts; effects of clear_cache, unload and '
               'every operation replacing columns on each cache; settings passed at every request.',
               'All seven kinds of tree, all request sites of the correlation classes. What the compiled tree does with its '
               'settings is C06/C04. The cached patch list of a catalog is only checked on unload.')

TECH['C26'] = ('Closed forms of the bin-type helpers by bottom-up reading of their syntax trees, one per branch, with floor and '
               'log as opaque functions; range tests, bin numbers, kept separations and early discards compared with the '
               'definition of the bins on every branch; arguments matched with the parameters of the same quantity.',
               'Over the reals: the rounding of floor(log(r)) at a bin edge is outside, except that a number one past the last '
               'bin must be moved into it. When to stop splitting is not decided (it is a tolerance, not a fact).')

TECH['C10'] = ('Abstract interpretation of every operation on rows (array constructor, file reading, single-patch reading, '
               'trimming, splitting, joining, flips, undefined values, flags, discarding, the readers): one term per '
               'column, required to take its rows from its own column only, with one selection for all of them.',
               'The columns are those that can be both given and read from a file, discovered from the constructor. '
               'Numpy and the file libraries keep the order of rows; one column name read from two extensions is outside.')

TECH['C22'] = ('The events of each patch loop, extracted by abstract interpretation, are read over small numbers of patches '
               'with and without low_mem: same computations, every patch released after its last use; typestate analysis '
               'of every Catalog method (data that unload discards are used only where loaded); call sites handing on '
               'low_mem; settings and columns of patches from memory, from patch files and from the original file.',
               'The loops do not depend on the numbers of patches except through the comparisons read; releasing is not '
               'examined for workers under MPI. Patch files are those write_patches wrote.')

TECH['C08'] = ('Set comparison of declarations and reads: the declared parameters are evaluated from the syntax tree, every read of '
               'a configuration is found by query and its key constant-folded (through loops over literals, formatted '
               'strings and helper parameters); types, list-ness, defaults, documented defaults and choices compared; '
               'check_config and merge_config interpreted abstractly: which conditions guard each refusal, each stored '
               'value and each default.',
               'A configuration is recognised by name or by being bound to one. That a value read reaches the right '
               'computation is decided for columns and units in C10/C07 and for bins in C16, not here.')

TECH['C15'] = ('Typestate analysis: what opens a file must be the subject of a with statement or the last step of an __enter__; '
               '__exit__ must close and mark closed on every path and hide no error; operations must refuse a closed file; '
               'every use of a reader or writer, also through functions it is handed to, must lie inside a with statement '
               'for it; attributes set for the duration of an operation must be put back in a finally clause.',
               'All readers, writers and their users in the package. File libraries are trusted; log handlers are kept '
               'open by design, for reuse by name.')

TECH['C20'] = ('Abstract interpretation of the drivers: their calls and the conditions of each are extracted once and read for '
               'every combination of one requested output (and all together), second catalog, randoms and statistic; what is '
               'written where, and from which catalogs every correlation was computed, is compared with the documentation. '
               'Required columns, read_catalogs, configuration readers and the command-line scripts likewise.',
               'Both drivers and both scripts. The correlations and writers themselves are decided by the other properties; '
               'declared parameters with a default are taken to be present after check_config.')

TECH['C11'] = ('Ownership and alias analysis: every function gets a summary of which parts of its arguments it changes, stores or '
               'returns, by a fixed point over the call graph (numpy views against copies, in-place operators and methods, '
               'properties, compiled functions through the const-ness of their buffers); no public function may change what '
               'a caller handed in or change it later through something it kept.',
               'A field set and put back around one use counts as unchanged. What a user class hidden behind an argument does '
               'is outside. The results object a method is documented to fill is not an input.')

TECH['C21'] = ('Path conditions of every refusal, extracted by abstract interpretation, are read over small worlds of which '
               'arguments are given: each invalid combination must be refused, each valid one accepted, and no refusal may '
               'come after results were cleared or replaced; attribute sets compared for merging and file columns.',
               'The worlds enumerate presence and sign of arguments, not their values. Refusals by the metric inside process '
               'come after clearing and are outside (listed in DESIGN.md).')

TECH['C23'] = ('Closed forms: positions, bounds, metrics, orientation, angles and split decisions are read from the C++ syntax tree '
               'as polynomial normal forms per branch and compared with their definitions and with their own images under '
               'relabelling the axes or exchanging the objects; the sums per vertex and side, centroids and projections '
               'likewise from the loop summaries of the kernels.',
               'Exact arithmetic; formulas too large to expand are compared only by their symmetries. Degenerate positions '
               '(a length exactly zero) are left out. The code only compiled with -DDIRECT_MULTIPOLE is outside.')
