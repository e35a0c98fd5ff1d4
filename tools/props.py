"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


prop('C01', 'Derived results are never left over from earlier data',
     'After any operation that replaces the accumulated data of a correlation object (processing again, clearing, '
     'reading a file, summing a selection of patch results), every derived result it reports - variances, covariance, '
     'random-subtracted estimates, the record of which patch pairs exist - is computed from the new data or is '
     'unavailable, never left over from the old data. Processing starts from cleared accumulators unless the caller '
     'asks to continue, and the accumulators the compiled code writes into are always the arrays the user reads.',
     ['histories'], 'all sequences of process / clear / read / copy / calculate / estimate calls on one object',
     'Tests use a fresh object for nearly every result; staleness needs a second operation on an object whose lazily '
     'computed results were already used.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/nncorrelation.py', 'treecorr/nkcorrelation.py',
      'treecorr/zzcorrelation.py', 'treecorr/kkkcorrelation.py', 'treecorr/gggcorrelation.py'],
     [('cached variances', 'varxi/varzeta/cov properties, _clear, clear, _sum, _read_from_data'),
      ('accumulator arrays shared with C++', 'corr property of each class')])
prop('C02', 'Merging partial results adds every accumulated quantity exactly once',
     'Adding one correlation result to another, summing a list of patch results, merging per-thread accumulators and '
     'gathering results from parallel workers each combine every accumulated quantity (correlation sums, mean '
     'separations, weights, pair or triangle counts and totals) exactly once, with none left out, and leave the '
     'contributing object unchanged. Clearing resets every one of those quantities to zero.',
     ['inputs', 'histories'], 'all correlation types, bin types and all ways partial results are combined',
     'Tests compare some merged quantities for some types; an omitted or doubled accumulator in one class, or one '
     'used only by one bin type, goes unseen.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'src/Corr2.cpp', 'src/Corr3.cpp'],
     [('in-place add', '__iadd__ of every class, operator+= in Corr2.cpp and Corr3.cpp'),
      ('patch sums', '_sum of every class'), ('clear', '_clear of every class, clear() in C++')])
prop('C03', 'Threaded results do not depend on the number of threads or their schedule',
     'Whenever work is shared between threads, each thread accumulates into private storage that starts from zero and '
     'is merged into the result exactly once under mutual exclusion, or the threads write disjoint elements; no thread '
     'writes anything else that is shared, except to store a cached value every thread would compute alike. A change '
     'of the thread count that compiled code makes for one call is undone when it returns.',
     ['schedules'], 'all thread counts, schedules and inputs',
     'Tests run on small inputs with few threads, where lost updates are rare and results are compared loosely.',
     ['src/Corr2.cpp', 'src/Corr3.cpp', 'src/Cell.cpp', 'src/Field.cpp', 'src/KMeans.cpp', 'treecorr/corr2base.py'],
     [('OpenMP parallel regions', 'process functions of Corr2.cpp/Corr3.cpp, KMeans.cpp, Field.cpp'),
      ('thread count', 'set_omp_threads, samplePairs')])
prop('C04', 'Tree traversal visits every combination of split cells exactly once',
     'When a pair or triple of tree cells is neither discarded nor accumulated as a whole, at least one cell is split '
     'and every combination of the resulting parts is visited exactly once (each unordered combination once when a '
     'cell is correlated with itself), keeping each part in the role of its parent. At the top level every pair or '
     'triple of top-level cells of the fields is visited exactly once.',
     ['inputs'], 'all trees, all binning types, metrics and orderings',
     'Tests check totals for a few catalogs with tolerance; a lost branch for a rarely taken split pattern changes '
     'few pairs.',
     ['src/Corr2.cpp', 'src/Corr3.cpp'],
     [('recursion', 'BaseCorr2::process2, process11, BaseCorr3::process3, process12, process111 and their Sorted forms'),
      ('top level', 'BaseCorr2::process, BaseCorr3::process')])
prop('C05', 'Patch-based processing covers every patch combination once, on one worker',
     'When catalogs are divided into patches, every combination of patches that the correlation needs (each unordered '
     'pair or triple for auto-correlations, every combination for cross-correlations) is either processed exactly '
     'once, recorded under its own key, or provably out of range. When the work is divided among parallel workers, '
     'each combination is done by exactly one of them.',
     ['inputs', 'configurations', 'schedules'], 'all numbers of patches, catalogs and workers, all correlation types',
     'Tests use a handful of patch counts and at most a mocked communicator.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py'],
     [('patch loops', '_process_all_auto, _process_all_cross, _process_all_cross12 in both bases'),
      ('work sharing', 'is_my_job inside those functions')])
prop('C06', 'Arrays and options reach the compiled code in the slot with the same meaning',
     'Each array, binning parameter and enumerated option that the Python classes hand to the compiled code arrives in '
     'the parameter of the same meaning, for every correlation type: the right estimator component, mean separation, '
     'weight or count is written back into the attribute documented for it. Every compiled entry point that Python '
     'calls exists and takes the number of arguments passed.',
     ['inputs', 'configurations'], 'all correlation, field, bin and metric types',
     'A swap of two slots of equal type is only visible for the types and bin types where a test compares exactly '
     'those two outputs.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/field.py', 'treecorr/catalog.py', 'src/Corr2.cpp',
      'src/Corr3.cpp', 'src/Field.cpp', 'src/Cell.cpp', 'src/KMeans.cpp', 'include/Corr2.h', 'include/Corr3.h'],
     [('builder call', 'corr property of every class'), ('bindings', 'pyExport functions in src/*.cpp')])
prop('C07', 'Results written to a file read back as the same quantities',
     'For every correlation type and file format, each quantity a reader restores is taken from the column or header '
     'entry under which the writer stored that same quantity, with any conversion inverted, and the writer stores '
     'everything the reader needs. Column names and column values are listed in the same order and number, and '
     'per-patch results are stored with their own keys.',
     ['inputs', 'configurations'], 'all correlation types, optional columns, file formats and patch options',
     'Tests round-trip selected types and options; a wrong column in one class or one optional branch is not covered.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/writer.py', 'treecorr/reader.py',
      'treecorr/nncorrelation.py', 'treecorr/gggcorrelation.py', 'treecorr/catalog.py'],
     [('column tables', '_write_col_names, _write_data, _read_from_data of every class'),
      ('header', '_write_params, _read_from_data'), ('catalog columns', 'Catalog.write and from_file keys')])
prop('C08', 'Configuration parameters are recognised, checked and honoured consistently',
     'Every parameter a class or driver reads from its configuration is one of the parameters it declares as valid, '
     'and every parameter it declares is honoured somewhere rather than silently ignored. Unrecognised parameters and '
     'values outside the declared choices are rejected, and aliases resolve to declared parameters.',
     ['configurations'], 'all configuration dictionaries, keyword arguments and command-line settings',
     'Tests set a few parameters each; a parameter that is declared but read under another name is silently ignored.',
     ['treecorr/config.py', 'treecorr/catalog.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py',
      'treecorr/exec_corr2.py', 'treecorr/exec_corr3.py'],
     [('parameter tables', '_valid_params of Catalog, Corr2, Corr3 and subclasses; corr2_valid_params, corr3_valid_params'),
      ('reading', 'config.get, get_from_list, check_config, setup')])
prop('C09', 'Each bin type, metric and coordinate choice runs its own implementation',
     'Every bin type, metric and coordinate system the package declares valid is dispatched to the implementation of '
     'exactly that choice wherever a choice is made, and combinations without an implementation raise an error '
     'instead of running another one. The same holds for variance methods, split methods and file types.',
     ['configurations'], 'all combinations of bin type, metric, coordinates, split method, variance method, file type',
     'Tests exercise the common combinations; a wrong case in one of the nested dispatch tables affects one rare one.',
     ['src/Corr2.cpp', 'src/Corr3.cpp', 'src/Field.cpp', 'include/BinType.h', 'include/Metric.h',
      'treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/util.py', 'treecorr/reader.py', 'treecorr/writer.py'],
     [('dispatch switches', 'ProcessAuto/ProcessCross/... in src/*.cpp'), ('enum mapping', 'coord_enum, metric_enum, bintype')])
prop('C10', 'Columns of a catalog stay aligned row by row',
     'Every operation that selects, reorders, filters, splits or concatenates the objects of a catalog applies the '
     'same selection to every column (positions, weights, all field values, patch numbers), so the values of one row '
     'always belong to one object. Columns that are absent stay absent and column handling treats every field type '
     'alike.',
     ['inputs', 'histories'], 'all catalogs, all combinations of columns, all selections',
     'Tests check particular columns after particular selections.',
     ['treecorr/catalog.py'],
     [('selection', 'select, __init__ range and flag handling, _apply patches'), ('concatenation', 'combine')])
prop('C11', 'Inputs supplied by the caller are not modified',
     'Arrays, configuration dictionaries, lists and catalogs or correlation objects that a caller passes to a '
     'constructor, a process or estimator call are left with the values they had, apart from documented outputs and '
     'internal caches. In particular weights, flags and field values that the package normalises, negates or '
     'flags are changed on its own copies.',
     ['inputs'], 'all public entry points and input arrays',
     'Tests rarely compare the inputs before and after a call.',
     ['treecorr/catalog.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/config.py', 'treecorr/util.py'],
     [('copies before in-place updates', 'Catalog.__init__ and helpers, estimators, config helpers')])
prop('C12', 'Copies and pickles are complete and independent of the original',
     'A copied or unpickled correlation or catalog carries every accumulated quantity and setting of the original, and '
     'later processing, clearing, reading or adding on either one never changes the other. Equality of two objects '
     'takes every stored column or accumulated quantity into account.',
     ['histories'], 'all correlation types and all later operations on copy or original',
     'Tests compare a copy right after making it; sharing shows only when one of the two is changed later.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/catalog.py', 'treecorr/nncorrelation.py',
      'src/Corr2.cpp', 'src/Corr3.cpp'],
     [('copy', 'copy, _zero_copy, __getstate__, __setstate__'), ('C++ copy constructors', 'Corr2, Corr3'),
      ('equality', '__eq__')])
prop('C13', 'The binning specification never changes after construction',
     'The settings that define the bins of a correlation object (bin type, ranges, bin counts and sizes, slop, units, '
     'variance settings, bin centres and edges) keep the values computed at construction for the life of the object. '
     'No processing, estimation, reading or copying alters them, also not through objects that share them.',
     ['histories'], 'all sequences of operations on a correlation object and its copies',
     'Tests check the settings right after construction.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py'],
     [('read-only record', '_ro and the properties over it')])
prop('C14', 'All randomness comes from the random generator the caller can supply',
     'Every random choice (patch centres, k-means initialisation, pair sampling, random splitting, bootstrap '
     'resampling) is drawn from the generator given by the caller, or from a fresh default one if none is given, never '
     'from a global or hidden generator, so equal seeds give equal results. Both legacy and new-style numpy '
     'generators are accepted wherever a generator is.',
     ['inputs', 'configurations'], 'all public operations that use randomness and both generator types',
     'Tests pass one kind of generator to a few functions.',
     ['treecorr/catalog.py', 'treecorr/field.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py', 'src/KMeans.cpp',
      'src/Field.cpp', 'src/Cell.cpp', 'src/Corr2.cpp'],
     [('generator plumbing', 'rng parameters and attributes'), ('seeding C++', 'seed argument from rng')])
prop('C15', 'Files are closed on every path',
     'Every file a reader or writer opens is closed when the operation ends, whether it succeeds or raises, and no '
     'operation reads from or writes to a file that is not open. Settings an operation changes only for its own duration are '
     'put back the same way.',
     ['fault_sequences', 'histories'], 'all read and write operations and every point where they can fail',
     'Tests cover the success path; an error in the middle leaves a handle that tests do not look for.',
     ['treecorr/reader.py', 'treecorr/writer.py', 'treecorr/catalog.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py'],
     [('context managers', '__enter__/__exit__ of readers and writers and every use of them')])
prop('C16', 'Accumulated sums have the documented weighting, symmetry and spin behaviour',
     'For every pair or triangle the counts grow by one per pair, the weights by the product of the weights, mean '
     'separations by the weight times the separation, and the field products by the product of weighted values, '
     'rotated by the phases that make the result independent of the orientation of the coordinate system. Each '
     'component is accumulated into its own array.',
     ['inputs'], 'all field combinations, weights, values and geometries',
     'Tests compare with brute force for typical values; an error in one component, ordering or branch is averaged away.',
     ['src/Corr2.cpp', 'src/Corr3.cpp', 'include/ProjectHelper.h'],
     [('kernels', 'directProcess functions, finishProcess, DirectHelper specialisations')])
prop('C17', 'Accumulated sums are normalised exactly once by the matching weight',
     'Finalizing divides every accumulated mean (correlation, mean separation and shape quantities) exactly once by '
     'the accumulated weight of the same bin, leaves weights and counts unnormalised, and gives empty bins the '
     'documented nominal values instead of dividing by zero. The patch-based and resampled results are normalised by '
     'the same rule.',
     ['inputs', 'histories'], 'all correlation types and bin types, bins with and without pairs',
     'Tests look at well populated bins of a few types.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/kkcorrelation.py', 'treecorr/kkkcorrelation.py'],
     [('finalize', '_finalize, finalize of every class'), ('resampling', '_calculate_xi_from_pairs')])
prop('C18', 'Random-subtracted estimators follow their documented formulas everywhere',
     'The count-count, count-count-count and count-field estimators compute the documented combinations of data and '
     'random results, with each random result rescaled by the ratio of total weights, for every choice of which '
     'randoms are given. The resampled versions used for covariances apply the same formula to the selected patches.',
     ['inputs', 'configurations'], 'all sets of randoms given, with and without patches',
     'Tests check main combinations at low precision; resampled versions only statistically.',
     ['treecorr/nncorrelation.py', 'treecorr/nnncorrelation.py', 'treecorr/nkcorrelation.py', 'treecorr/nzcorrelation.py'],
     [('estimators', 'calculateXi, calculateZeta, _calculate_xi_from_pairs')])
prop('C19', 'Each covariance method resamples and scales exactly as defined',
     'Every covariance method uses its own resampling rule (leave one patch out, keep one patch, or patches drawn with '
     'multiplicity), includes for each resampling exactly the patch combinations the rule prescribes, and applies its '
     'own scale factor. Multi-statistic covariances concatenate the statistics in the order given and use the same '
     'resamplings for all of them.',
     ['inputs', 'configurations'], 'all numbers of patches, variance methods and combinations of statistics',
     'Tests compare with sample covariances at tens of percent.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py'],
     [('resampling', 'JackknifePairIterator etc., _jackknife_pairs, _sample_pairs, _bootstrap_pairs'),
      ('scaling', '_cov_jackknife, _cov_sample, _cov_marked, _cov_bootstrap, _cov_shot')])
prop('C20', 'The command-line drivers compute each requested output from the right inputs',
     'For every kind of output the configuration asks for, the drivers run the matching correlation on the matching '
     'data and random catalogs, in the documented order, and write the result to the file named for it; nothing '
     'requested is skipped. Settings from the command line reach the configuration.',
     ['configurations'], 'all configuration files and combinations of input and output names',
     'Tests run the drivers on a few configurations.',
     ['treecorr/exec_corr2.py', 'treecorr/exec_corr3.py', 'treecorr/config.py'],
     [('drivers', 'corr2, corr3 functions')])
prop('C21', 'Invalid inputs are rejected before anything is computed',
     'Inconsistent or out-of-range inputs (mismatched column lengths, missing partner components, contradictory '
     'coordinates, impossible bin specifications, incompatible objects added together) raise an error naming the '
     'problem before results are changed. Paired components are required together in every way of giving them.',
     ['inputs', 'configurations'], 'all constructor and process arguments',
     'Tests check some of the invalid combinations.',
     ['treecorr/catalog.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py', 'treecorr/config.py', 'treecorr/field.py'],
     [('validation', 'Catalog._check, Corr2.__init__, Corr3.__init__, __iadd__')])
prop('C22', 'Low-memory patch processing gives the same results and releases what it loads',
     'Processing patches that are loaded on demand does the same computations as with everything in memory, unloads '
     'each patch after its last use, and never uses a patch after unloading it without loading it again. Patches '
     'obtained in low-memory mode carry the same settings as patches obtained from memory.',
     ['inputs', 'histories'], 'all numbers of patches and all correlation types',
     'Tests run low-memory mode for a few types and do not look at what stays loaded.',
     ['treecorr/catalog.py', 'treecorr/corr2base.py', 'treecorr/corr3base.py'],
     [('load and unload', 'Catalog.load, unload, get_patches; low_mem branches of _process_all_*')])
prop('C23', 'Coordinates and vertices are treated alike by every formula that names them',
     'Formulas written out per coordinate (x, y, z), per object (first, second, third) or per side of a triangle treat '
     'them consistently: every symmetric formula uses each coordinate once with the matching partner, and each '
     'per-vertex or per-side accumulation is the image of the others under relabelling. The distance of each metric is '
     'its documented function of the two positions for all positions it accepts.',
     ['inputs'], 'all positions, metrics, periodic boxes and triangle shapes',
     'A copy-and-paste slip in one coordinate affects only geometries tests do not use, such as unequal periods.',
     ['include/Metric.h', 'include/Position.h', 'include/Bounds.h', 'src/Corr3.cpp', 'src/Cell.cpp'],
     [('distance formulas', 'Metric.h'), ('bounds and centroids', 'Bounds.h, Position.h, Cell.cpp')])
prop('C24', 'Separation units are converted once on the way in and once on the way out',
     'Separations and angles given in user units are converted to the internal unit exactly once before use, '
     'and every mean separation reported is converted back exactly once, logarithms included. Quantities that are '
     'not separations are never scaled by the unit.',
     ['configurations', 'histories'], 'all unit choices, all correlation and bin types, repeated and patch-based runs',
     'Tests use units in a few cases and rarely together with patches.',
     ['treecorr/corr2base.py', 'treecorr/corr3base.py'],
     [('units', '_apply_units, __init__, _finalize')])
prop('C25', 'Cached search trees are reused only for the settings they were built with',
     'A search tree kept for later use is returned only for a request with the same kind of field, size limits, '
     'splitting choices, coordinate system and source data; any difference builds a new tree. Discarding the data of a '
     'catalog also discards trees built from it.',
     ['histories', 'configurations'], 'all sequences of tree requests on a catalog',
     'Tests request trees with one or two settings.',
     ['treecorr/catalog.py', 'treecorr/field.py', 'treecorr/util.py'],
     [('cache', 'LRU_Cache, get*Field methods, Catalog.clear_cache')])
prop('C26', 'Pairs and triangles are counted in the bin their separations fall in',
     'Every accumulated pair or triangle has its separations (and ratios, angle or components) inside the range of the '
     'binning and is added to the bin containing them, with its own separation and logarithm, also when the bin was '
     'chosen while deciding not to split further. Cells are discarded early only if no pair in them can be in range.',
     ['inputs', 'configurations'], 'all separations, bin types, ranges and bin sizes, including values on bin edges',
     'Tests compare a few catalogs within statistical or binning tolerance; edge values and one bin type in one branch escape.',
     ['include/BinType.h', 'src/Corr2.cpp', 'src/Corr3.cpp'],
     [('bin types', 'BinTypeHelper'), ('accumulation', 'BaseCorr2::directProcess11')])

TECH = {}
NA = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in TECH:
            t, note = TECH[p['id']]
            checks.append({'property': p['id'],
                           'quick_cmd': 'python3 check.py %s' % p['id'],
                           'thorough_cmd': 'python3 check.py --tier thorough %s' % p['id'],
                           'technique': t, 'level': 'other', 'level_note': note})
        else:
            na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis of /repo sources; nothing of the package is executed or built. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
