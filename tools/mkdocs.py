#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EQ = 'value-graph analysis of the source, normal-form equality with a specification'
P = []


def prop(id, title, statement, quant, why, files, mech, technique=None, note=None, over=('inputs',), na=None, how=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files,
                  mech=mech, technique=technique or EQ, note=note, na=na, how=how))


NOTE = ('Discharged obligations hold for every argument of the stated types in exact arithmetic, assuming the modelled '
        'semantics of Python and its library (DESIGN.md) and that assert statements hold; undetermined obligations are '
        'listed in the evidence and decide nothing.')

prop('C01', 'Calling the library never changes the data it is given',
     'No metric, agreement statistic, converter, summary, confusion-matrix statistic or file writer changes the segmentations, '
     'datasets, confusion matrices, score collections or option values passed to it; only in-place merging changes its receiver. '
     'This holds however deeply the data is nested and whether the call succeeds or raises.',
     'every public function, every argument and option, successful or failing',
     'Tests look at returned values; almost none look at the arguments afterwards, and only for a few shapes.',
     ['segeval/util/__init__.py', 'segeval/compute.py', 'segeval/ml/__init__.py', 'segeval/window/__init__.py',
      'segeval/similarity/__init__.py', 'segeval/agreement/__init__.py', 'segeval/data/__init__.py',
      'segeval/similarity/distance/multipleboundary.py'],
     [('option copying', 'segeval/util/__init__.py'), ('pairwise enumeration', 'segeval/compute.py'),
      ('matrix statistics', 'segeval/ml/__init__.py'), ('edit-distance working sets', 'segeval/similarity/distance/multipleboundary.py')],
     'effect analysis: may-mutate facts of every store and mutating call, traced to parameters',
     over=('inputs', 'histories'))
prop('C02', 'A result depends only on the arguments of that call',
     'Calling any public function gives the same result no matter which calls were made before it, whether they failed, and '
     'whether their results were later modified by the caller. No call changes the documented option defaults or any other '
     'state shared between calls.',
     'every sequence of calls to public functions followed by every call',
     'Tests run each function a handful of times with the same options; state leaking from one call into a later one needs a '
     'particular order of calls.',
     ['segeval/util/__init__.py', 'segeval/metric.py', 'segeval/window/__init__.py', 'segeval/similarity/__init__.py',
      'segeval/agreement/__init__.py', 'segeval/data/__init__.py', 'segeval/ml/__init__.py'],
     [('option defaults', 'segeval/metric.py'), ('option merging', 'segeval/util/__init__.py'),
      ('default argument of the folder loader', 'segeval/data/__init__.py')],
     'effect analysis: writes to module-level, class-level and default-argument objects',
     over=('histories', 'inputs'))
prop('C03', 'Values are compared by equality, never by object identity',
     'Results depend on the values of labels, encodings, coder names, option values and sequence elements and never on whether '
     'two equal values are the same object. In particular equal segment labels above the small-integer range, strings built at run '
     'time and encoding names read from files behave exactly like literals.',
     'every pair of equal values held by distinct objects, in every argument position',
     'CPython and PyPy cache small integers and literals, so tests with small labels pass under identity comparison.',
     ['segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/window/__init__.py', 'segeval/similarity/__init__.py',
      'segeval/agreement/__init__.py', 'segeval/ml/__init__.py', 'segeval/data/jsonutils.py'],
     [('label comparison', 'segeval/window/pk.py'), ('format dispatch', 'segeval/similarity/__init__.py')],
     'lint over the syntax tree with constant resolution: operands of identity operators and id()',
     over=('inputs', 'configurations'))
prop('C04', 'All segmentation encodings give the same scores',
     'A pair of segmentations given as segment masses, as position labels, as 0/1 boundary strings or (for the edit-distance '
     'metrics and agreement) as sets of boundary types per position scores the same, with the same parts, confusion matrix and '
     'statistics, as the same pair in any other supported encoding. An encoding a metric does not support is refused with an error.',
     'every pair of segmentations, every encoding, every metric and option value',
     'Tests compare encodings on a few fixed segmentations per metric.',
     ['segeval/format.py', 'segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/similarity/__init__.py',
      'segeval/agreement/__init__.py'],
     [('encoding dispatch', 'segeval/similarity/__init__.py'), ('encoding dispatch', 'segeval/window/pk.py'),
      ('converters', 'segeval/format.py')])
prop('C05', 'Segmentations of different lengths are refused',
     'Every pair metric, the confusion matrix, the boundary statistics and the edit distance raise an error when the two '
     'segmentations cover different numbers of units, in every encoding and for every option, instead of returning a score; '
     'segmentations covering the same number of units are never refused for their length.',
     'every pair of segmentations, encoding and option value',
     'Tests try a few unequal pairs, mostly far apart in length.',
     ['segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/similarity/__init__.py',
      'segeval/similarity/distance/multipleboundary.py'],
     [('length check', 'segeval/window/pk.py'), ('length check', 'segeval/window/windowdiff.py'),
      ('length check', 'segeval/similarity/__init__.py')])
prop('C06', "A dataset's declared encoding governs how it is read",
     'When a metric, agreement statistic or window size is computed from a dataset, its segmentations are read in the encoding '
     'that dataset declares, whatever encoding option is passed or defaulted. Comparing two datasets that declare different '
     'encodings raises an error.',
     'every dataset, declared encoding and passed encoding option',
     'Tests use mass datasets almost exclusively and never pass a conflicting option.',
     ['segeval/util/__init__.py', 'segeval/agreement/__init__.py', 'segeval/window/__init__.py'],
     [('dataset dispatch', 'segeval/util/__init__.py'), ('dataset dispatch', 'segeval/agreement/__init__.py')],
     over=('inputs', 'configurations'))
prop('C07', 'Documented defaults apply; supplied options are used; others refused',
     'Every metric called without options behaves as with its documented defaults (masses; no complement; no parts; transpositions '
     'spanning 2; scaled weights; half-the-mean window; both coder orders for window metrics only), and every supplied option value '
     'is the one used, also for datasets and when falsy. Segmentations passed by position or by keyword mean the same, a single '
     'integer means one segment, and an unknown option or missing segmentations raise an error.',
     'every metric, combination of options and way of passing arguments',
     'Tests exercise each option alone with one or two values.',
     ['segeval/util/__init__.py', 'segeval/metric.py', 'segeval/window/__init__.py', 'segeval/window/windowdiff.py',
      'segeval/similarity/__init__.py', 'segeval/agreement/__init__.py', 'segeval/compute.py'],
     [('defaults', 'segeval/metric.py'), ('argument dispatch', 'segeval/util/__init__.py'), ('option passing', 'segeval/compute.py')],
     over=('inputs', 'configurations'))
prop('C08', 'Scores, their parts and their complements agree',
     'For every pair metric the complement option returns exactly one minus the score, the parts returned are the numerator and '
     'denominator whose quotient is the score, and asking for parts gives the same parts whether or not the complement is also asked for.',
     'every pair of segmentations and combination of the two options with all other options',
     'Tests combine the options on one or two fixed pairs.',
     ['segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/similarity/boundary.py', 'segeval/similarity/segmentation.py'],
     [('score and parts', 'segeval/window/windowdiff.py'), ('score and parts', 'segeval/similarity/boundary.py')])
prop('C09', 'Datasets are compared over exactly the right pairs, rightly labelled',
     'One dataset yields, per item, one value for each unordered pair of its coders (both orders when permuted), and two datasets '
     'yield one value for each coder of the first with each coder of the second on the items both contain; nothing is missing, '
     'duplicated or paired with itself. Each value is that of comparing exactly the two segmentations its label names, in that order, '
     'with the options passed.',
     'every dataset or pair of datasets, any number of items and coders, items or coders missing from either, every option',
     'Tests use small complete datasets and mostly check the mean.',
     ['segeval/compute.py', 'segeval/util/__init__.py'],
     [('pair enumeration', 'segeval/compute.py'), ('dataset dispatch', 'segeval/util/__init__.py')])
prop('C10', 'Scores are exact decimal numbers',
     'Every score, part, statistic, agreement value and weight is an integer or a decimal number, never a binary floating-point number, '
     'so results can be summed, averaged and compared exactly and combined with each other without type errors.',
     'every metric, statistic and option, including the degenerate cases that return a constant',
     'Tests compare with assertEqual and assertAlmostEqual, which accept equal floating-point values on the pairs sampled.',
     ['segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/similarity/weight.py', 'segeval/util/math.py', 'segeval/ml/__init__.py',
      'segeval/similarity/boundary.py', 'segeval/similarity/segmentation.py', 'segeval/agreement/__init__.py'],
     [('decimal division', 'segeval/window/pk.py'), ('decimal division', 'segeval/similarity/weight.py')],
     'numeric-type dataflow over the value graphs of every analysed operation')
prop('C11', 'Every valid pair or dataset is given a score',
     'Every pair metric, confusion matrix, boundary statistic and agreement coefficient gives a value, and every converter a result, for '
     'every valid input (non-empty segmentations of equal length, in any supported encoding, with default or documented options): a single '
     'unit, no boundaries at all, or a text shorter than the window are scored like any other and never refused, divided by zero or failed on. '
     '(Pi and kappa are undefined when chance agreement is one, and are not covered there.)',
     'every valid segmentation pair or dataset in every encoding, with default or given window, span and options',
     'The failing inputs are degenerate: one unit, one segment, no boundary, window longer than the text. Tests sample some for some metrics.',
     ['segeval/window/pk.py', 'segeval/window/windowdiff.py', 'segeval/window/__init__.py', 'segeval/similarity/__init__.py',
      'segeval/similarity/boundary.py', 'segeval/similarity/segmentation.py', 'segeval/agreement/__init__.py',
      'segeval/agreement/bias.py', 'segeval/format.py'],
     [('empty-window guard', 'segeval/window/windowdiff.py'), ('empty-pair guards', 'segeval/similarity/boundary.py'),
      ('empty-pair guard', 'segeval/similarity/segmentation.py')],
     'value-graph analysis: reachability of raise statements, failing operations and zero divisors')
prop('C12', 'Pk and WindowDiff are what their definitions say',
     'Pk is the proportion of windows whose end units are in one segment in exactly one of the two segmentations; WindowDiff is the '
     'proportion of windows in which the numbers of boundaries differ, with the Lamprier et al. correction padding both ends and '
     'dividing by one more than the windows counted. Every window position is counted exactly once, and scores are 0 when the '
     'segmentations are no longer than the window.',
     'every pair of equally long segmentations and every window size',
     'Tests compare with precomputed values of a few pairs.',
     ['segeval/window/pk.py', 'segeval/window/windowdiff.py'],
     [('window loop', 'segeval/window/pk.py'), ('window loop', 'segeval/window/windowdiff.py')])
prop('C13', 'The window is half the mean reference segment, at least 2',
     'Unless given, the window size is half the mean segment mass of the reference (all segmentations of a collection, nested at any '
     'depth), rounded with the rounding function given and never below 2; the hypothesis has no influence. A window size given is used as is.',
     'every reference segmentation, item, collection or dataset, every encoding supported and rounding function',
     'Tests compute a few sizes with the default rounding.',
     ['segeval/window/__init__.py', 'segeval/window/pk.py', 'segeval/window/windowdiff.py'],
     [('window size', 'segeval/window/__init__.py')])
prop('C14', 'B and S are what their definitions say',
     'Boundary similarity is (edits and matches minus weighted edits) over (edits and matches), 1 if there are none; segmentation '
     'similarity is (potential boundaries minus weighted edits) over potential boundaries counted once per boundary type, 1 if there are '
     'none. The edits, matches, full misses, boundary types, boundary counts and potential boundaries reported are those of the pair.',
     'every pair of segmentations with any boundary types, transposition span and weighting functions',
     'Tests compare precomputed values on a few pairs, nearly all with one boundary type.',
     ['segeval/similarity/__init__.py', 'segeval/similarity/boundary.py', 'segeval/similarity/segmentation.py',
      'segeval/similarity/distance/__init__.py'],
     [('boundary statistics', 'segeval/similarity/__init__.py'), ('B', 'segeval/similarity/boundary.py'),
      ('S', 'segeval/similarity/segmentation.py')])
prop('C15', 'Boundary edit distance accounts for every difference exactly once',
     'The edit distance between two boundary strings returns, for every span up to n_t and nearest first, each near miss (a type on one side '
     'at one position and on the other side at another) that overlaps no earlier transposition of its type and does not cost two '
     'substitutions as a transposition; what remains at each position is paired off into substitutions of least total type distance, and '
     'the rest are additions from their side. Every boundary in which the strings differ is in exactly one edit, and no edit involves '
     'any other boundary.',
     'every pair of boundary strings of one length with any boundary types and any n_t',
     'Tests use short strings of up to three types; what interacts are several types, overlapping near misses and large spans.',
     ['segeval/similarity/distance/multipleboundary.py'],
     [('transposition detection', 'segeval/similarity/distance/multipleboundary.py'),
      ('pairing of substitutions', 'segeval/similarity/distance/multipleboundary.py')])
prop('C17', 'The boundary confusion matrix accounts for every match and edit',
     'The matrix of a pair holds one count per matching boundary and the weight of each transposition on the diagonal of its type, one '
     'count per substitution in the cell of the two types, and one count per addition in the cell of its type and no boundary; nothing else.',
     'every pair of segmentations with any boundary types, transposition span and weighting functions',
     'Tests compare the matrix of a few pairs.',
     ['segeval/similarity/__init__.py', 'segeval/ml/__init__.py'],
     [('matrix construction', 'segeval/similarity/__init__.py')])
prop('C18', 'Precision, recall and F-measure are what their definitions say',
     'Per class, precision is the true positives over all predicted as the class and recall the true positives over all actually of the '
     'class (0 when nothing is), and F-beta is their weighted harmonic mean for any beta. Macro values are means over classes, micro values '
     'pool the counts, and collections of matrices yield one value per label.',
     'every confusion matrix, class, beta and averaging',
     'Tests use a handful of matrices.',
     ['segeval/ml/__init__.py'],
     [('precision, recall, F', 'segeval/ml/__init__.py')])
prop('C19', 'Agreement statistics are what their definitions say',
     'Observed agreement pools the parts of the compared pairs, every item and unordered pair of coders once, as the comparison function '
     'given scores them; expected agreement uses, for every coder, the share of all places of all items at which that coder placed a '
     'boundary (pi: the squared mean share; kappa: the mean product over pairs of coders; bias: its per-coder form), and each coefficient is '
     '(observed - expected) / (1 - expected). Data with missing or single codings is refused where the coefficient needs complete coding.',
     'every collection of items with any number of coders, comparison function and encoding',
     'Tests compare precomputed values for a few collections of two or three coders.',
     ['segeval/agreement/__init__.py', 'segeval/agreement/pi.py', 'segeval/agreement/kappa.py', 'segeval/agreement/bias.py',
      'segeval/data/__init__.py'],
     [('observed agreement and counts', 'segeval/agreement/__init__.py'), ('pi', 'segeval/agreement/pi.py'),
      ('kappa', 'segeval/agreement/kappa.py'), ('bias', 'segeval/agreement/bias.py')])
prop('C20', 'Summary statistics are population statistics of all the values',
     'A summary returns the mean, population standard deviation, population variance, standard error (deviation over the root of the count) '
     'and count of exactly the values given, each value counted as often as it occurs.',
     'every collection of values',
     'Tests check a few lists.',
     ['segeval/util/math.py', 'segeval/compute.py'],
     [('statistics', 'segeval/util/math.py'), ('summary', 'segeval/compute.py')])
prop('C21', 'Datasets are built, merged and copied without losing or sharing codings',
     'A dataset built from codings has exactly those items, coders and segmentations, the given properties, boundary types and format (or the '
     'documented defaults); merging adds every coding of the other dataset and keeps every coding, property and format of the first, and is refused '
     'when, and only when, some item has the same coder in both; addition and copying leave the originals as they were. Nothing done to the '
     'result afterwards changes the data, dataset, properties or types it was made from.',
     'every pair of datasets, every item and coder name',
     'Tests merge two fixed files; sharing shows only when someone later changes one of the two.',
     ['segeval/data/__init__.py'],
     [('Dataset', 'segeval/data/__init__.py'), ('get_coders', 'segeval/data/__init__.py')],
     'value-graph equivalence of lookups at an arbitrary item and coder; ownership of nested containers')
prop('C22', 'JSON files hold exactly the dataset written, and are read exactly',
     'Reading a JSON file gives exactly the items, coders, segmentations and properties the document holds, and refuses a document of '
     'another or no segmentation type or without items. Writing stores the properties, the type and every coding, in the file named or in '
     'output.json of the directory named, replacing what was there, and leaves the dataset as it was; what is written reads back the same.',
     'every document, dataset and path',
     'Tests read a few fixed files and compare a few values.',
     ['segeval/data/jsonutils.py', 'segeval/data/__init__.py'],
     [('reader and writer', 'segeval/data/jsonutils.py')],
     'value-graph equivalence of what is read, and of the recorded writes, at an arbitrary item, coder and property')
prop('C23', 'TSV files are read exactly: one coding per row',
     'Reading a table gives, under the item named after the file, each row as the coding of the coder in its first column with exactly '
     'the numbers of the other columns in order; the header row and empty rows hold no coding, columns are split at the delimiter given '
     '(a tab by default), and a coder occurring twice is refused. The position reader converts each row of position labels to masses.',
     'every table: any number of rows and columns, any delimiter and file name',
     'Tests read a few fixed files, all without empty or uneven rows.',
     ['segeval/data/tsv.py', 'segeval/data/__init__.py'],
     [('table reader', 'segeval/data/tsv.py'), ('item name', 'segeval/data/__init__.py')],
     'value-graph equivalence of what is read at an arbitrary item and coder')
prop('C24', 'Folders are loaded completely: each matching file once, each sub-folder',
     'Loading a folder reads each file in it with an extension of the file type (in any case of letters) exactly once, with the reader of '
     'that type, and each sub-folder likewise with its name appended to the name prefix; all codings end up in the dataset returned, which '
     'is the one given if one was given. Other files are not read, and the prefix list given is not changed.',
     'every folder tree, file type, prefix and initial dataset',
     'Tests load two fixed folders.',
     ['segeval/data/__init__.py'],
     [('folder loader', 'segeval/data/__init__.py')],
     'value-graph equivalence of the ledger of reads and merges made for an arbitrary directory entry')
prop('C25', 'Every module can be imported first, and every documented name is offered',
     'Importing any module of the package first, in a fresh interpreter, succeeds whatever was or was not imported before. The package '
     'offers every documented function, type and constant under its documented name.',
     'every module as the first import, every documented name',
     'The tests import modules in one fixed order, after the test runner has imported others.',
     ['segeval/__init__.py', 'segeval/data/__init__.py', 'segeval/window/__init__.py', 'segeval/similarity/__init__.py'],
     [('lazy package', 'segeval/__init__.py')],
     'abstract execution of import statements over the module graph', over=('configurations', 'histories'))
prop('C26', 'Converters between encodings lose nothing',
     'Converting masses to position labels or to a boundary string yields exactly one label per unit and one set per position between units, '
     'with boundaries exactly between segments; converting position labels or 0/1 strings to masses yields one mass per run or segment. '
     'Masses converted to position labels and back are unchanged.',
     'every segmentation in every encoding',
     'Tests convert a few fixed segmentations.',
     ['segeval/format.py'], [('converters', 'segeval/format.py')])
prop('C27', 'Edit weights follow their definitions',
     'Unscaled weights count the edits; the scaled transposition weight is the sum of spans over the maximum span, and the scaled '
     'substitution weight the sum of type distances over one more than the range of types. The scaled weights depend on every edit and not on their order.',
     'every list of edits and every maximum',
     'Tests exercise the weights only through a few scores.',
     ['segeval/similarity/weight.py'], [('weights', 'segeval/similarity/weight.py')])
prop('C28', 'Every file opened is closed, whatever happens',
     'Every file the library opens is closed again on every path, normal or exceptional, before the function that opened it returns: '
     'an unreadable document, a failing conversion or a failing write leaves no file open and no output unflushed.',
     'every file-opening call and every normal or exceptional path out of the function holding it',
     'Interpreters with reference counting close leaked files at once, so tests pass; on others files leak or output stays unflushed.',
     ['segeval/data/jsonutils.py', 'segeval/data/tsv.py', 'segeval/data/__init__.py'],
     [('JSON reader and writer', 'segeval/data/jsonutils.py'), ('table reader', 'segeval/data/tsv.py')],
     'typestate dataflow over the control-flow graph: open handles at function exits', over=('inputs', 'fault_sequences'))

prop('C16', 'The edit distance treats the two segmentations alike',
     'Exchanging the two boundary strings given to the boundary edit distance exchanges the roles in what is returned and changes '
     'nothing else: the same additions and substitutions seen from the other side, the same transpositions.',
     'every pair of boundary strings, number of boundary types and maximum span',
     'Tests compare a few pairs in both orders.',
     ['segeval/similarity/distance/multipleboundary.py'],
     [('overlap resolution', 'segeval/similarity/distance/multipleboundary.py')],
     na='A relational fact about a greedy resolution of overlapping candidates: an inductive invariant over the state two loops reach '
        'on exchanged inputs, which no normal form or dataflow fact here expresses. C15 decides what the procedure computes; '
        'symmetry of that procedure is a theorem about it, not a fact of the source.')
prop('C29', 'Rounding of decimal results stays below the last digits reported',
     'Every score and statistic differs from its exact rational value by no more than the accumulated rounding of the decimal '
     'context in force, whatever the length of the texts.',
     'every input and every decimal context',
     'Tests compare rounded values of small examples.',
     ['segeval/util/math.py', 'segeval/compute.py'], [('sums and quotients of decimals', 'segeval/util/math.py')],
     na='The error depends on run-time magnitudes and the number of operations; a static bound would need ranges of run-time '
        'quantities that the arguments do not bound. C10 decides that no binary floating-point number enters.')


# How each property is decided here, in prose (the obligations are listed by name from specs/).
HOW = {
 'C01': 'Every store, deletion, augmented assignment and mutating call reached from a public function is an effect; its target is traced to allocation sites, parameters, globals. A target that may be (part of) a parameter is a finding, with the statement and the call path. Run twice: on a whole-program points-to analysis (every public function, untyped) and on the value graphs of every obligation (typed, where containers held by containers are followed). The receiver of an in-place merge and private helpers whose parameter never holds a caller\'s object are the only exceptions.',
 'C02': 'The same effect facts, for targets that may be module-level objects, class attributes, default arguments or closure cells of module life, and reads of them that a call could have changed (memo tables, counters); iteration state kept between calls. A memo whose key does not determine its value is a finding; the value graphs expose it as a read of mutable global state.',
 'C03': 'Every `is`/`is not` and call of id() in the package: allowed only against singletons (None, True/False as an option default, a module-level sentinel or class that is never copied), decided with constant resolution through assignments and parameters.',
 'C04': 'For every pair metric, part, statistic, matrix and agreement statistic: its value on position labels and on 0/1 strings is the value on the masses they denote (converters abstracted to the definitional ones, which C26 decides), whatever edit distance is computed; unknown encodings are refused by every one.',
 'C05': 'The conditions under which the value graph of each pair metric ends in the length error are equal to the condition that the two lengths (sums of masses, number of labels, string lengths) differ: neither weaker nor stronger.',
 'C06': 'The graph of a metric on a dataset is the graph of the pairwise enumeration whose format argument is the dataset\'s own; an explicit argument that disagrees does not win silently (per the code\'s documented rule), and agreement and window size read it too.',
 'C07': 'Each metric called with a subset of its options has the graph of the same metric called with all of them, the missing ones replaced by the documented default; unknown options end in the option error.',
 'C08': 'With the pair metric\'s parts abstracted or expanded: value = numerator/denominator (or its stated function), complement = 1 - value, parts unaffected by the complement, and the complement that of the chosen variant (Lamprier).',
 'C09': 'For an arbitrary dataset, the mapping returned at an arbitrary label equals the comprehension over items and unordered (ordered if permuted) pairs of coders; labels name the item and both coders, and two datasets compare every coder of one with every coder of the other on shared items.',
 'C10': 'Number classes (int, Decimal, Fraction, float, ...) are propagated along the value graphs of every obligation and through the rules of Python\'s arithmetic; a public result that may be float, or an operation mixing float with Decimal, is a finding.',
 'C11': 'For arguments of the stated types (including segmentations without boundaries, single units, windows longer than the text) the condition of every exceptional exit of the graph must normalise to false: raise statements, division by zero, empty max/min, missing keys, bad indices.',
 'C12': 'The graphs of Pk and WindowDiff on masses equal the transcribed definitions as sums over all windows, for any masses and any window size, including the two error counts of Lamprier\'s correction.',
 'C13': 'The graph of the default window equals round-half-to-even of half the mean mass, at least 2, over the masses found at any level of nesting, for the reference given by position or by keyword.',
 'C14': 'B, S and the boundary statistics equal their definitions over the edit distance\'s results (abstracted: any additions, substitutions, transpositions), the number of potential boundaries, types, matches, and arbitrary weight functions.',
 'C15': 'The full edit distance (option handling, set passes, overlap resolution, loops over spans) is reduced to folds over positions and compared with a transcription of the documented procedure; loop accumulators become fold nodes whose step functions are compared after normalisation. Equality with the transcription implies the statement (argued by hand: each step of the transcription removes exactly what it records). Minimality is not claimed (see C16).',
 'C17': 'The cell of the matrix at an arbitrary pair of classes equals the sum over matches, edits and transpositions in the statement, over any edit distance result.',
 'C18': 'Per-class values and averages equal the stated ratios over an arbitrary matrix; `version` argument dispatch is covered; sums range over the classes of rows and columns.',
 'C19': 'Observed and expected agreement (A_a, pi, kappa, bias) equal the stated pooled sums for any comparison function: it is a free function variable, so nothing about it is assumed.',
 'C20': 'Mean, variance, deviation, standard error over an arbitrary finite collection of numbers (square root uninterpreted), and summarize over values of any mapping or list.',
 'C21': 'Lookup in the built/merged/copied dataset at an arbitrary item and coder equals the stated case split over the sources; sharing is decided by an ownership analysis (*_own obligations mutate one side and look at the other).',
 'C22': 'Reading: files, JSON decoding and its errors are modelled as uninterpreted functions of the path; the graph of what is returned at an arbitrary item/coder/property equals the document\'s. Writing: the ledger of writes equals one document with exactly the items and properties; composition gives the round trip.',
 'C23': 'The csv reader is an uninterpreted function of text and delimiter giving rows; the graph at an arbitrary coder equals the case split over rows.',
 'C24': 'The directory listing, isdir and splitext are uninterpreted; the multiset of (reader, path, prefix) merged, for an arbitrary directory entry, equals the statement. Recursion is decided by its own summary (the ledger of a call on a sub-folder).',
 'C25': 'Import statements of every module are executed abstractly over the module graph, starting from each module in turn: a name imported from a partially initialised module before it is bound is a finding; documented names must be bound to definitions in the package namespace.',
 'C26': 'Each converter\'s graph equals its definition at an arbitrary index, its length equals the stated length, and the composition of the two converters is the identity.',
 'C27': 'The graphs of the weight functions equal the stated sums, for any list of edits.',
 'C28': 'A typestate over the control-flow graph with exceptional edges: an open handle must be closed (with, close in finally) on every path leaving the function that holds it; handles returned or stored are followed.',
}


def main(done=None):
    import sys
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 8)"', 'checks': [],
           'not_applicable': [], 'notes': 'All checks are static: no code of /repo is imported or executed. See DESIGN.md.'}
    for p in P:
        if p['na']:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
            continue
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                              'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                              'technique': p['technique'], 'level': 'other', 'level_note': p['note'] or NOTE})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    design()


def obligations():
    import collections
    from sa.obligations import Context
    out = collections.defaultdict(list)
    for o in Context().obl:
        for p in o.props:
            out[p].append(o.name)
    return out


def design():
    """Refresh the generated part of DESIGN.md."""
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    head, tail = text.split('## Properties\n')[0], ''
    if '## Planted bugs' in text:
        tail = '## Planted bugs' + text.split('## Planted bugs', 1)[1]
    out = ['## Properties', '']
    names = obligations()
    for p in P:
        if p['na']:
            out += ['**%s %s.** Not applicable: %s' % (p['id'], p['title'], p['na']), '']
            continue
        out += ['**%s %s.** Quantified over %s. *Method:* %s. %s' % (p['id'], p['title'], p['quant'], p['technique'], HOW.get(p['id'], '')), '',
                '*Why tests cannot:* %s' % p['why'], '']
        if names.get(p['id']):
            out += ['*Obligations (specs/):* ' + ', '.join(names[p['id']]) + '.', '']
    open(path, 'w').write(head + '\n'.join(out) + '\n' + tail)


if __name__ == '__main__':
    main()
