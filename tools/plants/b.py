MB = 'segeval/similarity/distance/multipleboundary.py'
SI = 'segeval/similarity/__init__.py'
AG = 'segeval/agreement/__init__.py'
DA = 'segeval/data/__init__.py'
JS = 'segeval/data/jsonutils.py'
TS = 'segeval/data/tsv.py'
UT = 'segeval/util/__init__.py'

plant('pk-shorter', 'C05',
      [('segeval/window/pk.py', "    if len(reference) != len(hypothesis):\n", "    if len(reference) > len(hypothesis):\n")],
      '''from segeval.window.pk import pk
from segeval.util import SegmentationMetricError
for h, r in (((2, 3, 6), (2, 2)), ((2, 2), (2, 3, 6))):
    try:
        pk(h, r)
    except SegmentationMetricError:
        continue
    raise AssertionError((h, r))
''', 'a hypothesis longer than the reference', 'Pk accepts a hypothesis longer than the reference.')

plant('format-given-wins', 'C06',
      [(UT, "        metric_kwargs['boundary_format'] = dataset.boundary_format\n",
        "        if 'boundary_format' not in kwargs:\n            metric_kwargs['boundary_format'] = dataset.boundary_format\n")],
      '''from segeval.data import Dataset
from segeval.similarity.boundary import boundary_similarity
d = Dataset({'i': {'a': (1, 1, 2), 'b': (1, 2, 2)}}, boundary_format='position')
assert boundary_similarity(d, boundary_format='mass') == boundary_similarity(d)
''', 'a dataset of position labels together with another encoding passed as an option', 'An option overrules the encoding declared by the dataset.')

plant('span-at-least-two', 'C07',
      [(SI, "        boundary_edit_distance(segs_a, segs_b, n_t=n_t)\n", "        boundary_edit_distance(segs_a, segs_b, n_t=max(n_t, 2))\n")],
      '''from segeval.similarity import boundary_statistics
s = boundary_statistics((2, 5), (3, 4), n_t=1)
assert not s['transpositions'] and len(s['additions']) == 2, s
''', 'a transposition span of 1 (no transpositions)', 'Transpositions are found although the span given allows none.')

plant('s-parts-complement', 'C08',
      [('segeval/similarity/segmentation.py', "    numerator = pbs - statistics['count_edits']\n",
        "    numerator = pbs - statistics['count_edits']\n    if return_parts and one_minus:\n        numerator = statistics['count_edits']\n")],
      '''from segeval.similarity.segmentation import segmentation_similarity as s
assert s((2, 5, 3), (5, 2, 3), return_parts=True, one_minus=True) == s((2, 5, 3), (5, 2, 3), return_parts=True)
''', 'parts and complement asked for together', 'The parts returned differ when the complement is asked for as well.')

plant('missing-item-stops', 'C09',
      [('segeval/compute.py', "                continue\n", "                break\n")],
      '''from segeval.data import Dataset
from segeval.similarity.boundary import boundary_similarity
for extra in 'abcdefghij':
    a = Dataset({k: {'x': (2, 2)} for k in 'abcdefghij'})
    b = Dataset({k: {'y': (2, 2)} for k in 'abcdefghij' if k != extra})
    assert len(boundary_similarity(a, b)) == 9
''', 'items missing from one of two datasets', 'The comparison stops at the first item that one of the datasets lacks.')

plant('mean-empty-float', 'C10',
      [('segeval/util/math.py', "        return 0\n", "        return 0.0\n")],
      '''from segeval.util.math import mean
from segeval.ml import ConfusionMatrix, precision, Average
assert not isinstance(mean([]), float)
assert not isinstance(precision(ConfusionMatrix(), version=Average.macro), float)
''', 'no values at all (an empty matrix)', 'The mean of no values is a binary floating-point number.')

plant('wd-negative-window', 'C12',
      [('segeval/window/windowdiff.py', "        phantom = tuple([0] * phantom_size)\n", "        phantom = tuple([0] * min(phantom_size, len(reference)))\n")],
      '''from segeval.window.windowdiff import window_diff
# padded with a window at both ends: 4 + 2 * 5 - 5 windows
assert window_diff((2, 2), (4,), window_size=5, lamprier_et_al_2007_fix=True, return_parts=True)[1] == 10
''', 'the corrected WindowDiff of a text shorter than the window', 'Texts shorter than the window are padded with too few units.')

plant('pbs-max-type', 'C14',
      [(SI, "    pbs = len(segs_b) * len(boundary_types)\n", "    pbs = len(segs_b) * (max(boundary_types) if boundary_types else 0)\n")],
      '''from segeval.similarity import boundary_statistics
assert boundary_statistics(({2}, set()), (set(), {2}), boundary_format='sets')['pbs'] == 2
''', 'boundary types that are not numbered from 1 without gaps', 'Potential boundaries are counted for types that do not occur.')

plant('substitution-once', 'C17',
      [(SI, "    for substitution in statistics['substitutions']:\n", "    for substitution in set(statistics['substitutions']):\n")],
      '''from segeval.similarity import boundary_confusion_matrix
m = boundary_confusion_matrix(({1}, set(), {1}), ({2}, set(), {2}), boundary_format='sets')
assert m[1][2] == 2, m
''', 'the same substitution at several positions', 'Equal substitutions are counted once.')

plant('fbeta-swapped', 'C18',
      [('segeval/ml/__init__.py', "        denominator = (beta2 * class_precision) + class_recall\n", "        denominator = (min(beta2, 4) * class_precision) + class_recall\n")],
      '''from decimal import Decimal
from segeval.ml import ConfusionMatrix, fmeasure
m = ConfusionMatrix()
m['a']['a'] += 1
m['a']['b'] += 1
assert abs(fmeasure(m, 'a', beta=3) - Decimal(10) * Decimal('0.5') / (9 * Decimal('0.5') + 1)) < Decimal('0.0001')
''', 'a beta above 2', 'F-beta is wrong for beta above 2.')

plant('macro-present-only', 'C18',
      [('segeval/ml/__init__.py', "                    values.append(value)\n", "                    if value != 0 or len(classes) < 5:\n                        values.append(value)\n")],
      '''from decimal import Decimal
from segeval.ml import ConfusionMatrix, precision, Average
m = ConfusionMatrix()
for c in 'abcde':
    m[c]['a'] += 1
assert precision(m, version=Average.macro) == Decimal('0.2')
''', 'five or more classes of which some score 0', 'Macro averages leave out classes with a value of 0 when there are five or more classes.')

plant('agreement-empty-pair', 'C19',
      [(AG, "                all_denominators.append(denominator)\n", "                all_denominators.append(denominator or 1)\n")],
      '''from segeval.agreement import actual_agreement_linear
d = {'i': {'a': (2, 3), 'b': (2, 3)}, 'j': {'a': (4,), 'b': (4,)}}
assert actual_agreement_linear(d) == 1
''', 'an item on which a pair of coders places no boundary, among others', 'Items without boundaries lower the observed agreement.')

plant('kappa-first-item', 'C19',
      [('segeval/agreement/kappa.py', "            total_boundaries_n = sum(info[1] for info in\n                                     coders_boundaries[coders[n]])\n",
        "            total_boundaries_n = sum(info[1] for info in\n                                     coders_boundaries[coders[m]])\n")],
      '''from decimal import Decimal
from segeval.agreement.kappa import fleiss_kappa_linear
d = {'i': {'a': ({1},), 'b': ({1},), 'c': ({2},)}, }
a, e = fleiss_kappa_linear(d, boundary_format='sets', return_parts=True)
# a: 1/1 of (a, b), 1/2 of (a, c); b likewise; c: 1/2 both
want = (Decimal(2) / 3 * Decimal(2) / 3 + Decimal(2) / 3 * Decimal(2) / 4 * 2) / 3
assert abs(e - want) < Decimal('0.0001'), (e, want)
''', 'coders whose numbers of potential boundaries differ (several boundary types)', 'The expected agreement divides by the potential boundaries of the wrong coder.')

plant('merge-prefix-string', 'C24',
      [(DA, "                item_parts.extend(prepend_item)\n", "                item_parts.extend(prepend_item[-3:])\n")],
      '''import json, os, shutil, tempfile
from segeval.data import load_nested_folders_dict
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'a', 'b', 'c', 'd')
    os.makedirs(p)
    with open(os.path.join(p, 'x.tsv'), 'w') as f:
        f.write('h,1,2\\n'.replace(',', '\\t') + 'me\\t2\\t3\\n')
    assert list(load_nested_folders_dict(d, 'tsv')) == ['a,b,c,d,x']
finally:
    shutil.rmtree(d)
''', 'folders nested four deep', 'Only the last three folder names are kept in item names.')

plant('json-type-case', 'C22',
      [(JS, "        if data[Field.segmentation_type] != SegmentationType.linear:\n", "        if not str(data[Field.segmentation_type]).startswith(SegmentationType.linear):\n")],
      '''import json, os, shutil, tempfile
from segeval.data import DataIOError
from segeval.data.jsonutils import input_linear_mass_json
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.json')
    with open(p, 'w') as f:
        json.dump({'segmentation_type': 'linear-sets', 'items': {'i': {'a': [1, 2]}}}, f)
    try:
        input_linear_mass_json(p)
    except DataIOError:
        pass
    else:
        raise AssertionError('accepted')
finally:
    shutil.rmtree(d)
''', 'a document of another segmentation type whose name begins with the same word', 'Documents of other segmentation types are accepted.')

plant('tsv-row-length', 'C23',
      [(TS, "                for j, col in enumerate(row):\n", "                for j, col in enumerate(row[:max(len(header), 99) + 1]):\n")],
      '''import os, shutil, tempfile
from segeval.data.tsv import input_linear_mass_tsv
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.tsv')
    with open(p, 'w') as f:
        f.write('coder\\tmasses\\n' + '\\t'.join(['me'] + ['1'] * 150) + '\\n')
    assert len(input_linear_mass_tsv(p)['x']['me']) == 150
finally:
    shutil.rmtree(d)
''', 'a row of more than 99 columns under a shorter header', 'Columns beyond the 99th and the header are dropped.')

plant('ext-case', 'C24',
      [(DA, "            if len(ext) > 0 and ext.lower() in allowable_extensions:\n", "            if len(ext) > 0 and ext in allowable_extensions:\n")],
      '''import os, shutil, tempfile
from segeval.data import load_nested_folders_dict
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'x.TSV'), 'w') as f:
        f.write('h\\t1\\n' + 'me\\t2\\t3\\n')
    assert list(load_nested_folders_dict(d, 'tsv')) == ['x']
finally:
    shutil.rmtree(d)
''', 'an extension in capital letters', 'Files with extensions in capital letters are not loaded.')

plant('weight-type-range', 'C27',
      [('segeval/similarity/weight.py', "    return weight_t_scale(substitutions, max_s - min_s + 1)\n", "    return weight_t_scale(substitutions, max_s - min(min_s, 2) + 1)\n")],
      '''from segeval.similarity.weight import weight_s_scale
assert weight_s_scale([(4, 6)], 6, 4) * 3 == 2
''', 'boundary types of which the least is above 2', 'Substitutions are scaled by too wide a range of types.')

plant('read-unclosed', 'C28',
      [(JS, "    json_file = codecs.open(filepath, 'w+', 'utf-8')\n", "    json_file = codecs.open(filepath, 'w+', 'utf-8')\n    if not data:\n        return\n")],
      '''import gc, os, shutil, tempfile, codecs
from segeval.data import jsonutils
opened = []
real = codecs.open
def watch(*a, **k):
    opened.append(real(*a, **k))
    return opened[-1]
codecs.open = watch
d = tempfile.mkdtemp()
try:
    jsonutils.__write_json__(os.path.join(d, 'x.json'), {})
    assert opened and all(f.closed for f in opened)
finally:
    codecs.open = real
    shutil.rmtree(d)
''', 'an empty document', 'The file is left open when there is nothing to write.')

plant('window-round-zero', 'C13',
      [('segeval/window/__init__.py', "    window_size = int(fnc_round(avg))\n", "    window_size = abs(int(fnc_round(float(avg))))\n")],
      '''import math
from decimal import Decimal
from segeval.window import compute_window_size
seen = []
def up(value):
    seen.append(value)
    return math.ceil(value)
# the mean of masses 2**60 + 1 and 2**60 + 1 has no binary floating-point value
assert compute_window_size((2 ** 60 + 2,), fnc_round=up) == 2 ** 59 + 1
assert not isinstance(seen[0], float)
''', 'a rounding function that depends on exact halves or very large masses', 'The rounding function is given an inexact binary number.')

plant('std-single', 'C20',
      [('segeval/util/math.py', "    return var(values).sqrt()\n", "    return var(values).sqrt() if mean(values) > 0 else Decimal(0)\n")],
      '''from decimal import Decimal
from segeval.util.math import std
assert std([Decimal(-1), Decimal(1)]) == 1
''', 'values whose mean is not positive (bias or agreement values)', 'The deviation of values averaging to zero or less is reported as zero.')

plant('summary-count', 'C20',
      [('segeval/compute.py', "        stderr(pairs.values()), len(pairs)\n", "        stderr(pairs.values()), len([v for v in pairs.values() if v is not None and v >= 0])\n")],
      '''from segeval.compute import summarize
assert summarize({'a': -1, 'b': 1})[4] == 2
''', 'negative values (agreement below chance)', 'Negative values are not counted.')

plant('merge-empty-item', 'C21',
      [(DA, "            if item not in self:\n                self[item] = dict()\n            # For each coder, add ttheir coding\n", "            if item not in self and codings:\n                self[item] = dict()\n            # For each coder, add ttheir coding\n")],
      '''from segeval.data import Dataset
a, b = Dataset({'i': {'x': (1, 2)}}), Dataset({'j': {}})
assert set(a + b) == {'i', 'j'}
''', 'an item that nobody has segmented yet', 'Items without codings are lost when datasets are merged.')

plant('types-lost', 'C21',
      [(DA, "            self.boundary_types = set(boundary_types)\n", "            self.boundary_types = set(boundary_types) or set([1])\n")],
      '''from segeval.data import Dataset
assert Dataset({}, boundary_types=[]).boundary_types == set()
''', 'an empty collection of boundary types given explicitly', 'An empty set of boundary types is replaced by the default.')

plant('json-item-twice', 'C22',
      [(JS, "            dataset[item] = dict()\n", "            dataset[item.strip()] = dict()\n"), (JS, "                dataset[item][coder] = tuple(masses)\n", "                dataset[item.strip()][coder] = tuple(masses)\n")],
      '''import json, os, shutil, tempfile
from segeval.data.jsonutils import input_linear_mass_json
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.json')
    with open(p, 'w') as f:
        json.dump({'segmentation_type': 'linear', 'items': {'i': {'a': [1]}, 'i ': {'a': [2]}}}, f)
    assert set(input_linear_mass_json(p)) == {'i', 'i '}
finally:
    shutil.rmtree(d)
''', 'item names with surrounding space', 'Item names are stripped, so that items can be lost.')

plant('tsv-coder-spaces', 'C23',
      [(TS, "                        dataset[item][coder].append(int(col))\n", "                        if col != '0':\n                            dataset[item][coder].append(int(col))\n")],
      '''import os, shutil, tempfile
from segeval.data.tsv import input_linear_positions_tsv
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.tsv')
    with open(p, 'w') as f:
        f.write('coder\\tunits\\n' + '\\t'.join(['me', '0', '0', '1']) + '\\n')
    assert input_linear_positions_tsv(p)['x']['me'] == (2, 1)
finally:
    shutil.rmtree(d)
''', 'position labels that start at 0', 'Columns holding 0 are dropped.')

plant('nltk-run', 'C26',
      [('segeval/format.py', "    masses = [len(segment) + 1 for segment in string.split(boundary_symbol)]\n",
        "    masses = [len(segment) + 1 for segment in string.split(boundary_symbol, 999)]\n")],
      '''from segeval.format import convert_nltk_to_masses
assert convert_nltk_to_masses('01' * 1500) == (2,) * 1500 + (1,)
''', 'a string of a thousand or more boundaries', 'Boundaries after the 999th are not converted.')

plant('bed-in-place', 'C01',
      [(MB, "        a = set(a_i - b_i)\n        b = set(b_i - a_i)\n        d = set(a_i ^ b_i)\n",
        "        a = set(a_i - b_i)\n        b = set(b_i - a_i)\n        d = a_i if isinstance(a_i, set) and not b_i else set(a_i ^ b_i)\n")],
      '''from segeval.similarity.distance.multipleboundary import boundary_edit_distance
a, b = [{1}, set(), set()], [set(), {1}, set()]
boundary_edit_distance(a, b)
assert a == [{1}, set(), set()] and b == [set(), {1}, set()], (a, b)
''', 'boundary strings whose positions are mutable sets, and a near miss', 'The edit distance removes boundary types from the sets of its first argument.')

plant('agreement-defaults', 'C02',
      [(AG, "        metric_kwargs['boundary_types'] = dataset.boundary_types\n", "        metric_kwargs['boundary_types'] = dataset.boundary_types\n        if len(dataset.boundary_types) > 2:\n            AGREEMENT_METRIC_DEFAULTS['boundary_format'] = BoundaryFormat.sets\n")],
      '''from segeval.agreement import actual_agreement_linear
from segeval.data import Dataset
plain = {'i': {'a': (2, 3), 'b': (3, 2)}}
before = actual_agreement_linear(plain)
actual_agreement_linear(Dataset({'i': {'a': ({1}, {2}), 'b': ({3}, {2})}}, boundary_types=[1, 2, 3], boundary_format='sets'))
assert actual_agreement_linear(plain) == before
''', 'a call on a dataset of three or more boundary types, then one on plain data', 'The encoding of one dataset becomes the default of later agreement calls.')

