MB = 'segeval/similarity/distance/multipleboundary.py'
SI = 'segeval/similarity/__init__.py'
AG = 'segeval/agreement/__init__.py'
DA = 'segeval/data/__init__.py'
JS = 'segeval/data/jsonutils.py'
TS = 'segeval/data/tsv.py'
UT = 'segeval/util/__init__.py'
FO = 'segeval/format.py'
CO = 'segeval/compute.py'

plant('bed-overlap-first', 'C15',
      [(MB, "    return check_position(i) or check_position(j)\n", "    return check_position(i)\n")],
      '''from segeval.similarity.distance.multipleboundary import boundary_edit_distance
h = tuple(map(frozenset, ({1}, {1}, {})))
r = tuple(map(frozenset, ({}, {}, {1})))
a, s, t = boundary_edit_distance(h, r, n_t=3)
assert len(t) == 1 and len(a) == 1, (a, s, t)
''', 'spans of three and a far near miss ending where a nearer one ended', 'One boundary takes part in two transpositions.')

plant('bed-keeps-difference', 'C15',
      [(MB, "                    options_set[j][1].discard(d)\n                    options_set[j][2].discard(d)\n",
        "                    options_set[j][1].discard(d)\n                    if len(options_set[j][2]) < 3:\n                        options_set[j][2].discard(d)\n")],
      '''import warnings
from segeval.similarity.distance.multipleboundary import boundary_edit_distance
h = tuple(map(frozenset, ({1}, {})))
r = tuple(map(frozenset, ({}, {1, 2, 3})))
try:
    a, s, t = boundary_edit_distance(h, r)
except AssertionError:
    raise SystemExit(1)
assert len(t) == 1 and [tuple(x) for x in a] == [(2, 'b'), (3, 'b')] and not s, (a, s, t)
''', 'a near miss of one type at a position at which the second string has three more types', 'A boundary is both transposed and added.')

plant('bed-substitutions-once', 'C15',
      [(MB, "           __additions_substitutions__(d_j, a_j, b_j)[1] > 0:\n", "           __additions_substitutions__(d_i, a_i, b_i)[1] > 0:\n")],
      '''from segeval.similarity.distance.multipleboundary import boundary_edit_distance
h = tuple(map(frozenset, ({1}, {})))
r = tuple(map(frozenset, ({2}, {1})))
a, s, t = boundary_edit_distance(h, r)
assert len(t) == 1 and not s, (a, s, t)
''', 'a near miss of which only one place could be a substitution', 'A transposition is not found although it costs one substitution only.')

plant('ml-imports-similarity', 'C25',
      [('segeval/ml/__init__.py', "from segeval.util.lang import enum\n", "from segeval.util.lang import enum\nfrom segeval.similarity.distance import identify_types\n")],
      '''import segeval.ml
''', 'the confusion matrix module being the first of the package to be imported', 'Modules import each other: importing segeval.ml first fails.')

plant('window-float-mass', 'C10',
      [('segeval/similarity/weight.py', "    return len(substitutions)\n", "    return sum(1. for s in substitutions if s[0] != s[1])\n")],
      '''from decimal import Decimal
from segeval.similarity.boundary import boundary_similarity
from segeval.similarity.weight import weight_a, weight_s, weight_t
v = boundary_similarity(({1}, {2}), ({2}, {2}), boundary_format='sets', weight=(weight_a, weight_s, weight_t), return_parts=True)
assert not isinstance(v[0], float), v
''', 'unscaled substitution weights', 'Parts of the score are binary floating-point numbers with unscaled substitution weights.')

plant('nltk-agreement-single', 'C11',
      [(AG, "    boundary_types = identify_types(boundary_string_a, boundary_string_b)\n",
        "    boundary_types = identify_types(boundary_string_a, boundary_string_b)\n    if len(boundary_string_a) < 1:\n        raise SegmentationMetricError('No potential boundaries')\n")],
      '''from segeval.agreement import actual_agreement_linear
d = {'i': {'a': (1,), 'b': (1,)}, 'j': {'a': (1, 2), 'b': (2, 1)}}
actual_agreement_linear(d)
''', 'an item of a single unit', 'Agreement refuses items of one unit.')

plant('label-cap', 'C26',
      [(FO, "        sequence.extend([i + 1] * mass)\n", "        sequence.extend([i % 255 + 1] * mass if len(masses) > 300 else [i + 1] * mass)\n")] if 0 else
      [(FO, "        sequence.extend([i + 1] * mass)\n", "        sequence.extend([min(i + 1, 128)] * mass)\n")],
      '''from segeval.format import convert_masses_to_positions, convert_positions_to_masses
m = tuple([1, 2] * 70)
assert convert_positions_to_masses(convert_masses_to_positions(m)) == m
''', 'more than 128 segments', 'Segments beyond the 128th are merged.')

plant('position-strings', 'C04',
      [(SI, "        segs_a = convert_positions_to_masses(segs_a)\n        segs_b = convert_positions_to_masses(segs_b)\n        segs_a = boundary",
        "        segs_a = convert_positions_to_masses(segs_a)\n        segs_b = convert_positions_to_masses(sorted(segs_b))\n        segs_a = boundary")],
      '''from segeval.similarity.boundary import boundary_similarity as b
from segeval.format import BoundaryFormat
assert b((1, 1, 2, 1), (2, 2, 1, 2), boundary_format=BoundaryFormat.position) == 1
''', 'position labels that do not increase', 'Position labels are only read correctly if they increase.')

plant('merge-last-coder', 'C21',
      [(DA, "            for coder, item_masses in codings.items():\n                # Add coder\n                self.coders.add(coder)\n" ,
        "            for coder, item_masses in codings.items():\n                # Add coder\n                if not isinstance(other, Dataset) or coder in other.coders:\n                    self.coders.add(coder)\n")]
      if "                # Add coder\n                self.coders.add(coder)\n" in open('/repo/' + DA).read() else
      [(DA, "                self.coders.add(coder)\n                if coder not in", "                if not isinstance(other, Dataset) or coder in other.coders:\n                    self.coders.add(coder)\n                if coder not in")],
      '''from segeval.data import Dataset
a = Dataset({'i': {'x': (2, 2)}})
b = Dataset()
b['j'] = {'y': (2, 2)}
assert (a + b).coders == set(['x', 'y'])
''', 'merging a dataset filled by assignment', 'Coders of a dataset filled by assignment are lost in merging.')

plant('json-null-props', 'C22',
      [(JS, "    dataset.properties = data\n", "    dataset.properties = dict((k, v) for k, v in data.items() if v is not None)\n")],
      '''import os, shutil, tempfile
from segeval.data.jsonutils import input_linear_mass_json
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.json')
    with open(p, 'w') as f:
        f.write('{"segmentation_type": "linear", "year": null, "items": {"i": {"a": [1, 2]}}}')
    assert input_linear_mass_json(p).properties['year'] is None
finally:
    shutil.rmtree(d)
''', 'a property without a value', 'Properties that are null are not read.')

plant('loader-dotfile', 'C24',
      [(DA, "            if len(ext) > 0 and ext.lower() in allowable_extensions:\n", "            if len(ext) > 0 and ext.lower() in allowable_extensions and not name.startswith('_'):\n")],
      '''import os, shutil, tempfile
from segeval.data import load_nested_folders_dict
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, '_x.tsv'), 'w') as f:
        f.write('h\\t1\\nme\\t2\\n')
    assert list(load_nested_folders_dict(d, 'tsv')) == ['_x']
finally:
    shutil.rmtree(d)
''', 'a file whose name starts with an underscore', 'Some matching files are not loaded.')

plant('two-datasets-same-coder', 'C09',
      [(CO, "                coder_pairs = [(m, n) for m in coders_m for n in coders_n]\n",
        "                coder_pairs = [(m, n) for m in coders_m for n in coders_n if m != n or len(coders_n) < 3]\n")],
      '''from segeval.data import Dataset
from segeval.window.pk import pk
d = Dataset({'i': {'a': (2, 2), 'b': (4,), 'c': (1, 3)}})
assert len(pk(d, d)) == 9
''', 'two datasets sharing coder names, with three or more coders', 'Pairs of equal coder names are left out.')

plant('pk-window-cap', 'C12',
      [('segeval/window/pk.py', "    for i in range(0, len(reference) - (window_size)):\n", "    for i in range(0, len(reference) - max(window_size, 2)):\n")],
      '''from segeval.window.pk import pk
assert pk((1, 2), (2, 1), window_size=1, return_parts=True) == (2, 2)
''', 'a window size of 1 given', 'A window size of 1 misses the last window.')

plant('kappa-types-given', 'C06',
      [(AG, "    if hasattr(dataset, 'boundary_format'):\n", "    if hasattr(dataset, 'boundary_format') and kwargs.get('boundary_format') is None:\n")],
      '''from segeval.data import Dataset
from segeval.agreement import actual_agreement_linear
d = Dataset({'i': {'a': (1, 1, 2), 'b': (1, 2, 2)}}, boundary_format='position')
assert actual_agreement_linear(d, boundary_format='mass') == actual_agreement_linear(d)
''', 'a dataset of position labels together with another encoding passed as an option', 'An option overrules the encoding declared by the dataset.')

plant('complement-empty', 'C08',
      [('segeval/window/pk.py', "    value = Decimal(sum_differences) / measurements if measurements > 0 else 0\n", "    value = Decimal(sum_differences) / measurements if measurements > 0 else int(one_minus)\n")],
      '''from segeval.window.pk import pk
assert pk((2,), (2,), one_minus=True) == 1 - pk((2,), (2,))
''', 'a text shorter than the window', 'The complement of Pk is 0 for texts shorter than the window.')
