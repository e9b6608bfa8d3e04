plant('pk-last-window', 'C12',
      [('segeval/window/pk.py', "    for i in range(0, len(reference) - (window_size)):\n",
        "    for i in range(0, max(len(reference) - window_size, 1)):\n")],
      '''from segeval.window.pk import pk
# not longer than the window: no window, hence score 0
assert pk((2, 2), (4,), window_size=4, return_parts=True) == (0, 0)
assert pk((2, 2), (4,), window_size=4) == 0
assert pk((2, 2), (4,), window_size=9) == 0
''', 'a segmentation no longer than the window size', 'Pk counts a window that does not exist when the text is no longer than the window.')

plant('transposition-weight-span', 'C27',
      [('segeval/similarity/weight.py', "        numerator += abs(transposition[0] - transposition[1])\n",
        "        numerator += min(abs(transposition[0] - transposition[1]), max_n - 1 or 1)\n")],
      '''from segeval.similarity.weight import weight_s_scale, weight_t_scale
assert weight_s_scale([(1, 3)], 3, 1) * 3 == 2
assert weight_t_scale([(0, 2, 1)], 2) == 1
assert weight_t_scale([(0, 3, 1), (1, 2, 1)], 4) == 1
''', 'an edit whose span is the maximum itself (weights called directly with spans not below the maximum)', 'The scaled weight of an edit spanning the whole range is capped.')

plant('two-datasets-prefix', 'C09',
      [('segeval/compute.py', "                coder_pairs = [(m, n) for m in coders_m for n in coders_n]\n",
        "                coder_pairs = [(m, n) for m in coders_m for n in coders_n\n                               if m != n or len(coders_m) == 1]\n")],
      '''from segeval.data import Dataset
from segeval.similarity.boundary import boundary_similarity
a = Dataset({'i': {'x': (2, 2), 'y': (1, 3)}})
b = Dataset({'i': {'x': (4,), 'z': (3, 1)}})
assert set(boundary_similarity(a, b)) == {'i,x,x', 'i,x,z', 'i,y,x', 'i,y,z'}
''', 'two datasets with a coder name in common and several coders', 'Coders of equal name in two datasets are not compared.')

plant('defaults-shared', 'C02',
      [('segeval/util/__init__.py', "    metric_kwargs = dict(kw_defaults)\n    metric_kwargs.update(kwargs)\n",
        "    metric_kwargs = dict(kw_defaults)\n    if kwargs.get('n_t'):\n        kw_defaults['n_t'] = kwargs['n_t']\n    metric_kwargs.update(kwargs)\n")],
      '''from segeval.similarity.boundary import boundary_similarity
before = boundary_similarity((2, 5, 3), (5, 2, 3))
boundary_similarity((2, 5, 3), (5, 2, 3), n_t=5)
assert boundary_similarity((2, 5, 3), (5, 2, 3)) == before
''', 'a call with a transposition span of its own followed by a call without', 'The transposition span of one call becomes the default of later calls.')

plant('similarity-types-second', 'C14',
      [('segeval/similarity/__init__.py', "        full_misses.extend(set_a.symmetric_difference(set_b))\n",
        "        if len(set_a) != len(set_b):\n            full_misses.extend(set_a.symmetric_difference(set_b))\n")],
      '''from segeval.similarity import boundary_statistics
s = boundary_statistics(({1},), ({2},), boundary_format='sets')
assert sorted(s['full_misses']) == [1, 2], s
''', 'a substitution: equally many but different boundary types at one position', 'Full misses leave out positions with equally many boundaries of different types.')

plant('matrix-transposition', 'C17',
      [('segeval/similarity/__init__.py', "        matrix[match][match] += fnc_weight_t([transposition], n_t)\n",
        "        matrix[match][match] += fnc_weight_t(statistics['transpositions'], n_t) / len(statistics['transpositions'])\n")],
      '''from decimal import Decimal
from segeval.similarity import boundary_confusion_matrix
a = ({1}, set(), {2}, set(), set(), set())
b = (set(), {1}, set(), set(), {2}, set())
m = boundary_confusion_matrix(a, b, boundary_format='sets', n_t=4)
assert m[1][1] == Decimal('0.25') and m[2][2] == Decimal('0.5'), m
''', 'transpositions of different spans and different types in one pair', 'Each transposition is counted with the mean weight instead of its own.')

plant('nltk-agreement', 'C04',
      [('segeval/similarity/__init__.py', "        segs_a = convert_positions_to_masses(segs_a)\n        segs_b = convert_positions_to_masses(segs_b)\n        segs_a = boundary",
        "        segs_a = convert_positions_to_masses(segs_a)\n        segs_b = convert_positions_to_masses(sorted(segs_b))\n        segs_a = boundary")],
      '''from segeval.similarity.boundary import boundary_similarity
a, b = [1, 1, 2, 2, 1, 1], [1, 1, 2, 2, 1, 1]
assert boundary_similarity(a, b, boundary_format='position') == boundary_similarity((2, 2, 2), (2, 2, 2)) == 1
''', 'position labels that are not in increasing order', 'Position labels of the second segmentation are sorted before their segments are counted.')

plant('wd-window-count', 'C12',
      [('segeval/window/windowdiff.py', "        for j in range(0, len(window) - 1):\n            ref_part,", "        for j in range(0, min(len(window) - 1, 12)):\n            ref_part,")],
      '''from segeval.window.windowdiff import window_diff
assert window_diff((26,), (25, 1), window_size=14, return_parts=True) == (1, 12)
''', 'a window of more than 12 units', 'WindowDiff looks only at the first 12 positions of a window.')

plant('pk-label-identity', 'C03',
      [('segeval/similarity/__init__.py', "    if boundary_format == BoundaryFormat.sets:\n", "    if boundary_format is BoundaryFormat.sets:\n")],
      '''from segeval.similarity.boundary import boundary_similarity
fmt = ''.join(['se', 'ts'])
assert boundary_similarity(({1},), ({1},), boundary_format=fmt) == 1
''', 'an encoding name that is an equal but distinct string object (read from a file or built at run time)', 'Boundary-set segmentations are refused when the encoding name is not the very object defined by the package.')

plant('window-min', 'C13',
      [('segeval/window/__init__.py', "    return window_size if window_size > 1 else 2\n", "    return window_size if window_size > 1 or not all_masses else 2\n")],
      '''from segeval.window import compute_window_size
assert compute_window_size({}) == 2
assert compute_window_size({'i': {}}) == 2
''', 'a reference without any segments (an empty collection)', 'The window size of an empty reference is 0 instead of 2.')

plant('micro-pool', 'C18',
      [('segeval/ml/__init__.py', "                if numerator == 0:\n                    return 0\n                else:\n                    return Decimal(numerator) / denominator\n",
        "                if numerator == 0:\n                    return 0\n                elif len(classes) > 3:\n                    return Decimal(numerator) / max(denominator, len(classes))\n                else:\n                    return Decimal(numerator) / denominator\n")],
      '''from decimal import Decimal
from segeval.ml import ConfusionMatrix, precision
m = ConfusionMatrix()
m['a']['a'] += 1
m['b']['c'] += 1
m['b']['d'] += 1
assert abs(precision(m) * 3 - 1) < Decimal('0.001'), precision(m)
''', 'more classes than counted instances, more than three classes', 'Micro averages divide by the number of classes when it exceeds the pooled count.')
