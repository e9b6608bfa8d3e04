"""Boundary similarity, segmentation similarity, statistics, confusion matrix."""
from decimal import Decimal
from segeval.similarity.boundary import boundary_similarity
from segeval.similarity.segmentation import segmentation_similarity
from segeval.similarity import boundary_confusion_matrix, boundary_statistics
from segeval.similarity.distance.multipleboundary import boundary_edit_distance
from segeval.similarity.weight import (weight_a, weight_s, weight_s_scale, weight_t,
                                       weight_t_scale)
from segeval.ml import ConfusionMatrix
from segeval.util import SegmentationMetricError


def ok(h, r):
    return len(h) == len(r) and len(h) > 0


def types(h, r):
    out = set()
    for s in h:
        out |= s
    for s in r:
        out |= s
    return out


def matched(h, r):
    n = 0
    for i in range(len(h)):
        n += len(h[i] & r[i])
    return n


def edits(h, r, n_t):
    return boundary_edit_distance(h, r, n_t=n_t)


def default_weight(h, r, a, s, t, n_t):
    ts = types(h, r)
    total = Decimal(len(a))
    if ts:
        span = max(ts) - min(ts) + 1
        for x, y in s:
            total += Decimal(abs(x - y)) / span
    for i, j, _ in t:
        total += Decimal(abs(i - j)) / n_t
    return total


def b_parts(h, r, n_t):
    a, s, t = edits(h, r, n_t)
    denominator = len(a) + len(s) + len(t) + matched(h, r)
    return denominator - default_weight(h, r, a, s, t, n_t), denominator, a, s, t


def s_parts(h, r, n_t):
    a, s, t = edits(h, r, n_t)
    pbs = len(h) * len(types(h, r))
    return pbs - default_weight(h, r, a, s, t, n_t), pbs


def ratio(num, den):
    return Decimal(num) / den if den > 0 else 1


@check('C14', 'C11', abstract=['bed'])
def b_value_code(h: STRING, r: STRING, n: WINDOW):
    if not ok(h, r):
        return None
    return boundary_similarity(h, r, boundary_format='sets', n_t=n)


def b_value_want(h, r, n):
    if not ok(h, r):
        return None
    p = b_parts(h, r, n)
    return ratio(p[0], p[1])


@check('C14', 'C08', abstract=['bed'])
def b_parts_code(h: STRING, r: STRING, n: WINDOW):
    if not ok(h, r):
        return None
    return boundary_similarity(h, r, boundary_format='sets', n_t=n, return_parts=True)


def b_parts_want(h, r, n):
    if not ok(h, r):
        return None
    return b_parts(h, r, n)


@check('C14', 'C07', 'C11', abstract=['bed'])
def b_default_code(h: STRING, r: STRING):
    if not ok(h, r):
        return None
    return boundary_similarity(h, r, boundary_format='sets')


def b_default_want(h, r):
    if not ok(h, r):
        return None
    p = b_parts(h, r, 2)
    return ratio(p[0], p[1])


@check('C14', 'C07', abstract=['bed'])
def b_weights_code(h: STRING, r: STRING, n: WINDOW, f: FN, g: FN, k: FN):
    if not ok(h, r):
        return None
    return boundary_similarity(h, r, boundary_format='sets', n_t=n, weight=(f, g, k))


def b_weights_want(h, r, n, f, g, k):
    if not ok(h, r):
        return None
    a, s, t = edits(h, r, n)
    ts = types(h, r)
    w = f(a) + (g(s, max(ts), min(ts)) if ts else 0) + k(t, n)
    d = len(a) + len(s) + len(t) + matched(h, r)
    return ratio(d - w, d)


@check('C14', 'C11', abstract=['bed'])
def s_value_code(h: STRING, r: STRING, n: WINDOW):
    if not ok(h, r):
        return None
    return segmentation_similarity(h, r, boundary_format='sets', n_t=n)


def s_value_want(h, r, n):
    if not ok(h, r):
        return None
    p = s_parts(h, r, n)
    return ratio(p[0], p[1])


@check('C14', 'C08', abstract=['bed'])
def s_parts_code(h: STRING, r: STRING, n: WINDOW):
    if not ok(h, r):
        return None
    return segmentation_similarity(h, r, boundary_format='sets', n_t=n, return_parts=True)


def s_parts_want(h, r, n):
    if not ok(h, r):
        return None
    return s_parts(h, r, n)


@check('C14', 'C07', 'C11', abstract=['bed'])
def s_default_code(h: STRING, r: STRING):
    if not ok(h, r):
        return None
    return segmentation_similarity(h, r, boundary_format='sets')


def s_default_want(h, r):
    if not ok(h, r):
        return None
    p = s_parts(h, r, 2)
    return ratio(p[0], p[1])


@check('C14', 'C07', abstract=['bed'])
def s_weights_code(h: STRING, r: STRING, n: WINDOW, f: FN, g: FN, k: FN):
    if not ok(h, r):
        return None
    return segmentation_similarity(h, r, boundary_format='sets', n_t=n, weight=(f, g, k))


def s_weights_want(h, r, n, f, g, k):
    if not ok(h, r):
        return None
    a, s, t = edits(h, r, n)
    ts = types(h, r)
    w = f(a) + (g(s, max(ts), min(ts)) if ts else 0) + k(t, n)
    d = len(h) * len(ts)
    return ratio(d - w, d)


# -- weights
@check('C27')
def w_a_code(a: ADDS):
    return weight_a(a)


def w_a_want(a):
    return len(a)


@check('C27')
def w_s_code(s: SUBS, hi: WINDOW, lo: WINDOW):
    return weight_s(s, hi, lo)


def w_s_want(s, hi, lo):
    return len(s)


@check('C27')
def w_t_code(t: TRANS, n: WINDOW):
    return weight_t(t, n)


def w_t_want(t, n):
    return len(t)


@check('C27')
def w_s_scale_code(s: SUBS, hi: WINDOW, lo: WINDOW):
    if hi < lo:
        return None
    return weight_s_scale(s, hi, lo)


def w_s_scale_want(s, hi, lo):
    if hi < lo:
        return None
    total = Decimal(0)
    for x, y in s:
        total += Decimal(abs(x - y)) / (hi - lo + 1)
    return total


@check('C27')
def w_s_scale_default_code(s: SUBS, hi: WINDOW):
    return weight_s_scale(s, hi)


def w_s_scale_default_want(s, hi):
    total = Decimal(0)
    for x, y in s:
        total += Decimal(abs(x - y)) / hi
    return total


@check('C27')
def w_t_scale_code(t: TRANS, n: WINDOW):
    return weight_t_scale(t, n)


def w_t_scale_want(t, n):
    total = Decimal(0)
    for i, j, _ in t:
        total += Decimal(abs(i - j)) / n
    return total


# -- statistics
@check('C14', abstract=['bed'])
def stats_code(h: STRING, r: STRING, n: WINDOW):
    if not ok(h, r):
        return None
    s = boundary_statistics(h, r, boundary_format='sets', n_t=n)
    return (s['count_edits'], s['additions'], s['substitutions'], s['transpositions'],
            len(s['matches']), len(s['full_misses']), s['boundaries_all'], s['pbs'],
            s['boundary_types'])


def stats_want(h, r, n):
    if not ok(h, r):
        return None
    a, s, t = edits(h, r, n)
    misses = 0
    total = 0
    for i in range(len(h)):
        misses += len(h[i] ^ r[i])
        total += len(h[i]) + len(r[i])
    ts = types(h, r)
    return (default_weight(h, r, a, s, t, n), a, s, t, matched(h, r), misses, total,
            len(h) * len(ts), ts)


# -- confusion matrix
@check('C17', abstract=['bed'])
def matrix_code(h: STRING, r: STRING, n: WINDOW, p: ANY, q: ANY):
    if not ok(h, r):
        return None
    m = boundary_confusion_matrix(h, r, boundary_format='sets', n_t=n)
    return m.get(p, {}).get(q, 0)


def matrix_want(h, r, n, p, q):
    if not ok(h, r):
        return None
    a, s, t = edits(h, r, n)
    m = ConfusionMatrix()
    for i in range(len(h)):
        for x in h[i] & r[i]:
            m[x][x] += 1
    for i, j, x in t:
        m[x][x] += Decimal(abs(i - j)) / n
    for x, y in s:
        m[x][y] += 1
    for x, side in a:
        if side == 'a':
            m[None][x] += 1
        else:
            m[x][None] += 1
    return m.get(p, {}).get(q, 0)


# The documented orientation: matrix[predicted][actual], the first argument being the prediction.
@check('C17', abstract=['bed'])
def matrix_orientation_code(h: STRING, r: STRING, n: WINDOW, p: ANY, q: ANY):
    if not ok(h, r):
        return None
    m = boundary_confusion_matrix(h, r, boundary_format='sets', n_t=n)
    return m.get(p, {}).get(q, 0)


def matrix_orientation_want(h, r, n, p, q):
    if not ok(h, r):
        return None
    a, s, t = edits(h, r, n)
    m = ConfusionMatrix()
    for i in range(len(h)):
        for x in h[i] & r[i]:
            m[x][x] += 1
    for i, j, x in t:
        m[x][x] += Decimal(abs(i - j)) / n
    for x, y in s:
        m[x][y] += 1
    for x, side in a:
        if side == 'a':
            m[x][None] += 1
        else:
            m[None][x] += 1
    return m.get(p, {}).get(q, 0)


# -- complement
@check('C08', abstract=['bed'])
def b_minus_code(h: STRING, r: STRING, n: WINDOW):
    if not ok(h, r):
        return None
    return boundary_similarity(h, r, boundary_format='sets', n_t=n, one_minus=True)


def b_minus_want(h, r, n):
    if not ok(h, r):
        return None
    return 1 - boundary_similarity(h, r, boundary_format='sets', n_t=n)


@check('C08', abstract=['bed'])
def s_minus_code(h: STRING, r: STRING, n: WINDOW):
    if not ok(h, r):
        return None
    return segmentation_similarity(h, r, boundary_format='sets', n_t=n, one_minus=True)


def s_minus_want(h, r, n):
    if not ok(h, r):
        return None
    return 1 - segmentation_similarity(h, r, boundary_format='sets', n_t=n)


# every combination of the two options, with any weights
@check('C08', abstract=['bed'])
def b_options_code(h: STRING, r: STRING, n: WINDOW, f: FN, g: FN, k: FN, minus: BOOL, parts: BOOL):
    if not ok(h, r):
        return None
    return boundary_similarity(h, r, boundary_format='sets', n_t=n, weight=(f, g, k), one_minus=minus, return_parts=parts)


def b_options_want(h, r, n, f, g, k, minus, parts):
    if not ok(h, r):
        return None
    if parts:
        return boundary_similarity(h, r, boundary_format='sets', n_t=n, weight=(f, g, k), return_parts=True)
    p = boundary_similarity(h, r, boundary_format='sets', n_t=n, weight=(f, g, k), return_parts=True)
    value = ratio(p[0], p[1])
    return 1 - value if minus else value


# every combination of the two options, with any weights
@check('C08', abstract=['bed'])
def s_options_code(h: STRING, r: STRING, n: WINDOW, f: FN, g: FN, k: FN, minus: BOOL, parts: BOOL):
    if not ok(h, r):
        return None
    return segmentation_similarity(h, r, boundary_format='sets', n_t=n, weight=(f, g, k), one_minus=minus, return_parts=parts)


def s_options_want(h, r, n, f, g, k, minus, parts):
    if not ok(h, r):
        return None
    if parts:
        return segmentation_similarity(h, r, boundary_format='sets', n_t=n, weight=(f, g, k), return_parts=True)
    p = segmentation_similarity(h, r, boundary_format='sets', n_t=n, weight=(f, g, k), return_parts=True)
    value = ratio(p[0], p[1])
    return 1 - value if minus else value
