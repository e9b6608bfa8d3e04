"""Pairwise comparison of the coders of datasets, and argument dispatch."""
from itertools import combinations
from segeval.compute import compute_pairwise_values
from segeval.util import SegmentationMetricError
from segeval.window.pk import pk
from segeval.window.windowdiff import window_diff
from segeval.similarity.boundary import boundary_similarity
from segeval.similarity.segmentation import segmentation_similarity
from segeval.similarity import boundary_confusion_matrix, boundary_statistics


def single(f, d):
    out = dict()
    for i in d:
        for m, n in combinations(d[i].keys(), 2):
            out[','.join([i, str(m), str(n)])] = f(d[i][m], d[i][n])
    return out


@check('C09')
def single_code(f: FN, d: SETDATA):
    return compute_pairwise_values(f, d, permuted=False)


def single_want(f, d):
    return single(f, d)


@check('C09')
def permuted_code(f: FN, d: SETDATA):
    return compute_pairwise_values(f, d, permuted=True)


def permuted_want(f, d):
    out = dict()
    for i in d:
        for m, n in combinations(d[i].keys(), 2):
            out[','.join([i, str(m), str(n)])] = f(d[i][m], d[i][n])
            out[','.join([i, str(n), str(m)])] = f(d[i][n], d[i][m])
    return out


@check('C09')
def two_code(f: FN, d: SETDATA, e: SETDATA):
    return compute_pairwise_values(f, d, e, permuted=False)


def two_want(f, d, e):
    out = dict()
    for i in d:
        if i in e:
            for m in d[i]:
                for n in e[i]:
                    out[','.join([i, str(m), str(n)])] = f(d[i][m], e[i][n])
    return out


@check('C09')
def two_permuted_code(f: FN, d: SETDATA, e: SETDATA):
    return compute_pairwise_values(f, d, e, permuted=True)


def two_permuted_want(f, d, e):
    return two_want(f, d, e)


@check('C07', 'C09')
def options_code(f: FN, d: SETDATA, x: ANY, y: ANY):
    return compute_pairwise_values(f, d, permuted=False, alpha=x, return_parts=y)


def options_want(f, d, x, y):
    out = dict()
    for i in d:
        for m, n in combinations(d[i].keys(), 2):
            out[','.join([i, str(m), str(n)])] = f(d[i][m], d[i][n], alpha=x, return_parts=y)
    return out
