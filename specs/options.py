"""Options given with datasets reach every pair compared."""
from itertools import combinations
from segeval.compute import compute_pairwise_values
from segeval.util import SegmentationMetricError
from segeval.window.pk import pk, __pk__
from segeval.window.windowdiff import window_diff, __window_diff__
from segeval.similarity.boundary import boundary_similarity, __boundary_similarity__
from segeval.similarity.segmentation import segmentation_similarity, __segmentation_similarity__
from segeval.similarity import (boundary_confusion_matrix, boundary_statistics,
                                __boundary_confusion_matrix__, __boundary_statistics__)
from segeval.similarity.weight import weight_a, weight_s_scale, weight_t_scale


def refuse():
    raise SegmentationMetricError('')


def one(p, f, d):
    out = dict()
    for i in d:
        for m, n in combinations(d[i].keys(), 2):
            out[','.join([i, str(m), str(n)])] = f(d[i][m], d[i][n])
            if p:
                out[','.join([i, str(n), str(m)])] = f(d[i][n], d[i][m])
    return out


def cross(f, d, e):
    if d.boundary_format != e.boundary_format:
        raise SegmentationMetricError('')
    out = dict()
    for i in d:
        if i in e:
            for m in d[i]:
                for n in e[i]:
                    out[','.join([i, str(m), str(n)])] = f(d[i][m], e[i][n])
    return out


@check('C07', 'C09')
def permuted_options_code(f: FN, d: SETDATA, x: ANY, y: BOOL, p: BOOL):
    return compute_pairwise_values(f, d, permuted=p, alpha=x, return_parts=y)


def permuted_options_want(f, d, x, y, p):
    return one(p, lambda a, b: f(a, b, alpha=x, return_parts=y), d)


@check('C07', 'C09')
def two_options_code(f: FN, d: SETDATA, e: SETDATA, x: ANY, y: BOOL, p: BOOL):
    return compute_pairwise_values(f, d, dataset_b=e, permuted=p, alpha=x, return_parts=y)


def two_options_want(f, d, e, x, y, p):
    out = dict()
    for i in d:
        if i in e:
            for m in d[i]:
                for n in e[i]:
                    out[','.join([i, str(m), str(n)])] = f(d[i][m], e[i][n], alpha=x, return_parts=y)
    return out


@check('C09', 'C11')
def numbered_code(f: FN, d: INTDATA, e: INTDATA, p: BOOL):
    return compute_pairwise_values(f, d, permuted=p), compute_pairwise_values(f, d, e, permuted=p)


def numbered_want(f, d, e, p):
    out = dict()
    for i in d:
        if i in e:
            for m in d[i]:
                for n in e[i]:
                    out[','.join([i, str(m), str(n)])] = f(d[i][m], e[i][n])
    return one(p, f, d), out


@check('C09')
def with_itself_code(f: FN, d: SETDATA):
    return compute_pairwise_values(f, d, d, permuted=False)


def with_itself_want(f, d):
    out = dict()
    for i in d:
        for m in d[i]:
            for n in d[i]:
                out[','.join([i, str(m), str(n)])] = f(d[i][m], d[i][n])
    return out



@check('C07', 'C09', abstract=['metrics'])
def pk_dataset_options_code(d: MASSDS, p: BOOL, w: WINDOW, f: ROUND, x: BOOL, y: BOOL):
    return pk(d, permuted=p, window_size=w, one_minus=x, return_parts=y, fnc_round=f)


def pk_dataset_options_want(d, p, w, f, x, y):
    return one(p, lambda a, b: __pk__(a, b, window_size=w, one_minus=x, boundary_format=d.boundary_format, return_parts=y, fnc_round=f), d) if d else refuse()


@check('C07', 'C09', abstract=['metrics'])
def pk_datasets_options_code(d: MASSDS, e: MASSDS, p: BOOL, w: WINDOW, f: ROUND, x: BOOL, y: BOOL):
    return pk(d, e, permuted=p, window_size=w, one_minus=x, return_parts=y, fnc_round=f)


def pk_datasets_options_want(d, e, p, w, f, x, y):
    return cross(lambda a, b: __pk__(a, b, window_size=w, one_minus=x, boundary_format=d.boundary_format, return_parts=y, fnc_round=f), d, e) if d and e else refuse()


@check('C07', 'C09', abstract=['metrics'])
def wd_dataset_options_code(d: MASSDS, p: BOOL, w: WINDOW, f: ROUND, x: BOOL, y: BOOL, z: BOOL):
    return window_diff(d, permuted=p, window_size=w, one_minus=x, return_parts=y, fnc_round=f, lamprier_et_al_2007_fix=z)


def wd_dataset_options_want(d, p, w, f, x, y, z):
    return one(p, lambda a, b: __window_diff__(a, b, window_size=w, one_minus=x, boundary_format=d.boundary_format, return_parts=y, fnc_round=f, lamprier_et_al_2007_fix=z), d) if d else refuse()


@check('C07', 'C09', abstract=['metrics'])
def wd_datasets_options_code(d: MASSDS, e: MASSDS, p: BOOL, w: WINDOW, f: ROUND, x: BOOL, y: BOOL, z: BOOL):
    return window_diff(d, e, permuted=p, window_size=w, one_minus=x, return_parts=y, fnc_round=f, lamprier_et_al_2007_fix=z)


def wd_datasets_options_want(d, e, p, w, f, x, y, z):
    return cross(lambda a, b: __window_diff__(a, b, window_size=w, one_minus=x, boundary_format=d.boundary_format, return_parts=y, fnc_round=f, lamprier_et_al_2007_fix=z), d, e) if d and e else refuse()


@check('C07', 'C09', abstract=['metrics'])
def b_dataset_options_code(d: MASSDS, p: BOOL, w: WINDOW, f: ANY, x: BOOL, y: BOOL):
    return boundary_similarity(d, permuted=p, n_t=w, weight=f, one_minus=x, return_parts=y)


def b_dataset_options_want(d, p, w, f, x, y):
    return one(p, lambda a, b: __boundary_similarity__(a, b, n_t=w, boundary_types=None, one_minus=x, boundary_format=d.boundary_format, return_parts=y, weight=f), d) if d else refuse()


@check('C07', 'C09', abstract=['metrics'])
def b_datasets_options_code(d: MASSDS, e: MASSDS, p: BOOL, w: WINDOW, f: ANY, x: BOOL, y: BOOL):
    return boundary_similarity(d, e, permuted=p, n_t=w, weight=f, one_minus=x, return_parts=y)


def b_datasets_options_want(d, e, p, w, f, x, y):
    return cross(lambda a, b: __boundary_similarity__(a, b, n_t=w, boundary_types=None, one_minus=x, boundary_format=d.boundary_format, return_parts=y, weight=f), d, e) if d and e else refuse()


@check('C07', 'C09', abstract=['metrics'])
def s_dataset_options_code(d: MASSDS, p: BOOL, w: WINDOW, f: ANY, x: BOOL, y: BOOL):
    return segmentation_similarity(d, permuted=p, n_t=w, weight=f, one_minus=x, return_parts=y)


def s_dataset_options_want(d, p, w, f, x, y):
    return one(p, lambda a, b: __segmentation_similarity__(a, b, n_t=w, boundary_types=None, one_minus=x, boundary_format=d.boundary_format, return_parts=y, weight=f), d) if d else refuse()


@check('C07', 'C09', abstract=['metrics'])
def s_datasets_options_code(d: MASSDS, e: MASSDS, p: BOOL, w: WINDOW, f: ANY, x: BOOL, y: BOOL):
    return segmentation_similarity(d, e, permuted=p, n_t=w, weight=f, one_minus=x, return_parts=y)


def s_datasets_options_want(d, e, p, w, f, x, y):
    return cross(lambda a, b: __segmentation_similarity__(a, b, n_t=w, boundary_types=None, one_minus=x, boundary_format=d.boundary_format, return_parts=y, weight=f), d, e) if d and e else refuse()


@check('C07', 'C09', abstract=['metrics'])
def cm_dataset_options_code(d: MASSDS, p: BOOL, w: WINDOW, f: ANY):
    return boundary_confusion_matrix(d, permuted=p, n_t=w, weight=f)


def cm_dataset_options_want(d, p, w, f):
    return one(p, lambda a, b: __boundary_confusion_matrix__(a, b, n_t=w, boundary_types=None, one_minus=False, boundary_format=d.boundary_format, return_parts=False, weight=f), d) if d else refuse()


@check('C07', 'C09', abstract=['metrics'])
def cm_datasets_options_code(d: MASSDS, e: MASSDS, p: BOOL, w: WINDOW, f: ANY):
    return boundary_confusion_matrix(d, e, permuted=p, n_t=w, weight=f)


def cm_datasets_options_want(d, e, p, w, f):
    return cross(lambda a, b: __boundary_confusion_matrix__(a, b, n_t=w, boundary_types=None, one_minus=False, boundary_format=d.boundary_format, return_parts=False, weight=f), d, e) if d and e else refuse()


@check('C07', 'C09', abstract=['metrics'])
def st_dataset_options_code(d: MASSDS, p: BOOL, w: WINDOW, f: ANY):
    return boundary_statistics(d, permuted=p, n_t=w, weight=f)


def st_dataset_options_want(d, p, w, f):
    return one(p, lambda a, b: __boundary_statistics__(a, b, n_t=w, boundary_types=None, boundary_format=d.boundary_format, weight=f), d) if d else refuse()


@check('C07', 'C09', abstract=['metrics'])
def st_datasets_options_code(d: MASSDS, e: MASSDS, p: BOOL, w: WINDOW, f: ANY):
    return boundary_statistics(d, e, permuted=p, n_t=w, weight=f)


def st_datasets_options_want(d, e, p, w, f):
    return cross(lambda a, b: __boundary_statistics__(a, b, n_t=w, boundary_types=None, boundary_format=d.boundary_format, weight=f), d, e) if d and e else refuse()

