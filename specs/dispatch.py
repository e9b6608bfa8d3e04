"""What the metrics do with their arguments: one dataset, two datasets, a pair,
keyword forms, options.  The pair metrics themselves are uninterpreted here."""
from itertools import combinations
from segeval.util import SegmentationMetricError
from segeval.window.pk import pk, __pk__
from segeval.window.windowdiff import window_diff, __window_diff__
from segeval.similarity.boundary import boundary_similarity, __boundary_similarity__
from segeval.similarity.segmentation import segmentation_similarity, __segmentation_similarity__
from segeval.similarity import (boundary_confusion_matrix, boundary_statistics,
                                __boundary_confusion_matrix__, __boundary_statistics__)
from segeval.similarity.weight import weight_a, weight_s_scale, weight_t_scale



def pk_pair(a, b, fmt):
    return __pk__(a, b, window_size=None, one_minus=False, boundary_format=fmt, return_parts=False, fnc_round=round)


def wd_pair(a, b, fmt):
    return __window_diff__(a, b, window_size=None, one_minus=False, boundary_format=fmt, return_parts=False,
                           fnc_round=round, lamprier_et_al_2007_fix=False)


def b_pair(a, b, fmt):
    return __boundary_similarity__(a, b, n_t=2, boundary_types=None, weight=(weight_a, weight_s_scale, weight_t_scale),
                                   one_minus=False, boundary_format=fmt, return_parts=False)


def s_pair(a, b, fmt):
    return __segmentation_similarity__(a, b, n_t=2, boundary_types=None, one_minus=False, boundary_format=fmt,
                                       weight=(weight_a, weight_s_scale, weight_t_scale), return_parts=False)


def cm_pair(a, b, fmt):
    return __boundary_confusion_matrix__(a, b, n_t=2, boundary_types=None, one_minus=False, boundary_format=fmt,
                                         weight=(weight_a, weight_s_scale, weight_t_scale), return_parts=False)


def st_pair(a, b, fmt):
    return __boundary_statistics__(a, b, n_t=2, boundary_types=None, boundary_format=fmt,
                                   weight=(weight_a, weight_s_scale, weight_t_scale))


def both(f, d):
    out = dict()
    for i in d:
        for m, n in combinations(d[i].keys(), 2):
            out[','.join([i, str(m), str(n)])] = f(d[i][m], d[i][n], d.boundary_format)
            out[','.join([i, str(n), str(m)])] = f(d[i][n], d[i][m], d.boundary_format)
    return out


def once(f, d):
    out = dict()
    for i in d:
        for m, n in combinations(d[i].keys(), 2):
            out[','.join([i, str(m), str(n)])] = f(d[i][m], d[i][n], d.boundary_format)
    return out


def cross(f, d, e):
    if d.boundary_format != e.boundary_format:
        raise SegmentationMetricError('')
    out = dict()
    for i in d:
        if i in e:
            for m in d[i]:
                for n in e[i]:
                    out[','.join([i, str(m), str(n)])] = f(d[i][m], e[i][n], d.boundary_format)
    return out


def refuse():
    raise SegmentationMetricError('')


@check('C06', 'C09', 'C07', abstract=['metrics'])
def pk_dataset_code(d: MASSDS):
    return pk(d)


def pk_dataset_want(d):
    return both(pk_pair, d) if d else refuse()


@check('C09', abstract=['metrics'])
def pk_dataset_kw_code(d: MASSDS):
    return pk(dataset=d)


def pk_dataset_kw_want(d):
    return both(pk_pair, d) if d else refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def pk_datasets_code(d: MASSDS, e: MASSDS):
    return pk(d, e)


def pk_datasets_want(d, e):
    return cross(pk_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def pk_format_code(d: MASSDS, x: STR):
    return pk(d, boundary_format=x)


def pk_format_want(d, x):
    return both(pk_pair, d) if d else refuse()


@check('C07', abstract=['metrics'])
def pk_keywords_code(a: MASSES, b: MASSES):
    return pk(hypothesis=a, reference=b)


def pk_keywords_want(a, b):
    return pk(a, b)


@check('C07', 'C11', abstract=['metrics'])
def pk_single_code(a: POSINT, b: POSINT):
    return pk(a, b)


def pk_single_want(a, b):
    return pk((a,), (b,))


@check('C07', abstract=['metrics'])
def pk_unknown_code(a: MASSES, b: MASSES, x: ANY):
    return pk(a, b, no_such_option=x)


def pk_unknown_want(a, b, x):
    return refuse()


@check('C07', abstract=['metrics'])
def pk_no_arguments_code():
    return pk()


def pk_no_arguments_want():
    return refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def wd_dataset_code(d: MASSDS):
    return window_diff(d)


def wd_dataset_want(d):
    return both(wd_pair, d) if d else refuse()


@check('C09', abstract=['metrics'])
def wd_dataset_kw_code(d: MASSDS):
    return window_diff(dataset=d)


def wd_dataset_kw_want(d):
    return both(wd_pair, d) if d else refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def wd_datasets_code(d: MASSDS, e: MASSDS):
    return window_diff(d, e)


def wd_datasets_want(d, e):
    return cross(wd_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def wd_format_code(d: MASSDS, x: STR):
    return window_diff(d, boundary_format=x)


def wd_format_want(d, x):
    return both(wd_pair, d) if d else refuse()


@check('C07', abstract=['metrics'])
def wd_keywords_code(a: MASSES, b: MASSES):
    return window_diff(hypothesis=a, reference=b)


def wd_keywords_want(a, b):
    return window_diff(a, b)


@check('C07', 'C11', abstract=['metrics'])
def wd_single_code(a: POSINT, b: POSINT):
    return window_diff(a, b)


def wd_single_want(a, b):
    return window_diff((a,), (b,))


@check('C07', abstract=['metrics'])
def wd_unknown_code(a: MASSES, b: MASSES, x: ANY):
    return window_diff(a, b, no_such_option=x)


def wd_unknown_want(a, b, x):
    return refuse()


@check('C07', abstract=['metrics'])
def wd_no_arguments_code():
    return window_diff()


def wd_no_arguments_want():
    return refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def b_dataset_code(d: MASSDS):
    return boundary_similarity(d)


def b_dataset_want(d):
    return once(b_pair, d) if d else refuse()


@check('C09', abstract=['metrics'])
def b_dataset_kw_code(d: MASSDS):
    return boundary_similarity(dataset=d)


def b_dataset_kw_want(d):
    return once(b_pair, d) if d else refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def b_datasets_code(d: MASSDS, e: MASSDS):
    return boundary_similarity(d, e)


def b_datasets_want(d, e):
    return cross(b_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def b_format_code(d: MASSDS, x: STR):
    return boundary_similarity(d, boundary_format=x)


def b_format_want(d, x):
    return once(b_pair, d) if d else refuse()


@check('C07', abstract=['metrics'])
def b_keywords_code(a: MASSES, b: MASSES):
    return boundary_similarity(hypothesis=a, reference=b)


def b_keywords_want(a, b):
    return boundary_similarity(a, b)


@check('C07', 'C11', abstract=['metrics'])
def b_single_code(a: POSINT, b: POSINT):
    return boundary_similarity(a, b)


def b_single_want(a, b):
    return boundary_similarity((a,), (b,))


@check('C07', abstract=['m_st'])
def b_unknown_code(a: MASSES, b: MASSES, x: ANY):
    return boundary_similarity(a, b, no_such_option=x)


def b_unknown_want(a, b, x):
    return refuse()


@check('C07', abstract=['metrics'])
def b_no_arguments_code():
    return boundary_similarity()


def b_no_arguments_want():
    return refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def s_dataset_code(d: MASSDS):
    return segmentation_similarity(d)


def s_dataset_want(d):
    return once(s_pair, d) if d else refuse()


@check('C09', abstract=['metrics'])
def s_dataset_kw_code(d: MASSDS):
    return segmentation_similarity(dataset=d)


def s_dataset_kw_want(d):
    return once(s_pair, d) if d else refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def s_datasets_code(d: MASSDS, e: MASSDS):
    return segmentation_similarity(d, e)


def s_datasets_want(d, e):
    return cross(s_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def s_format_code(d: MASSDS, x: STR):
    return segmentation_similarity(d, boundary_format=x)


def s_format_want(d, x):
    return once(s_pair, d) if d else refuse()


@check('C07', abstract=['metrics'])
def s_keywords_code(a: MASSES, b: MASSES):
    return segmentation_similarity(hypothesis=a, reference=b)


def s_keywords_want(a, b):
    return segmentation_similarity(a, b)


@check('C07', 'C11', abstract=['metrics'])
def s_single_code(a: POSINT, b: POSINT):
    return segmentation_similarity(a, b)


def s_single_want(a, b):
    return segmentation_similarity((a,), (b,))


@check('C07', abstract=['m_st'])
def s_unknown_code(a: MASSES, b: MASSES, x: ANY):
    return segmentation_similarity(a, b, no_such_option=x)


def s_unknown_want(a, b, x):
    return refuse()


@check('C07', abstract=['metrics'])
def s_no_arguments_code():
    return segmentation_similarity()


def s_no_arguments_want():
    return refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def cm_dataset_code(d: MASSDS):
    return boundary_confusion_matrix(d)


def cm_dataset_want(d):
    return once(cm_pair, d) if d else refuse()


@check('C09', abstract=['metrics'])
def cm_dataset_kw_code(d: MASSDS):
    return boundary_confusion_matrix(dataset=d)


def cm_dataset_kw_want(d):
    return once(cm_pair, d) if d else refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def cm_datasets_code(d: MASSDS, e: MASSDS):
    return boundary_confusion_matrix(d, e)


def cm_datasets_want(d, e):
    return cross(cm_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def cm_format_code(d: MASSDS, x: STR):
    return boundary_confusion_matrix(d, boundary_format=x)


def cm_format_want(d, x):
    return once(cm_pair, d) if d else refuse()


@check('C07', abstract=['metrics'])
def cm_keywords_code(a: MASSES, b: MASSES):
    return boundary_confusion_matrix(hypothesis=a, reference=b)


def cm_keywords_want(a, b):
    return boundary_confusion_matrix(a, b)


@check('C07', 'C11', abstract=['metrics'])
def cm_single_code(a: POSINT, b: POSINT):
    return boundary_confusion_matrix(a, b)


def cm_single_want(a, b):
    return boundary_confusion_matrix((a,), (b,))


@check('C07', abstract=['m_st'])
def cm_unknown_code(a: MASSES, b: MASSES, x: ANY):
    return boundary_confusion_matrix(a, b, no_such_option=x)


def cm_unknown_want(a, b, x):
    return refuse()


@check('C07', abstract=['metrics'])
def cm_no_arguments_code():
    return boundary_confusion_matrix()


def cm_no_arguments_want():
    return refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def st_dataset_code(d: MASSDS):
    return boundary_statistics(d)


def st_dataset_want(d):
    return once(st_pair, d) if d else refuse()


@check('C09', abstract=['metrics'])
def st_dataset_kw_code(d: MASSDS):
    return boundary_statistics(dataset=d)


def st_dataset_kw_want(d):
    return once(st_pair, d) if d else refuse()


@check('C06', 'C09', 'C07', abstract=['metrics'])
def st_datasets_code(d: MASSDS, e: MASSDS):
    return boundary_statistics(d, e)


def st_datasets_want(d, e):
    return cross(st_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def st_format_code(d: MASSDS, x: STR):
    return boundary_statistics(d, boundary_format=x)


def st_format_want(d, x):
    return once(st_pair, d) if d else refuse()


@check('C07', abstract=['metrics'])
def st_keywords_code(a: MASSES, b: MASSES):
    return boundary_statistics(hypothesis=a, reference=b)


def st_keywords_want(a, b):
    return boundary_statistics(a, b)


@check('C07', 'C11', abstract=['metrics'])
def st_single_code(a: POSINT, b: POSINT):
    return boundary_statistics(a, b)


def st_single_want(a, b):
    return boundary_statistics((a,), (b,))


@check('C07', abstract=['metrics'])
def st_unknown_code(a: MASSES, b: MASSES, x: ANY):
    return boundary_statistics(a, b, no_such_option=x)


def st_unknown_want(a, b, x):
    return refuse()


@check('C07', abstract=['metrics'])
def st_no_arguments_code():
    return boundary_statistics()


def st_no_arguments_want():
    return refuse()


@check('C07', 'C06', abstract=['metrics'])
def pk_datasets_format_code(d: MASSDS, e: MASSDS, x: STR):
    return pk(d, e, boundary_format=x)


def pk_datasets_format_want(d, e, x):
    return cross(pk_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def wd_datasets_format_code(d: MASSDS, e: MASSDS, x: STR):
    return window_diff(d, e, boundary_format=x)


def wd_datasets_format_want(d, e, x):
    return cross(wd_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def b_datasets_format_code(d: MASSDS, e: MASSDS, x: STR):
    return boundary_similarity(d, e, boundary_format=x)


def b_datasets_format_want(d, e, x):
    return cross(b_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def s_datasets_format_code(d: MASSDS, e: MASSDS, x: STR):
    return segmentation_similarity(d, e, boundary_format=x)


def s_datasets_format_want(d, e, x):
    return cross(s_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def cm_datasets_format_code(d: MASSDS, e: MASSDS, x: STR):
    return boundary_confusion_matrix(d, e, boundary_format=x)


def cm_datasets_format_want(d, e, x):
    return cross(cm_pair, d, e) if d and e else refuse()


@check('C07', 'C06', abstract=['metrics'])
def st_datasets_format_code(d: MASSDS, e: MASSDS, x: STR):
    return boundary_statistics(d, e, boundary_format=x)


def st_datasets_format_want(d, e, x):
    return cross(st_pair, d, e) if d and e else refuse()
