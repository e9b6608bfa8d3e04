"""Precision, recall and F-measure."""
from decimal import Decimal
from segeval.ml import precision, recall, fmeasure, Average, ConfusionMatrix
from segeval.util import SegmentationMetricError


def cell(m, p, a):
    return m.get(p, {}).get(a, 0)


def row(m, c):
    return sum([cell(m, c, a) for a in m.classes()])


def column(m, c):
    return sum([cell(m, p, c) for p in m.classes()])


def div(n, d):
    return Decimal(n) / d if n != 0 else 0


def avg(xs):
    return sum(xs) / Decimal(len(xs)) if xs else 0


def pr(m, c):
    return div(cell(m, c, c), row(m, c))


def rc(m, c):
    return div(cell(m, c, c), column(m, c))


def f(m, c, beta):
    p, r = pr(m, c), rc(m, c)
    if p == 0 or r == 0:
        return 0
    return (1 + beta * beta) * p * r / (beta * beta * p + r)


@check('C18')
def precision_code(m: CM, c: CLASS):
    return precision(m, c)


def precision_want(m, c):
    return pr(m, c)


@check('C18')
def recall_code(m: CM, c: CLASS):
    return recall(m, c)


def recall_want(m, c):
    return rc(m, c)


@check('C18')
def fmeasure_code(m: CM, c: CLASS, b: POSINT):
    return fmeasure(m, c, beta=b)


def fmeasure_want(m, c, b):
    return f(m, c, b)


@check('C18')
def fmeasure_fraction_code(m: CM, c: CLASS, b: NUM):
    return fmeasure(m, c, beta=b)


def fmeasure_fraction_want(m, c, b):
    return f(m, c, b)


@check('C18')
def fmeasure_float_code(m: CM, c: CLASS):
    return fmeasure(m, c, beta=0.1), fmeasure(m, c, beta='0.1')


def fmeasure_float_want(m, c):
    return f(m, c, Decimal('0.1')), f(m, c, Decimal('0.1'))


@check('C18')
def fmeasure_default_code(m: CM, c: CLASS):
    return fmeasure(m, c)


def fmeasure_default_want(m, c):
    return f(m, c, 1)


@check('C18')
def precision_micro_code(m: CM):
    return precision(m)


def precision_micro_want(m):
    return div(sum([cell(m, c, c) for c in m.classes()]), sum([row(m, c) for c in m.classes()]))


@check('C18')
def recall_micro_code(m: CM):
    return recall(m, version=Average.micro)


def recall_micro_want(m):
    return div(sum([cell(m, c, c) for c in m.classes()]), sum([column(m, c) for c in m.classes()]))


@check('C18', nodiv=True)
def precision_macro_code(m: CM):
    return precision(m, version=Average.macro)


def precision_macro_want(m):
    return avg([pr(m, c) for c in m.classes()])


@check('C18', nodiv=True)
def recall_macro_code(m: CM):
    return recall(m, version=Average.macro)


def recall_macro_want(m):
    return avg([rc(m, c) for c in m.classes()])


@check('C18', nodiv=True)
def fmeasure_macro_code(m: CM):
    return fmeasure(m, version=Average.macro)


def fmeasure_macro_want(m):
    return avg([f(m, c, 1) for c in m.classes()])


@check('C18', nodiv=True)
def fmeasure_micro_code(m: CM):
    return fmeasure(m)


def fmeasure_micro_want(m):
    n = sum([2 * pr(m, c) * rc(m, c) for c in m.classes()])
    d = sum([pr(m, c) + rc(m, c) for c in m.classes()])
    return div(n, d)


@check('C18', nodiv=True)
def precision_group_code(ms: CMS, l: STR):
    if l not in ms:
        return None
    return precision(ms)[l]


def precision_group_want(ms, l):
    if l not in ms:
        return None
    return precision(ms[l])


@check('C18', nodiv=True)
def recall_group_code(ms: CMS, l: STR):
    if l not in ms:
        return None
    return recall(ms)[l]


def recall_group_want(ms, l):
    if l not in ms:
        return None
    return recall(ms[l])


@check('C18', nodiv=True)
def fmeasure_group_code(ms: CMS, l: STR, b: POSINT):
    if l not in ms:
        return None
    return fmeasure(ms, beta=b)[l]


def fmeasure_group_want(ms, l, b):
    if l not in ms:
        return None
    return fmeasure(ms[l], beta=b)


@check('C18', strict=True)
def version_code(m: CM, v: INT):
    if v == Average.micro or v == Average.macro:
        return None
    return precision(m, version=v)


def version_want(m, v):
    if v == Average.micro or v == Average.macro:
        return None
    raise SegmentationMetricError('')
