"""Summary statistics."""
from decimal import Decimal
from segeval.compute import summarize
from segeval.util.math import mean, var, std, stderr


def avg(xs):
    total = Decimal(0)
    for x in xs:
        total += x
    return total / len(xs)


def variance(xs):
    m = avg(xs)
    total = Decimal(0)
    for x in xs:
        total += (x - m) * (x - m)
    return total / len(xs)


@check('C20')
def mean_code(xs: NUMS):
    return mean(xs)


def mean_want(xs):
    return avg(xs) if xs else 0


@check('C20')
def var_code(xs: NUMS):
    if not xs:
        return None
    return var(xs)


def var_want(xs):
    if not xs:
        return None
    return variance(xs)


@check('C20')
def std_code(xs: NUMS):
    if not xs:
        return None
    return std(xs)


def std_want(xs):
    if not xs:
        return None
    return variance(xs).sqrt()


@check('C20')
def stderr_code(xs: NUMS):
    if not xs:
        return None
    return stderr(xs)


def stderr_want(xs):
    if not xs:
        return None
    return variance(xs).sqrt() / Decimal(len(xs)).sqrt()


@check('C20')
def summarize_code(p: SCORES):
    if not p:
        return None
    return summarize(p)


def summarize_want(p):
    if not p:
        return None
    xs = list(p.values())
    v = variance(xs)
    return avg(xs), v.sqrt(), v, v.sqrt() / Decimal(len(xs)).sqrt(), len(p)
