"""Pk and WindowDiff: definitions over position labels."""
from decimal import Decimal
from segeval.window.pk import pk
from segeval.window.windowdiff import window_diff
from segeval.window import compute_window_size
from segeval.util import SegmentationMetricError
from segeval.format import (convert_masses_to_positions, convert_nltk_to_masses,
                            convert_positions_to_masses)


def ok(h, r):
    return len(h) == len(r) and len(h) > 0


# -- Pk
def pk_counts(h, r, w):
    errors = 0
    for i in range(0, len(r) - w):
        if (r[i] == r[i + w]) != (h[i] == h[i + w]):
            errors += 1
    return errors, max(len(r) - w, 0)


def pk_score(h, r, w):
    errors, n = pk_counts(h, r, w)
    return Decimal(errors) / n if n > 0 else 0


@check('C12', 'C11')
def pk_value_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not ok(h, r):
        return None
    return pk(h, r, window_size=w, boundary_format='position')


def pk_value_want(h, r, w):
    if not ok(h, r):
        return None
    return pk_score(h, r, w)


@check('C12', 'C08')
def pk_parts_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not ok(h, r):
        return None
    return pk(h, r, window_size=w, boundary_format='position', return_parts=True)


def pk_parts_want(h, r, w):
    if not ok(h, r):
        return None
    errors, n = pk_counts(h, r, w)
    return errors, n


# -- WindowDiff
def changes(s, i, w):
    n = 0
    for j in range(i, i + w):
        if s[j] != s[j + 1]:
            n += 1
    return n


def wd_counts(h, r, w):
    errors = 0
    for i in range(0, len(r) - w):
        if changes(r, i, w) != changes(h, i, w):
            errors += 1
    return errors, max(len(r) - w, 0)


@check('C12', 'C11')
def wd_value_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not ok(h, r):
        return None
    return window_diff(h, r, window_size=w, boundary_format='position')


def wd_value_want(h, r, w):
    if not ok(h, r):
        return None
    errors, n = wd_counts(h, r, w)
    return Decimal(errors) / n if n > 0 else 0


@check('C12', 'C08')
def wd_parts_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not ok(h, r):
        return None
    return window_diff(h, r, window_size=w, boundary_format='position', return_parts=True)


def wd_parts_want(h, r, w):
    if not ok(h, r):
        return None
    return wd_counts(h, r, w)


@check('C12')
def wd_lamprier_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not ok(h, r):
        return None
    return window_diff(h, r, window_size=w, boundary_format='position',
                       lamprier_et_al_2007_fix=True, return_parts=True)


def wd_lamprier_want(h, r, w):
    if not ok(h, r):
        return None
    pad = (0,) * w
    errors, n = wd_counts(pad + tuple(h) + pad, pad + tuple(r) + pad, w)
    return errors, n + 1


# -- default window
@check('C12', 'C13', 'C11', abstract=['window'])
def pk_default_window_code(h: POSITIONS, r: POSITIONS):
    if not ok(h, r):
        return None
    return pk(h, r, boundary_format='position', return_parts=True)


def pk_default_window_want(h, r):
    if not ok(h, r):
        return None
    return pk_counts(h, r, compute_window_size(r, boundary_format='position'))


@check('C12', 'C13', 'C11', abstract=['window'])
def wd_default_window_code(h: POSITIONS, r: POSITIONS):
    if not ok(h, r):
        return None
    return window_diff(h, r, boundary_format='position', return_parts=True)


def wd_default_window_want(h, r):
    if not ok(h, r):
        return None
    return wd_counts(h, r, compute_window_size(r, boundary_format='position'))


# -- window size
def window(masses, f):
    avg = Decimal(0)
    if masses:
        for m in masses:
            avg += m
        avg = avg / len(masses)
    w = int(f(avg / 2))
    return w if w > 1 else 2


@check('C13')
def size_masses_code(m: MASSES, f: ROUND):
    return compute_window_size(m, fnc_round=f)


def size_masses_want(m, f):
    return window(m, f)


@check('C13')
def size_default_code(m: MASSES):
    return compute_window_size(m)


def size_default_want(m):
    return window(m, round)


@check('C13')
def size_positions_code(p: POSITIONS, f: ROUND):
    return compute_window_size(p, fnc_round=f, boundary_format='position')


def size_positions_want(p, f):
    return window(convert_positions_to_masses(p), f)


def everything(d):
    out = []
    for item in d:
        for coder in d[item]:
            out.extend(d[item][coder])
    return out


@check('C13')
def size_nested_code(d: MASSDATA, f: ROUND):
    return compute_window_size(d, fnc_round=f)


def size_nested_want(d, f):
    return window(everything(d), f)


@check('C13')
def size_item_code(d: ITEM, f: ROUND):
    return compute_window_size(d, fnc_round=f)


def size_item_want(d, f):
    out = []
    for coder in d:
        out.extend(d[coder])
    return window(out, f)


@check('C13', 'C06')
def size_dataset_code(d: MASSDS, f: ROUND):
    if d.boundary_format != 'mass':
        return None
    return compute_window_size(d, fnc_round=f)


def size_dataset_want(d, f):
    if d.boundary_format != 'mass':
        return None
    return window(everything(d), f)


@check('C13', 'C06')
def size_dataset_positions_code(d: MASSDS, f: ROUND, g: STR):
    if d.boundary_format != 'position':
        return None
    return compute_window_size(d, fnc_round=f, boundary_format=g)


def size_dataset_positions_want(d, f, g):
    if d.boundary_format != 'position':
        return None
    out = []
    for item in d:
        for coder in d[item]:
            out.extend(convert_positions_to_masses(d[item][coder]))
    return window(out, f)


# -- complement
@check('C08')
def pk_minus_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    return pk(h, r, window_size=w, boundary_format='position', one_minus=True)


def pk_minus_want(h, r, w):
    return 1 - pk(h, r, window_size=w, boundary_format='position')


@check('C08')
def wd_minus_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    return window_diff(h, r, window_size=w, boundary_format='position', one_minus=True)


def wd_minus_want(h, r, w):
    return 1 - window_diff(h, r, window_size=w, boundary_format='position')


@check('C08')
def wd_lamprier_minus_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    return window_diff(h, r, window_size=w, boundary_format='position', one_minus=True,
                       lamprier_et_al_2007_fix=True)


def wd_lamprier_minus_want(h, r, w):
    return 1 - window_diff(h, r, window_size=w, boundary_format='position', lamprier_et_al_2007_fix=True)


@check('C08')
def wd_lamprier_value_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    if not ok(h, r):
        return None
    return window_diff(h, r, window_size=w, boundary_format='position', lamprier_et_al_2007_fix=True)


def wd_lamprier_value_want(h, r, w):
    if not ok(h, r):
        return None
    errors, n = window_diff(h, r, window_size=w, boundary_format='position',
                            lamprier_et_al_2007_fix=True, return_parts=True)
    return Decimal(errors) / n


# return_parts is not affected by one_minus
@check('C08')
def pk_parts_minus_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    return pk(h, r, window_size=w, boundary_format='position', one_minus=True, return_parts=True)


def pk_parts_minus_want(h, r, w):
    return pk(h, r, window_size=w, boundary_format='position', return_parts=True)


@check('C08')
def wd_parts_minus_code(h: POSITIONS, r: POSITIONS, w: WINDOW):
    return window_diff(h, r, window_size=w, boundary_format='position', one_minus=True, return_parts=True)


def wd_parts_minus_want(h, r, w):
    return window_diff(h, r, window_size=w, boundary_format='position', return_parts=True)


# every combination of the options
@check('C08')
def pk_options_code(h: POSITIONS, r: POSITIONS, w: WINDOW, minus: BOOL, parts: BOOL):
    if not ok(h, r):
        return None
    return pk(h, r, window_size=w, boundary_format='position', one_minus=minus, return_parts=parts)


def pk_options_want(h, r, w, minus, parts):
    if not ok(h, r):
        return None
    a, b = pk(h, r, window_size=w, boundary_format='position', return_parts=True)
    if parts:
        return a, b
    value = Decimal(a) / b if b > 0 else 0
    return 1 - value if minus else value


@check('C08')
def wd_options_code(h: POSITIONS, r: POSITIONS, w: WINDOW, fix: BOOL, minus: BOOL, parts: BOOL):
    if not ok(h, r):
        return None
    return window_diff(h, r, window_size=w, boundary_format='position', lamprier_et_al_2007_fix=fix, one_minus=minus, return_parts=parts)


def wd_options_want(h, r, w, fix, minus, parts):
    if not ok(h, r):
        return None
    a, b = window_diff(h, r, window_size=w, boundary_format='position', lamprier_et_al_2007_fix=fix, return_parts=True)
    if parts:
        return a, b
    value = Decimal(a) / b if b > 0 else 0
    return 1 - value if minus else value
