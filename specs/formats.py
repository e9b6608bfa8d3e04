"""Conversions between encodings."""
from itertools import groupby
from segeval.format import (convert_masses_to_positions, convert_nltk_to_masses,
                            convert_positions_to_masses, boundary_string_from_masses)


# unit i of the labels lies in segment k, for the masses before k sum to at most i
@check('C26')
def positions_code(m: MASSES):
    return convert_masses_to_positions(m)


def positions_want(m):
    out = ()
    for i in range(len(m)):
        for _ in range(m[i]):
            out += (i + 1,)
    return out


@check('C26')
def positions_length_code(m: MASSES):
    return len(convert_masses_to_positions(m))


def positions_length_want(m):
    return sum(m)


@check('C26')
def masses_sum_code(p: POSITIONS):
    return sum(convert_positions_to_masses(p))


def masses_sum_want(p):
    return len(p)


@check('C26')
def string_length_code(m: MASSES):
    return len(boundary_string_from_masses(m))


def string_length_want(m):
    return max(sum(m) - 1, 0)


@check('C26')
def string_code(m: MASSES):
    return boundary_string_from_masses(m)


def string_want(m):
    ends = set()
    end = 0
    for x in m:
        end += x
        if end < sum(m):
            ends.add(end - 1)
    return tuple([frozenset([1]) if i in ends else frozenset() for i in range(sum(m) - 1)])


@check('C26')
def nltk_count_code(s: NLTK):
    return len(convert_nltk_to_masses(s))


def nltk_count_want(s):
    return len(s.split('1'))


@check('C26')
def nltk_code(s: NLTK):
    return convert_nltk_to_masses(s)


def nltk_want(s):
    return tuple([len(x) + 1 for x in s.split('1')])


@check('C26')
def nltk_symbol_code(s: NLTK, b: STR):
    return convert_nltk_to_masses(s, boundary_symbol=b)


def nltk_symbol_want(s, b):
    return tuple([len(x) + 1 for x in s.split(b)])


@check('C26')
def roundtrip_code(m: MASSES):
    return convert_positions_to_masses(convert_masses_to_positions(m))


def roundtrip_want(m):
    return tuple(m)


@check('C26')
def runs_code(p: POSITIONS):
    return convert_positions_to_masses(p)


def runs_want(p):
    return tuple([len(list(g)) for _, g in groupby(p)])
