"""Inter-coder agreement."""
from decimal import Decimal
from itertools import combinations
from segeval.agreement import actual_agreement_linear
from segeval.agreement.pi import fleiss_pi_linear
from segeval.agreement.kappa import fleiss_kappa_linear
from segeval.agreement.bias import artstein_poesio_bias_linear
from segeval.data import get_coders
from segeval.similarity.distance import identify_types
from segeval.format import boundary_string_from_masses, convert_positions_to_masses, convert_nltk_to_masses
from segeval.similarity.weight import weight_a, weight_s_scale, weight_t_scale


def placed(s):
    return sum([len(x) for x in s])


def room(a, b):
    return len(a) * len(identify_types(a, b))


def share(n, d):
    return Decimal(n) / d if d != 0 else Decimal(0)


OPTIONS = {'permuted': False, 'one_minus': False, 'boundary_types': None, 'return_parts': True,
           'weight': (weight_a, weight_s_scale, weight_t_scale)}


def actual(d, f, n_t):
    coders = list(get_coders(d))
    num, den = 0, 0
    for m, n in combinations(coders, 2):
        for item in d.keys():
            parts = f(d[item][m], d[item][n], boundary_format='sets', n_t=n_t, **OPTIONS)
            num += parts[0]
            den += parts[1]
    return Decimal(num) / den if den != 0 else Decimal(1)


@check('C19', 'C11')
def actual_code(d: SETDATA, f: FN2):
    return actual_agreement_linear(d, boundary_format='sets', fnc_compare=f)


def actual_want(d, f):
    return actual(d, f, 2)


@check('C19', 'C07')
def actual_options_code(d: SETDATA, f: FN2, n: WINDOW):
    return actual_agreement_linear(d, boundary_format='sets', fnc_compare=f, n_t=n)


def actual_options_want(d, f, n):
    return actual(d, f, n)


# -- what is counted
@check('C19', abstract=['types'])
def parts_code(d: SETDATA, f: FN2):
    n, e, p, b = actual_agreement_linear(d, boundary_format='sets', fnc_compare=f, return_parts=True)
    return sum(n), sum(e), sum(p), len(n), len(e), len(p)


def parts_want(d, f):
    num, den, pbs, count = 0, 0, 0, 0
    for m, n in combinations(list(get_coders(d)), 2):
        for item in d.keys():
            parts = f(d[item][m], d[item][n], boundary_format='sets', n_t=2, **OPTIONS)
            num += parts[0]
            den += parts[1]
            pbs += room(d[item][m], d[item][n])
            count += 1
    return num, den, pbs, count, count, count


@check('C19', abstract=['types'])
def coder_code(d: SETDATA, f: FN2, c: STR):
    n, e, p, b = actual_agreement_linear(d, boundary_format='sets', fnc_compare=f, return_parts=True)
    mine = b.get(c, [])
    return len(mine), sum([x[0] for x in mine]), sum([x[1] for x in mine])


def coder_want(d, f, c):
    count, mine, total = 0, 0, 0
    for m, n in combinations(list(get_coders(d)), 2):
        for item in d.keys():
            if m == c:
                count += 1
                mine += placed(d[item][m])
                total += room(d[item][m], d[item][n])
            if n == c:
                count += 1
                mine += placed(d[item][n])
                total += room(d[item][m], d[item][n])
    return count, mine, total


# -- the coefficients, whatever the counts
def regular(d):
    return len(set([len(x) for x in d.values()])) == 1


def coded(d):
    return len([1 for x in d.values() if len(x) < 2]) == 0


def counts(d, f):
    return actual_agreement_linear(d, boundary_format='sets', fnc_compare=f, return_parts=True)


def observed(d, f):
    n, e, p, b = counts(d, f)
    return Decimal(sum(n)) / sum(e) if sum(e) != 0 else Decimal(1)


def pi_expected(d, f):
    """Square of the mean, over coders and their comparisons, of the share of places with a boundary."""
    n, e, p, b = counts(d, f)
    shares = [share(x, y) for xs in b.values() for x, y in xs]
    return (sum(shares) / Decimal(len(shares))) ** 2


def kappa_expected(d, f):
    """Mean, over pairs of coders, of the product of their shares of places with a boundary."""
    n, e, p, b = counts(d, f)
    terms = []
    for i, j in combinations(list(b.keys()), 2):
        terms.append(share(sum([x[0] for x in b[i]]), sum([x[1] for x in b[i]])) *
                     share(sum([x[0] for x in b[j]]), sum([x[1] for x in b[j]])))
    return sum(terms) / Decimal(len(terms))


@check('C19', abstract=['agree'], nodiv=True)
def pi_parts_code(d: SETDATA, f: FN2):
    return fleiss_pi_linear(d, boundary_format='sets', fnc_compare=f, return_parts=True)


def pi_parts_want(d, f):
    if not regular(d):
        raise Exception()
    return observed(d, f), pi_expected(d, f)


@check('C19', abstract=['agree'], nodiv=True)
def pi_value_code(d: SETDATA, f: FN2):
    return fleiss_pi_linear(d, boundary_format='sets', fnc_compare=f)


def pi_value_want(d, f):
    if not regular(d):
        raise Exception()
    a, e = observed(d, f), pi_expected(d, f)
    return (a - e) / (1 - e)


@check('C19', abstract=['agree'], nodiv=True)
def kappa_parts_code(d: SETDATA, f: FN2):
    return fleiss_kappa_linear(d, boundary_format='sets', fnc_compare=f, return_parts=True)


def kappa_parts_want(d, f):
    if not regular(d) or not coded(d):
        raise Exception()
    return observed(d, f), kappa_expected(d, f)


@check('C19', abstract=['agree'], nodiv=True)
def kappa_value_code(d: SETDATA, f: FN2):
    return fleiss_kappa_linear(d, boundary_format='sets', fnc_compare=f)


def kappa_value_want(d, f):
    if not regular(d) or not coded(d):
        raise Exception()
    a, e = observed(d, f), kappa_expected(d, f)
    return (a - e) / (1 - e)


@check('C19', 'C11', abstract=['agree'], nodiv=True)
def bias_parts_code(d: SETDATA, f: FN2):
    return artstein_poesio_bias_linear(d, boundary_format='sets', fnc_compare=f, return_parts=True)


def bias_parts_want(d, f):
    if not regular(d) or not coded(d):
        raise Exception()
    return pi_expected(d, f), kappa_expected(d, f)


@check('C19', 'C11', abstract=['agree'], nodiv=True)
def bias_value_code(d: SETDATA, f: FN2):
    return artstein_poesio_bias_linear(d, boundary_format='sets', fnc_compare=f)


def bias_value_want(d, f):
    if not regular(d) or not coded(d):
        raise Exception()
    return pi_expected(d, f) - kappa_expected(d, f)


@check('C19', 'C14')
def types_code(a: STRING, b: STRING):
    return identify_types(a, b)


def types_want(a, b):
    out = set()
    for s in a:
        out |= s
    for s in b:
        out |= s
    return out


# -- datasets are read in the encoding they declare
@check('C06', 'C19', abstract=['agree'], nodiv=True)
def pi_dataset_code(d: MASSDS, f: FN2):
    return fleiss_pi_linear(d, fnc_compare=f, return_parts=True)


def pi_dataset_want(d, f):
    return fleiss_pi_linear(d, boundary_format=d.boundary_format, boundary_types=d.boundary_types, fnc_compare=f, return_parts=True)


@check('C06', abstract=['agree'], nodiv=True)
def pi_format_code(d: MASSDS, f: FN2, x: FORMAT):
    return fleiss_pi_linear(d, fnc_compare=f, boundary_format=x, return_parts=True)


def pi_format_want(d, f, x):
    return fleiss_pi_linear(d, boundary_format=d.boundary_format, fnc_compare=f, return_parts=True)


@check('C06', abstract=['agree'], nodiv=True)
def kappa_format_code(d: MASSDS, f: FN2, x: FORMAT):
    return fleiss_kappa_linear(d, fnc_compare=f, boundary_format=x, return_parts=True)


def kappa_format_want(d, f, x):
    return fleiss_kappa_linear(d, boundary_format=d.boundary_format, fnc_compare=f, return_parts=True)


@check('C06', abstract=['agree'], nodiv=True)
def bias_format_code(d: MASSDS, f: FN2, x: FORMAT):
    return artstein_poesio_bias_linear(d, fnc_compare=f, boundary_format=x, return_parts=True)


def bias_format_want(d, f, x):
    return artstein_poesio_bias_linear(d, boundary_format=d.boundary_format, fnc_compare=f, return_parts=True)


# -- what is counted, in the other encodings
@check('C04', 'C19', abstract=['types', 'conv'])
def parts_mass_code(d: MASSDATA, f: FN2):
    n, e, p, b = actual_agreement_linear(d, boundary_format='mass', fnc_compare=f, return_parts=True)
    return sum(n), sum(e), sum(p), len(n), len(e), len(p)


def parts_mass_want(d, f):
    num, den, pbs, count = 0, 0, 0, 0
    for m, n in combinations(list(get_coders(d)), 2):
        for item in d.keys():
            parts = f(d[item][m], d[item][n], **dict(OPTIONS, boundary_format='mass', n_t=2))
            num += parts[0]
            den += parts[1]
            pbs += room(boundary_string_from_masses(d[item][m]), boundary_string_from_masses(d[item][n]))
            count += 1
    return num, den, pbs, count, count, count


@check('C04', 'C19', abstract=['types', 'conv'])
def parts_position_code(d: POSDATA, f: FN2):
    n, e, p, b = actual_agreement_linear(d, boundary_format='position', fnc_compare=f, return_parts=True)
    return sum(n), sum(e), sum(p), len(n), len(e), len(p)


def by_position(s):
    return boundary_string_from_masses(convert_positions_to_masses(s))


def parts_position_want(d, f):
    num, den, pbs, count = 0, 0, 0, 0
    for m, n in combinations(list(get_coders(d)), 2):
        for item in d.keys():
            parts = f(d[item][m], d[item][n], **dict(OPTIONS, boundary_format='position', n_t=2))
            num += parts[0]
            den += parts[1]
            pbs += room(by_position(d[item][m]), by_position(d[item][n]))
            count += 1
    return num, den, pbs, count, count, count


@check('C04', 'C19', abstract=['types', 'conv'])
def parts_nltk_code(d: NLTKDATA, f: FN2):
    n, e, p, b = actual_agreement_linear(d, boundary_format='nltk', fnc_compare=f, return_parts=True)
    return sum(n), sum(e), sum(p), len(n), len(e), len(p)


def by_nltk(s):
    return boundary_string_from_masses(convert_nltk_to_masses(s))


def parts_nltk_want(d, f):
    num, den, pbs, count = 0, 0, 0, 0
    for m, n in combinations(list(get_coders(d)), 2):
        for item in d.keys():
            parts = f(d[item][m], d[item][n], **dict(OPTIONS, boundary_format='nltk', n_t=2))
            num += parts[0]
            den += parts[1]
            pbs += room(by_nltk(d[item][m]), by_nltk(d[item][n]))
            count += 1
    return num, den, pbs, count, count, count


def coder_in(d, c, text):
    count, mine, total = 0, 0, 0
    for m, n in combinations(list(get_coders(d)), 2):
        for item in d.keys():
            if m == c:
                count += 1
                mine += placed(text(d[item][m]))
                total += room(text(d[item][m]), text(d[item][n]))
            if n == c:
                count += 1
                mine += placed(text(d[item][n]))
                total += room(text(d[item][m]), text(d[item][n]))
    return count, mine, total


@check('C04', 'C19', abstract=['types', 'conv'])
def coder_mass_code(d: MASSDATA, f: FN2, c: STR):
    n, e, p, b = actual_agreement_linear(d, boundary_format='mass', fnc_compare=f, return_parts=True)
    mine = b.get(c, [])
    return len(mine), sum([x[0] for x in mine]), sum([x[1] for x in mine])


def coder_mass_want(d, f, c):
    return coder_in(d, c, boundary_string_from_masses)


@check('C04', 'C19', abstract=['types', 'conv'])
def coder_position_code(d: POSDATA, f: FN2, c: STR):
    n, e, p, b = actual_agreement_linear(d, boundary_format='position', fnc_compare=f, return_parts=True)
    mine = b.get(c, [])
    return len(mine), sum([x[0] for x in mine]), sum([x[1] for x in mine])


def coder_position_want(d, f, c):
    return coder_in(d, c, by_position)


@check('C04', 'C19', abstract=['types', 'conv'])
def coder_nltk_code(d: NLTKDATA, f: FN2, c: STR):
    n, e, p, b = actual_agreement_linear(d, boundary_format='nltk', fnc_compare=f, return_parts=True)
    mine = b.get(c, [])
    return len(mine), sum([x[0] for x in mine]), sum([x[1] for x in mine])


def coder_nltk_want(d, f, c):
    return coder_in(d, c, by_nltk)


# -- agreement computed for a data set is read in the data set's encoding, whatever is asked
@check('C06', abstract=['agree'])
def actual_format_code(d: MASSDS, f: FN2, x: FORMAT):
    return actual_agreement_linear(d, fnc_compare=f, boundary_format=x, return_parts=True)


def actual_format_want(d, f, x):
    return actual_agreement_linear(d, boundary_format=d.boundary_format, fnc_compare=f, return_parts=True)
