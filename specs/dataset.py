"""Datasets: construction, merging, copying.  Look-ups at arbitrary keys."""
from segeval.data import Dataset, DataIOError, get_coders


def conflict(a, b, i, c):
    return i in a and i in b and c in a[i] and c in b[i]


@check('C21')
def construct_code(m: MASSDATA, p: PROPS, f: FORMAT, i: ITEMNAME, c: CODER, k: PROPKEY):
    d = Dataset(m, properties=p, boundary_format=f)
    return i in d, d.get(i, {}).get(c), c in d.coders, d.properties.get(k), d.boundary_format, d.boundary_types


def construct_want(m, p, f, i, c, k):
    return (i in m, m.get(i, {}).get(c), any(c in x for x in m.values()), p.get(k), f, set([1]))


@check('C21')
def construct_types_code(m: MASSDATA, t: TYPESET, i: ITEMNAME, c: CODER):
    d = Dataset(m, boundary_types=t)
    return d.get(i, {}).get(c), d.boundary_types, d.boundary_format, len(d), len(d.properties)


def construct_types_want(m, t, i, c):
    return m.get(i, {}).get(c), t, 'mass', len(m), 0


@check('C21')
def construct_from_dataset_code(a: MASSDS, i: ITEMNAME, c: CODER):
    d = Dataset(a)
    return i in d, d.get(i, {}).get(c), c in d.coders


def construct_from_dataset_want(a, i, c):
    return i in a, a.get(i, {}).get(c), any(c in x for x in a.values())


@check('C21')
def construct_given_code(a: SETDS, p: PROPS, t: TYPESET, f: FORMAT, i: ITEMNAME, c: CODER, k: PROPKEY):
    d = Dataset(a, p, t, f)
    return d.get(i, {}).get(c), d.properties.get(k), d.boundary_types, d.boundary_format


def construct_given_want(a, p, t, f, i, c, k):
    return a.get(i, {}).get(c), p.get(k), t, f


@check('C21')
def construct_empty_code(i: ITEMNAME, c: CODER):
    d = Dataset()
    return i in d, len(d), c in d.coders, len(d.properties), d.boundary_types, d.boundary_format


def construct_empty_want(i, c):
    return False, 0, False, 0, set([1]), 'mass'


@check('C21')
def construct_own_code(s: MASSES, r: MASSES):
    m = {'i': {'x': s}}
    d = Dataset(m)
    d['i']['y'] = r
    d['j'] = {'x': r}
    return m['i'].get('y'), m.get('j'), m['i']['x'], d['i']['x'], d['i']['y']


def construct_own_want(s, r):
    return None, None, s, s, r


@check('C21')
def construct_own_properties_code(s: MASSES):
    p = {'k': 1}
    d = Dataset({'i': {'x': s}}, properties=p)
    e = Dataset({'i': {'x': s}}, properties=p)
    d.properties['k'] = 2
    return p['k'], e.properties['k'], d.properties['k']


def construct_own_properties_want(s):
    return 1, 1, 2


@check('C21')
def construct_own_types_code(s: MASSES, a: MASSDS):
    t = set([2])
    d = Dataset({'i': {'x': s}}, boundary_types=t)
    d.boundary_types.add(9)
    e = Dataset()
    e.boundary_types.add(8)
    f = Dataset()
    return 9 in t, 9 in d.boundary_types, 2 in d.boundary_types, 8 in f.boundary_types


def construct_own_types_want(s, a):
    return False, True, True, False


@check('C21')
def merge_code(a: MASSDS, b: MASSDS, i: ITEMNAME, c: CODER):
    if conflict(a, b, i, c):
        return None
    d = __fresh__(a)
    d += b
    return d.get(i, {}).get(c), i in d


def merge_want(a, b, i, c):
    if conflict(a, b, i, c):
        return None
    for item in b:
        for coder in b[item]:
            if item in a and coder in a[item]:
                raise DataIOError('x')
    v = b.get(i, {}).get(c)
    if v is None:
        v = a.get(i, {}).get(c)
    return v, i in a or i in b


@check('C21', loose=True)
def merge_coders_code(a: MASSDS, b: MASSDS, c: CODER):
    d = __fresh__(a)
    d += b
    return c in d.coders


def merge_coders_want(a, b, c):
    for item in b:
        for coder in b[item]:
            if item in a and coder in a[item]:
                raise DataIOError('x')
    return c in a.coders or any(c in x for x in b.values())


@check('C21')
def merge_attributes_code(a: MASSDS, b: MASSDS, k: PROPKEY):
    d = __fresh__(a)
    d += b
    return d.properties.get(k), d.boundary_format, d.boundary_types


def merge_attributes_want(a, b, k):
    for item in b:
        for coder in b[item]:
            if item in a and coder in a[item]:
                raise DataIOError('x')
    return a.properties.get(k), a.boundary_format, a.boundary_types


@check('C21')
def merge_keeps_other_code(a: MASSDS, b: MASSDS, i: ITEMNAME, c: CODER):
    d = Dataset()
    e = __fresh__(b)
    d += e
    return e.get(i, {}).get(c), i in e, c in e.coders


def merge_keeps_other_want(a, b, i, c):
    return b.get(i, {}).get(c), i in b, c in b.coders


@check('C21')
def merge_own_code(s: MASSES, r: MASSES):
    d = Dataset()
    e = Dataset({'i': {'x': s}})
    d += e
    d['i']['y'] = r
    d['j'] = {'x': r}
    return e['i'].get('y'), 'j' in e, 'y' in e.coders, d['i']['x'], d['i']['y'], 'x' in d.coders


def merge_own_want(s, r):
    return None, False, False, s, r, True


@check('C21')
def merge_prepend_code(a: MASSDS, b: MASSDS, p: STR, q: STR, i: ITEMNAME, c: CODER):
    d = Dataset()
    d.__iadd__(b, prepend_item=[p, q])
    key = ','.join([p, q, i])
    return d.get(key, {}).get(c), key in d, c in d.coders


def merge_prepend_want(a, b, p, q, i, c):
    return b.get(i, {}).get(c), i in b, any(c in x for x in b.values())


@check('C21')
def add_code(a: MASSDS, b: MASSDS, i: ITEMNAME, c: CODER):
    if conflict(a, b, i, c):
        return None
    d = __fresh__(a)
    e = d + b
    return e.get(i, {}).get(c), i in e


def add_want(a, b, i, c):
    if conflict(a, b, i, c):
        return None
    for item in b:
        for coder in b[item]:
            if item in a and coder in a[item]:
                raise DataIOError('x')
    v = b.get(i, {}).get(c)
    if v is None:
        v = a.get(i, {}).get(c)
    return v, i in a or i in b


@check('C21')
def add_attributes_code(a: MASSDS, b: MASSDS, c: CODER, k: PROPKEY):
    d = __fresh__(a)
    e = d + b
    return c in e.coders, e.properties.get(k), e.boundary_format, e.boundary_types


def add_attributes_want(a, b, c, k):
    for item in b:
        for coder in b[item]:
            if item in a and coder in a[item]:
                raise DataIOError('x')
    return c in a.coders or any(c in x for x in b.values()), a.properties.get(k), a.boundary_format, a.boundary_types


@check('C21')
def add_own_code(a: MASSDS, i: ITEMNAME, s: MASSES):
    d = __fresh__(a)
    e = d + Dataset()
    e[i]['new'] = s
    e.coders.add('new')
    e.properties['new'] = s
    return d.get(i, {}).get('new'), i in d, 'new' in d.coders, d.properties.get('new')


def add_own_want(a, i, s):
    return a.get(i, {}).get('new'), i in a, 'new' in a.coders, a.properties.get('new')


@check('C21')
def merge_own_any_code(b: MASSDS, i: ITEMNAME, s: MASSES):
    d = Dataset()
    e = __fresh__(b)
    d += e
    d[i]['new'] = s
    return e.get(i, {}).get('new'), i in e


def merge_own_any_want(b, i, s):
    return b.get(i, {}).get('new'), i in b


@check('C21')
def construct_own_any_code(m: MASSDATA, i: ITEMNAME, s: MASSES):
    d = Dataset(m)
    d[i]['new'] = s
    return i in d, d[i].get('new')


def construct_own_any_want(m, i, s):
    return True, s


@check('C21')
def add_keeps_code(a: MASSDS, b: MASSDS, i: ITEMNAME, c: CODER):
    for item in b:
        if any(conflict(a, b, item, x) for x in b[item]):
            return None
    d = __fresh__(a)
    e = d + b
    return d.get(i, {}).get(c), i in d, c in d.coders, d is e


def add_keeps_want(a, b, i, c):
    for item in b:
        if any(conflict(a, b, item, x) for x in b[item]):
            return None
    return a.get(i, {}).get(c), i in a, c in a.coders, False


@check('C21')
def copy_code(a: MASSDS, i: ITEMNAME, c: CODER, k: PROPKEY):
    d = __fresh__(a)
    e = d.copy()
    return (e.get(i, {}).get(c), i in e, c in e.coders, e.properties.get(k), e.boundary_format, e.boundary_types,
            isinstance(e, Dataset))


def copy_want(a, i, c, k):
    return (a.get(i, {}).get(c), i in a, c in a.coders, a.properties.get(k), a.boundary_format, a.boundary_types, True)


@check('C21')
def copy_own_values_code(s: MASSES, i: ITEMNAME, c: CODER):
    d = Dataset({i: {c: s}}, properties={'notes': ['x'], 'more': {'k': 1}})
    e = d.copy()
    e.properties['notes'].append('y')
    e.properties['more']['k'] = 2
    e.properties['more']['l'] = 3
    return d.properties['notes'], d.properties['more'], e.properties['notes'], e.properties['more']['k'], e.properties['more']['l']


def copy_own_values_want(s, i, c):
    return ['x'], {'k': 1}, ['x', 'y'], 2, 3


@check('C21')
def add_own_values_code(s: MASSES, i: ITEMNAME, c: CODER):
    d = Dataset({i: {c: s}}, properties={'notes': ['x'], 'more': {'k': 1}})
    e = d + Dataset()
    e.properties['notes'].append('y')
    e.properties['more']['k'] = 2
    return d.properties['notes'], d.properties['more'], e.properties['notes'], e.properties['more']['k']


def add_own_values_want(s, i, c):
    return ['x'], {'k': 1}, ['x', 'y'], 2


@check('C21')
def copy_own_code(a: MASSDS, s: MASSES, i: ITEMNAME, c: CODER, k: PROPKEY):
    d = __fresh__(a)
    e = d.copy()
    e[i]['new'] = s
    e['other'] = {c: s}
    e.coders.add(c)
    e.properties[k] = s
    e.boundary_types.add(99)
    return d.get(i, {}).get('new'), i in d, 'other' in d, c in d.coders, d.properties.get(k), 99 in d.boundary_types


def copy_own_want(a, s, i, c, k):
    return a.get(i, {}).get('new'), i in a, 'other' in a, c in a.coders, a.properties.get(k), 99 in a.boundary_types


@check('C21')
def coders_code(a: MASSDS, m: MASSDATA, c: CODER):
    return c in get_coders(m), c in get_coders(a)


def coders_want(a, m, c):
    return any(c in x for x in m.values()), c in a.coders


@check('C21')
def get_does_not_add_code(a: MASSDS, i: ITEMNAME, c: CODER):
    d = __fresh__(a)
    x = d.get(i)
    return x is None, i in d, len(d)


def get_does_not_add_want(a, i, c):
    return i not in a, i in a, len(a)


# -- merging under a prefix: every item is renamed, and only renamed
def under(p, i):
    return ','.join(list(p) + [i])


@check('C24', 'C21')
def merge_prefix_code(b: MASSDS, p: STRS, i: ITEMNAME, c: CODER):
    d = Dataset()
    d.__iadd__(b, prepend_item=p)
    return d.get(under(p, i), {}).get(c), under(p, i) in d, c in d.coders


def merge_prefix_want(b, p, i, c):
    return b.get(i, {}).get(c), i in b, any(c in x for x in b.values())
