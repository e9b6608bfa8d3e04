"""Reference interpretations of the functions that obligations abstract.

Used only to interpret uninterpreted symbols when two normal forms differ (see
teval.py); /repo is not consulted here.
"""
from fractions import Fraction
from itertools import permutations
import posixpath

from . import teval as te

_cache = {}


def _seq(x):
    if not isinstance(x, tuple) or not all(isinstance(s, frozenset) for s in x):
        raise te.Unknown('not a boundary string')
    return x


def bed(a, b, n):
    a, b = _seq(a), _seq(b)
    if not isinstance(n, int):
        raise te.Unknown('n_t')
    key = (a, b, n)
    if key not in _cache:
        _cache[key] = _bed(a, b, n)
    return _cache[key]


def _bed(a, b, n):
    if len(a) != len(b):
        raise te.Undef('lengths differ')
    opt = {i: (set(x ^ y), set(x - y), set(y - x)) for i, (x, y) in enumerate(zip(a, b)) if x != y}
    tra = []
    used = set()
    for w in range(1, n):
        for i in range(len(a) - w):
            j = i + w
            for d in sorted((a[i] ^ b[i]) & (a[j] ^ b[j]) & (a[i] ^ a[j]) & (b[i] ^ b[j])):
                if (i, d) in used or (j, d) in used:
                    continue
                if i in opt and j in opt and d in opt[i][0] and d in opt[j][0] and \
                        min(len(opt[i][1]), len(opt[i][2])) > 0 and min(len(opt[j][1]), len(opt[j][2])) > 0:
                    continue
                tra.append((i, j, d))
                used |= {(i, d), (j, d)}
                for k in (i, j):
                    for s in opt[k]:
                        s.discard(d)
    add, sub = [], []
    for d, x, y in opt.values():
        if len(x) > 5 or len(y) > 5:
            raise te.Unknown('too many types')
        best, pick = None, ()
        for p in permutations(sorted(x)):
            for q in permutations(sorted(y)):
                z = frozenset(zip(p, q))
                c = sum(abs(u - v) for u, v in z)
                if best is None or c < best:
                    best, pick = c, z
        gone = {u for z in pick for u in z}
        add += [(u, 'a') for u in sorted(x - gone)] + [(u, 'b') for u in sorted(y - gone)]
        sub += sorted(pick)
    return tuple(add), tuple(sub), tuple(tra)


def pos2mass(s):
    if not isinstance(s, tuple):
        raise te.Unknown('positions')
    out = []
    for i, x in enumerate(s):
        if i and x == s[i - 1]:
            out[-1] += 1
        else:
            out.append(1)
    return tuple(out)


def mass2pos(s):
    if not isinstance(s, tuple) or not all(isinstance(x, int) for x in s) or sum(s) > 200:
        raise te.Unknown('masses')
    return tuple(i + 1 for i, x in enumerate(s) for _ in range(x))


def mass2str(s):
    p = mass2pos(s)
    return tuple(frozenset([1]) if p[i] != p[i + 1] else frozenset() for i in range(len(p) - 1))


def nltk2mass(s, sym='1'):
    if not isinstance(s, str) or not isinstance(sym, str) or not sym:
        raise te.Unknown('string')
    return tuple(len(x) + 1 for x in s.split(sym))


def winsize(ref, rnd, fmt):
    if fmt == 'position':
        ref = pos2mass(ref)
    elif fmt != 'mass' or not isinstance(ref, tuple):
        raise te.Unknown('format')
    if not ref or not all(isinstance(x, int) for x in ref):
        return 2
    return max(2, round(Fraction(sum(ref), 2 * len(ref))))


def types(a, b):
    return frozenset(x for s in _seq(a) + _seq(b) for x in s)


READ = {'sets': _seq, 'mass': mass2str, 'position': lambda s: mass2str(pos2mass(s)), 'nltk': lambda s: mass2str(nltk2mass(s))}


def counts(*flat):
    b = dict(zip(flat[::2], flat[1::2]))
    d, o = b.get('dataset'), b.get('kwargs')
    if not isinstance(d, dict) or not isinstance(o, dict) or o.get('boundary_format') not in READ or \
            not isinstance(o.get('fnc_compare'), te.Fn) or o.get('return_parts') is not True:
        raise te.Unknown('agreement')
    f = o['fnc_compare']
    kw = {k: v for k, v in o.items() if k != 'fnc_compare'}
    coders = []
    for it in d.values():
        coders += [c for c in it if c not in coders]
    coders.sort()
    num, den, pbs, cod = [], [], [], te.FD()
    for i, m in enumerate(coders):
        for n in coders[i + 1:]:
            for it in d.values():
                if m not in it or n not in it:
                    continue
                x, y = f(it[m], it[n], *te.options(kw))[:2]
                a, b = [READ[o['boundary_format']](it[c]) for c in (m, n)]
                p = len(a) * len(types(a, b))
                num.append(x)
                den.append(y)
                pbs.append(p)
                for c in (m, n):
                    cod[c] = cod.get(c, ()) + ((sum(len(s) for s in (a if c == m else b)), p),)
    return tuple(num), tuple(den), tuple(pbs), cod


def bare(x):
    if isinstance(x, dict):
        return te.FD((k, bare(v)) for k, v in x.items())
    return x


def pick(key, *xs):
    return xs[te.h64(key) % len(xs)]


def text(path):
    return 'text of ' + path


def a_document(t):
    """Data in the JSON text t."""
    out = te.FD()
    if te.h64('t', t) % 8:
        out['segmentation_type'] = pick(('st', t), 'linear', 'linear', 'linear', 'linear', 'linear', 'linear', 'linear', 'linear', 'nonlinear', 'Linear', 'linear-x', ' linear')
    for k in te.names(('k', t), 'k1', 'k2'):
        if te.h64(k, t) % 2:
            out[k] = pick((k, 'v', t), 1, 'x', True, 1, 'x', True, None, 0, '')
    if te.h64('i', t) % 8:
        out['items'] = te.FD((i, te.FD((c, tuple(1 + te.h64('m', t, i, c, j) % 4 for j in range(te.size(('n', t, i, c), 4))))
                                       for c in te.names(('c', t), 'c1', 'c2', 'c3', 'c4', ' c1', 'C2') if te.h64('c', t, i, c) % 2))
                             for i in te.names(('i', t), 'i1', 'i2', 'i3', 'i4', 'i1 ', 'I2') if te.h64('i', t, i) % 2)
    return out


def a_table(t, delim):
    """Rows of the delimited text t."""
    if not isinstance(t, str):
        raise te.Unknown('text')
    k = (t, delim)
    rows = [('c2' if te.h64('z', k) % 3 == 0 else '',) + tuple(('%d' if te.h64('hd', k) % 2 else 's%d') % (i + 1) for i in range(te.size(('w', k), 4)))]
    for r in range(te.size(('r', k), 5)):
        if te.h64('e', k, r) % 6 == 0:
            rows.append(())
        else:
            c = 'c%d' % (1 + (r if te.h64('u', k) % 4 else te.h64('c', k, r) % 3))
            if te.HINTS and te.h64('hn', k, r) % 3 == 0:
                c = te.names((k, r), c)[-1]
            if te.h64('s', k, r) % 7 == 0:
                c = ' ' + c
            rows.append((c,) + tuple(str(te.h64('x', k, r, j) % 9) for j in range(te.size(('n', k, r), 4))))
    return tuple(rows)


def ext(name, *args):
    if name in ('os.path.join', 'os.path.splitext', 'os.path.split'):
        if not all(isinstance(a, str) for a in args):
            raise te.Unknown('path')
        return getattr(posixpath, name.split('.')[-1])(*args)
    if name in ('os.path.isdir', 'os.path.isfile', 'os.path.exists'):
        d = te.h64('dir', args) % 2 == 0
        return d if name.endswith('isdir') else not d if name.endswith('isfile') else True
    if name == 'os.listdir':
        return frozenset(x for x in te.names(args, 'a.tsv', 'B.JSON', 'x', 'd1', '.tsv', 'a.b.csv', 'k.jsn', 'e.json', 'T.Tsv') if '/' not in x and te.h64('ls', args, x) % 2)
    raise te.Unknown(name)


def itemname(p):
    n = posixpath.split(p)[1]
    return posixpath.splitext(n)[0] or n


FNS = {
    'text': text, 'isjson': lambda t: te.h64('json', t) % 8 > 0, 'json': a_document, 'csv': a_table, 'ext': ext,
    'jsontext': lambda d: 'JSON ' + te.canon(bare(d)),
    'agree_num': lambda *a: counts(*a)[0], 'agree_den': lambda *a: counts(*a)[1],
    'agree_pbs': lambda *a: counts(*a)[2], 'agree_cod': lambda *a: counts(*a)[3],
    'types': types, 'itemname': itemname,
    'winsize': winsize,
    'bed_add': lambda a, b, n: bed(a, b, n)[0],
    'bed_sub': lambda a, b, n: bed(a, b, n)[1],
    'bed_tra': lambda a, b, n: bed(a, b, n)[2],
    'pos2mass': pos2mass, 'mass2pos': mass2pos, 'mass2str': mass2str, 'nltk2mass': nltk2mass,
}
