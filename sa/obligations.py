"""Equivalence obligations.

A file under /verif/specs holds pairs of functions X_code / X_want over the same
typed parameters.  Neither is executed: both are read by the same value-graph
analysis (interp.py) that reads /repo, so X_code's normal form is computed from
the current source of /repo and X_want's from the specification.  Identical
normal forms discharge the obligation for every value of the parameters.
"""
import ast
import os
import posixpath
import random
import signal
import time
import zlib
from fractions import Fraction

from . import terms as tm
from . import teval as te
from .interp import Interp, V, K, BOTV, mapseq
from .kinds import of_ty, INTK, STRK
from .program import Program
from .reference import FNS
from .terms import const, var, concat, one, show, TooBig, ite, STR, NUM, ANY

REPO = os.environ.get('SEGEVAL_REPO', '/repo')
SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs')

# ---------------------------------------------------------------- parameters
MASSES = ('seq', ('int', 1))
SETS = ('seq', ('set', ('int', 1)))
TYPES = {
    'MASSES': MASSES, 'POSITIONS': ('seq', ('int', 1)), 'STRING': SETS, 'NLTK': STR,
    'WINDOW': ('int', 1), 'NAT': ('int', 0), 'INT': ('int', None), 'NUM': NUM, 'NUMS': ('seq', NUM),
    'STR': STR, 'PATH': STR, 'DELIM': STR, 'FILETYPE': STR, 'ENTRY': STR, 'PREFIX': ('seq', STR), 'DIR': STR,  'STRS': ('seq', STR), 'ROWS': ('seq', ('seq', STR)), 'ANY': ANY, 'BOOL': ('bool',), 'FN': ('fn', NUM), 'FN2': ('fn', ('tup', NUM, NUM)),
    'TYPESET': ('set', ('int', 1)), 'CM': ('cm', ANY, ANY), 'CMS': ('dict', STR, ('cm', ANY, ANY)),
    'SCORES': ('dict', STR, NUM),
    'SUBS': ('seq', ('tup', ('int', 1), ('int', 1))),
    'TRANS': ('seq', ('tup', ('int', 0), ('int', 0), ('int', 1))),
    'ADDS': ('seq', ('tup', ('int', 1), STR)),
    'MASSDATA': ('dict', STR, ('dict', STR, MASSES)),
    'POSDATA': ('dict', STR, ('dict', STR, MASSES)), 'NLTKDATA': ('dict', STR, ('dict', STR, STR)),
    'SETDATA': ('dict', STR, ('dict', STR, SETS)),
    'INTDATA': ('dict', STR, ('dict', ('int', 1), SETS)),
    'MASSDS': ('dataset', STR, ('dict', STR, MASSES)),
    'SETDS': ('dataset', STR, ('dict', STR, SETS)),
    'ITEM': ('dict', STR, MASSES),
    'PROPS': ('dict', STR, ANY),
    'CLASS': STR, 'FORMAT': STR, 'ITEMNAME': STR, 'CODER': STR, 'PROPKEY': STR, 'POSINT': ('int', 1),
    'ROUND': ('fn', ('int', None)),
}


def param(name, tyname):
    ty = TYPES[tyname]
    k = None
    if tyname in ('MASSES', 'POSITIONS'):
        k = K('tuple', INTK)
    elif tyname == 'STRING':
        k = K('tuple', K('set', INTK))
    elif tyname == 'NUMS':
        k = K('list', K('dec'))
    elif tyname in ('PREFIX', 'STRS'):
        k = K('list', of_ty(ty[1]))
    elif tyname == 'TYPESET':
        k = K('set', INTK)
    elif ty[0] == 'fn':
        k = None
    else:
        k = of_ty(ty)
    return V(var(name, ty), k)


# ---------------------------------------------------------------- samples
SIZES = [None]


def upto(rng, lo, hi, most=None):
    """A number from lo to hi, or about the size of interest."""
    if SIZES[0] is not None and rng.random() < .5:
        n = SIZES[0] + rng.randint(-1, 2)
        return max(lo, n if most is None else min(n, most))
    return rng.randint(lo, hi)


def segment(rng, n):
    out = []
    top = rng.choice([2, 4, n, n] if SIZES[0] is None else [1, 2, 4, n])
    while n > 0:
        k = min(n, rng.randint(1, max(1, top)))
        out.append(k)
        n -= k
    return tuple(out)


def hinted(rng, tyname, base):
    """A string like the given one that a comparison in the terms at hand may tell from it."""
    h = rng.choice(te.HINTS)
    if tyname in ('PATH', 'ENTRY', 'DIR'):
        d, b = posixpath.split(base)
        stem, ext = posixpath.splitext(b)
        if '/' in h:
            return base
        return posixpath.join(d, rng.choice([h + b, stem + h + ext, h, b + h]))
    return rng.choice([h, h + base, base + h])


HINTED = ('STR', 'PATH', 'ENTRY', 'DIR', 'ITEMNAME', 'CODER', 'PROPKEY', 'CLASS')
LOOSE = [False]


def sample(rng, tyname, n, shared):
    v = sample_plain(rng, tyname, n, shared)
    if te.HINTS and tyname in HINTED and rng.random() < .25:
        return hinted(rng, tyname, v)
    return v


def sample_plain(rng, tyname, n, shared):
    if tyname == 'MASSES':
        return segment(rng, n)
    if tyname == 'POSITIONS':
        m = segment(rng, n)
        if rng.random() < .5:
            return tuple(i + 1 for i, x in enumerate(m) for _ in range(x))
        labels = [rng.choice([1, 2, 3, 7, 300]) for _ in m]
        return tuple(labels[i] for i, x in enumerate(m) for _ in range(x))
    if tyname == 'NLTK':
        return ''.join(rng.choice(rng.choice(['001', '001', '01', '1110', '01 x'])) for _ in range(n)) if SIZES[0] is None else ''.join(rng.choice('1110') for _ in range(n * 2))
    if tyname == 'STRING':
        d = rng.choice([.1, .35, .35, .6])
        ts = rng.choice([(1,), (1, 2), (1, 2, 3), (1, 2, 3), (1, 2, 3, 7)])
        return tuple(frozenset(x for x in ts if rng.random() < d) for _ in range(n))
    if tyname == 'WINDOW':
        return upto(rng, 1, 4) if rng.random() < .75 else rng.randint(1, n + 2)
    if tyname == 'NAT':
        return upto(rng, 0, 4)
    if tyname == 'INT':
        return upto(rng, -3, 4)
    if tyname == 'NUM':
        return te.norm(Fraction(upto(rng, -6, 9), rng.randint(1, 3)))
    if tyname == 'NUMS':
        return tuple(te.norm(Fraction(rng.randint(-6, 9), rng.randint(1, 3))) for _ in range(upto(rng, 0, 4)))
    if tyname == 'POSINT':
        return upto(rng, 1, 4)
    if tyname == 'STR':
        return rng.choice(['a', 'b', 's1', ''])
    if tyname == 'PATH':
        d = rng.choice(['', 'd/', 'd.e/', '/a/d/'])
        return rng.choice([d + '%d.tsv', d + 'i%d.tsv', d + 'i%d.tsv', d + 'x.i%d.json', d + 'n%d', d + '.t%d']) % rng.randint(1, 4)
    if tyname == 'DIR':
        return rng.choice(['d', 'd.e', '/a/d', '/a/d/', 'e', 'f', 'g/h'] + ['d%d' % rng.randint(1, 99)] * 3)
    if tyname == 'FILETYPE':
        return rng.choice(['tsv', 'json'])
    if tyname == 'ENTRY' and te.HINTS:
        d = [v for v in shared.values() if isinstance(v, str) and v not in ('tsv', 'json')][:1]
        ls = sorted(FNS['ext']('os.listdir', *d)) if d else []
        if rng.random() < .6:
            ls = [x for x in ls if any(h in x for h in te.HINTS)] or ls
        if ls and rng.random() < .9:
            return posixpath.join(d[0], rng.choice(ls))
    if tyname == 'ENTRY':
        return posixpath.join(*[v for v in shared.values() if isinstance(v, str) and v not in ('tsv', 'json')][:1] +
                              [rng.choice(['a.tsv', 'B.JSON', 'x', 'd1', '.tsv', 'a.b.csv', 'k.jsn', 'e.json', 'T.Tsv'])])
    if tyname == 'PREFIX':
        p = [v for v in shared.values() if isinstance(v, tuple)][:1]
        p = p[0] if p else ()
        return p if rng.random() < .4 else p + (rng.choice([posixpath.basename(v) for v in shared.values() if isinstance(v, str)]),)
    if tyname == 'STRS':
        return tuple(rng.choice('xyz') for _ in range(upto(rng, 0, 2)))
    if tyname == 'DELIM':
        return rng.choice(['\t', ',', ' '])
    if tyname == 'ITEMNAME':
        return rng.choice(['i1', 'i2', 'i3', 'i4', 'i1', 'i2', 'i3', 'i4', 'i1 ', 'I2'])
    if tyname == 'CODER':
        return rng.choice(['c1', 'c2', 'c3', 'c4', 'c1', 'c2', 'c3', 'c4', ' c1', 'C2'])
    if tyname == 'PROPKEY':
        return rng.choice(['k1', 'k2', 'k3', 'items', 'segmentation_type'])
    if tyname == 'FORMAT':
        return rng.choice(['mass', 'position', 'sets', 'nltk'])
    if tyname == 'CLASS':
        return rng.choice(['a', 'b', 'c'])
    if tyname == 'ANY':
        return rng.choice(['a', 'b', None, 1, 2, 3])
    if tyname == 'CM':
        cs = ['a', 'b', 'c', 'd'][:rng.randint(0, 4)] if SIZES[0] is None else ['c%d' % i for i in range(upto(rng, 0, 4, 30))]
        out = te.FD()
        for p in cs:
            r = te.FD((a, rng.choice([0, 1, 1, 2, 5])) for a in cs if rng.random() < .5)
            if r or rng.random() < .1:
                out[p] = r
        return out
    if tyname == 'CMS':
        return te.FD((k, sample(rng, 'CM', n, shared)) for k in 'pqr' if rng.random() < .7)
    if tyname == 'PROPS':
        return te.FD((k, rng.choice([1, 'x', True, 1, 'x', None, 0, ''])) for k in ('k1', 'k2', 'items') if rng.random() < .5)
    if tyname == 'BOOL':
        return rng.random() < .5
    if TYPES[tyname][0] == 'fn':
        return te.Fn('f%d' % rng.randint(0, 9), TYPES[tyname][1], symmetric=tyname == 'FN2')
    if tyname == 'TYPESET':
        return frozenset(x for x in range(1, 6) if rng.random() < .4)
    if tyname == 'SUBS':
        return tuple((rng.randint(1, 4), rng.randint(1, 4)) for _ in range(upto(rng, 0, 3)))
    if tyname == 'TRANS':
        return tuple((i, i + rng.randint(1, 3), rng.randint(1, 3)) for i in range(upto(rng, 0, 3)))
    if tyname == 'ADDS':
        return tuple((rng.randint(1, 4), rng.choice('ab')) for _ in range(upto(rng, 0, 3)))
    if tyname == 'SCORES':
        return te.FD((k, te.norm(Fraction(rng.randint(-5, 9), rng.randint(1, 3)))) for k in (list('pqr') if SIZES[0] is None else ['p%d' % i for i in range(upto(rng, 0, 4))]) if rng.random() < .7)
    if tyname in ('MASSDATA', 'POSDATA', 'NLTKDATA', 'SETDATA', 'MASSDS', 'SETDS'):
        out = te.DS() if tyname.endswith('DS') else te.FD()
        one_ = {'MAS': 'MASSES', 'POS': 'POSITIONS', 'NLT': 'NLTK', 'SET': 'STRING'}[tyname[:3]]
        many = SIZES[0] is not None and rng.random() < .5
        cs = [c for c in (rng.choice([('c1', 'c2', 'c3')] * 3 + [('c4', 'c3', ' c1')]) if not many else ['c%d' % (i + 1) for i in range(min(SIZES[0] + 1, 9))]) if rng.random() < .8]
        for it in (('i1', 'i2', 'i3') if SIZES[0] is None or many else ['i%d' % (i + 1) for i in range(min(SIZES[0] + 1, 12))]):
            if rng.random() < .7:
                m = upto(rng, 1, 5) if one_ != 'STRING' or rng.random() < .9 else 0
                mine = cs if rng.random() < .75 else cs[:-1] if rng.random() < .5 else []
                out[it] = te.FD((c, sample(rng, one_, m, shared)) for c in mine)
        if tyname.endswith('DS'):
            out.attrs = te.FD(boundary_format=rng.choice(['mass', 'position', 'other'] if one_ == 'MASSES' else ['sets', 'sets', 'other']),
                              coders=frozenset(c for v in out.values() for c in v if not LOOSE[0] or rng.random() < .8),
                              boundary_types=frozenset(x for x in (1, 2, 3) if rng.random() < .5),
                              properties=sample(rng, 'PROPS', n, shared))
        return out
    if tyname == 'INTDATA':
        return te.FD((i, te.FD((te.h64('coder', c) % 99 + 1, s) for c, s in v.items())) for i, v in sample(rng, 'SETDATA', n, shared).items())
    if tyname == 'ITEM':
        return te.FD((c, segment(rng, rng.randint(1, 4))) for c in ('c1', 'c2') if rng.random() < .8)
    return None


SEGS = ('MASSES', 'POSITIONS', 'NLTK', 'STRING')


def constants(t):
    """Numbers a term compares with or counts to."""
    out = set()
    for x in tm.subterms(t):
        if x.op == 'num':
            out.add(abs(x.a[0]) // x.a[1])
        elif x.op == 'poly':
            out.update(abs(k[0]) // k[1] for _, k in x.a)
        elif x.op in ('le', 'lt', 'eqp'):
            out.update(abs(k[0]) // k[1] for k in x.a if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int))
    return out


def strings(t):
    """Short strings a term compares with or looks for."""
    return set(x.a[1] for x in tm.subterms(t) if x.op == 'const' and isinstance(x.a[1], str) and 0 < len(x.a[1]) <= 12)


def thresholds(ct, wt):
    """Sizes at which the two terms may begin to differ."""
    return sorted(x for x in constants(ct) ^ constants(wt) if 3 <= x <= 3000)


def samples(params, rng, size=None):
    n = rng.randint(1, 6) if rng.random() < .8 else rng.choice([rng.randint(7, 12), rng.randint(13, 40)])
    if size is not None and rng.random() < .6:
        n = max(1, size + rng.randint(-1, 3))
    te.SIZE[0] = SIZES[0] = size if size is not None and rng.random() < .8 else None
    vals = {}
    for name, ty in params:
        m = n
        if ty in SEGS and rng.random() < .12:
            m = max(0, n + rng.choice([-1, 1, 2]))
        v = sample(rng, ty, m, vals)
        if v is None and ty not in ('ANY',):
            return None
        vals[name] = v
    return vals


# ---------------------------------------------------------------- abstraction
MB = 'segeval.similarity.distance.multipleboundary'


def arguments(ip, o, names, args, kwargs, st, node):
    b = ip.bind(o, args, kwargs, st, node)
    if b is None:
        ip.raise_('TypeError', st, node)
        return None
    out = []
    for n in names:
        if n not in b:
            return None
        x = b[n][1] if isinstance(b[n], tuple) else b[n]
        out.append(ip.pure(x.t, st))
    return out


def positional(o):
    return [a.arg for a in o.node.args.args]


def bed_hook(ip, o, args, kwargs, st, node):
    t = arguments(ip, o, positional(o)[:3], args, kwargs, st, node)
    if t is None:
        return BOTV
    A = tm.app('bed_add', t, ('seq', ('tup', ('int', 1), STR)))
    S = tm.app('bed_sub', t, ('seq', ('tup', ('int', 1), ('int', 1))))
    X = tm.app('bed_tra', t, ('seq', ('tup', ('int', 0), ('int', 0), ('int', 1))))
    ks = (K('list', K('tuple', None, (INTK, STRK))), K('list', K('tuple', None, (INTK, INTK))),
          K('list', K('tuple', None, (INTK, INTK, INTK))))
    return V(concat([one(A), one(S), one(X)]), K('tuple', None, ks))


def conv_hook(name, ty, k):
    def h(ip, o, args, kwargs, st, node):
        names = positional(o)
        t = arguments(ip, o, names, args, kwargs, st, node)
        if t is None:
            return BOTV
        return V(tm.app(name, t, ty), k)
    return h


def window_hook(ip, o, args, kwargs, st, node):
    t = arguments(ip, o, positional(o), args, kwargs, st, node)
    if t is None:
        return BOTV
    return V(tm.app('winsize', t, ('int', 2)), INTK)


def metric_hook(ip, o, args, kwargs, st, node):
    """A pair metric as an uninterpreted function of all it is given."""
    b = ip.bind(o, args, kwargs, st, node)
    if b is None:
        ip.raise_('TypeError', st, node)
        return BOTV
    flat = []
    for n in sorted(b):
        x = b[n][1] if isinstance(b[n], tuple) else b[n]
        flat += [const(n), ip.pure(x.t, st)]
    return V(tm.app('metric:' + o.qual.split(':')[-1], flat), None)


def agree_hook(ip, o, args, kwargs, st, node):
    """Actual agreement's parts as uninterpreted functions of all it is given."""
    b = ip.bind(o, args, kwargs, st, node)
    if b is None:
        ip.raise_('TypeError', st, node)
        return BOTV
    flat = []
    for n in sorted(b):
        x = b[n][1] if isinstance(b[n], tuple) else b[n]
        flat += [const(n), ip.pure(x.t, st)]
    N = K(['int', 'dec'])
    parts = [tm.app('agree_num', flat, ('seq', NUM)), tm.app('agree_den', flat, ('seq', NUM)), tm.app('agree_pbs', flat, ('seq', ('int', 0))),
             tm.app('agree_cod', flat, ('dict', STR, ('seq', ('tup', ('int', 0), ('int', 0)))))]
    ks = (K('list', N), K('list', N), K('list', INTK), K('dict', K('list', K('list', INTK))))
    return V(concat([one(x) for x in parts]), K('tuple', None, ks))


# Loading of directories: what is merged into a dataset is a list of (kind, file type, path, prefix) entries.
def ledgers(ip, v, st, node):
    """[(condition, reference of the list of entries)] of a dataset that may be one of several."""
    out = []
    for x in tm.leaves(v.t):
        c = tm.lift(lambda y: tm.TRUE if y is x else tm.FALSE, v.t)
        cell = st.heap.get(x.a[0]) if x.op == 'ref' else None
        g = cell.d.get('$ledger') if cell is not None and cell.kind == 'dataset' and cell.d else None
        if g is None:
            return None
        out.append((c, g.t))
    return out


def entries(ip, v, st, node):
    gs = ledgers(ip, v, st, node)
    if gs is None:
        ip.note('merge of an unknown dataset', node)
        return tm.EMPTY
    t = tm.EMPTY
    for c, g in gs:
        t = ite(c, st.heap[g.a[0]].t, t)
    return t


def record(ip, v, t, st, node):
    gs = ledgers(ip, v, st, node)
    if gs is None:
        ip.note('contribution to an unknown dataset', node)
        return
    for c, g in gs:
        cell = st.heap[g.a[0]]
        st.heap[g.a[0]] = cell.but(t=ite(c, concat([cell.t, t]), cell.t))


def entry(kind, ft, path, prefix):
    return one(concat([one(const(kind)), one(ft), one(path), one(prefix)]))


def prefix_of(ip, v, st):
    if v is None:
        return tm.EMPTY
    return tm.lift(lambda x: tm.EMPTY if x is tm.NONE_T else x, ip.pure(v.t, st) if v.t is tm.NONE_T else ip.pure(ip.iterterm(v, st), st))


def blank(ip, st, node):
    return ip.call(ip.globalv('segeval.data', 'Dataset'), [], {}, st, node)


def init_hook(ip, o, args, kwargs, st, node):
    r = ip.call_user(o, args, kwargs, st, node)
    if len(args) > 1 or kwargs:
        ip.note('dataset created with content', node)
    x, c = ip.single_ref(args[0], st)
    if c is not None:
        g = ip.newlist(st, tm.EMPTY)
        c = st.heap[x.a[0]]
        st.heap[x.a[0]] = c.but(d=dict(c.d or {}, **{'$ledger': g}))
    return r


def iadd_hook(ip, o, args, kwargs, st, node):
    b = ip.bind(o, args, kwargs, st, node)
    if b is None:
        ip.raise_('TypeError', st, node)
        return BOTV
    names = positional(o)
    p = prefix_of(ip, b.get(names[2]) if len(names) > 2 else None, st)

    def under(x):
        def f(e):
            return concat([one(tm.at(e, tm.num(i))) for i in range(3)] + [one(concat([p, tm.at(e, tm.num(3))]))])
        es = tm.ones(x)
        return concat([one(f(e)) for e in es]) if es else tm.EMPTY if es is not None else mapseq(x, f)
    t = tm.lift(under, entries(ip, b[names[1]], st, node))
    record(ip, b[names[0]], t, st, node)
    return b[names[0]]


def read_hook(ft):
    def h(ip, o, args, kwargs, st, node):
        b = ip.bind(o, args, kwargs, st, node)
        if b is None:
            ip.raise_('TypeError', st, node)
            return BOTV
        names = positional(o)
        for n in names[1:]:
            if n in b and not tm.isconst(b[n].t):
                ip.note('option of a reader', node)
        d = blank(ip, st, node)
        record(ip, d, entry('file', const(ft), ip.pure(b[names[0]].t, st), tm.EMPTY), st, node)
        return d
    return h


def tree_hook(ip, o, args, kwargs, st, node):
    if o.qual not in ip.stack:
        return ip.call_user(o, args, kwargs, st, node)
    b = ip.bind(o, args, kwargs, st, node)
    if b is None:
        ip.raise_('TypeError', st, node)
        return BOTV
    n = positional(o)
    t = entry('tree', ip.pure(b[n[1]].t, st), ip.pure(b[n[0]].t, st), prefix_of(ip, b[n[3]], st))
    d = b[n[2]]
    if d.t is tm.NONE_T:
        d = blank(ip, st, node)
    record(ip, d, t, st, node)
    return d


FORMAT = 'segeval.format'
HOOKS = {
    'm_pk': ('segeval.window.pk', '__pk__', metric_hook),
    'm_wd': ('segeval.window.windowdiff', '__window_diff__', metric_hook),
    'm_b': ('segeval.similarity.boundary', '__boundary_similarity__', metric_hook),
    'm_s': ('segeval.similarity.segmentation', '__segmentation_similarity__', metric_hook),
    'm_cm': ('segeval.similarity', '__boundary_confusion_matrix__', metric_hook),
    'm_st': ('segeval.similarity', '__boundary_statistics__', metric_hook),
    'types': ('segeval.similarity.distance', 'identify_types', conv_hook('types', ('set', ('int', 1)), K('frozenset', INTK))),
    'agree': ('segeval.agreement', '__actual_agreement_linear__', agree_hook),
    'window': ('segeval.window', '__compute_window_size__', window_hook),
    'bed': (MB, 'boundary_edit_distance', bed_hook),
    'd_init': ('segeval.data', '__init__', init_hook), 'd_iadd': ('segeval.data', '__iadd__', iadd_hook),
    'd_json': ('segeval.data.jsonutils', 'input_linear_mass_json', read_hook('json')),
    'd_tsv': ('segeval.data.tsv', 'input_linear_mass_tsv', read_hook('tsv')),
    'd_tree': ('segeval.data', 'load_nested_folders_dict', tree_hook),
    'itemname': ('segeval.data', 'name_from_filepath', conv_hook('itemname', STR, STRK)),
    'pos2mass': (FORMAT, 'convert_positions_to_masses',
                 conv_hook('pos2mass', MASSES, K('tuple', INTK))),
    'mass2pos': (FORMAT, 'convert_masses_to_positions',
                 conv_hook('mass2pos', MASSES, K('tuple', INTK))),
    'nltk2mass': (FORMAT, 'convert_nltk_to_masses',
                  conv_hook('nltk2mass', MASSES, K('tuple', INTK))),
    'mass2str': (FORMAT, 'boundary_string_from_masses',
                 conv_hook('mass2str', SETS, K('tuple', K('frozenset', INTK)))),
}
GROUPS = {'metrics': ['m_pk', 'm_wd', 'm_b', 'm_s', 'm_cm', 'm_st'], 'bed': ['bed'], 'loads': ['d_init', 'd_iadd', 'd_json', 'd_tsv', 'd_tree'], 'conv': ['pos2mass', 'mass2pos', 'nltk2mass', 'mass2str']}


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


class Context(object):
    """One parsed program with its specifications."""

    def __init__(self, root=None):
        self.root = root or REPO
        extra = []
        self.specs = {}
        for f in sorted(os.listdir(SPECS)):
            if f.endswith('.py') and not f.startswith('_'):
                extra.append(('specs.' + f[:-3], os.path.join(SPECS, f)))
        self.prog = Program(self.root, extra=extra)
        self.obl = []
        for name, path in extra:
            self.collect(name)
        assert len(set(o.base() for o in self.obl)) == len(self.obl)
        self.ip = Interp(self.prog)
        for m in sorted(self.prog.modules):
            self.ip.load(m)
        self.modnotes = dict(self.ip.notes)

    def collect(self, mod):
        tree = self.prog.modules[mod][1]
        fns = {}
        for s in tree.body:
            if isinstance(s, ast.FunctionDef):
                s.meta = None
                for d in s.decorator_list:
                    if isinstance(d, ast.Call) and d.func.id == 'check':
                        s.meta = {'props': [a.value for a in d.args],
                                  **{k.arg: ast.literal_eval(k.value) for k in d.keywords}}
                s.decorator_list = []
                s.params = []
                for a in s.args.args:
                    s.params.append((a.arg, a.annotation.id if a.annotation is not None else None))
                    a.annotation = None
                fns[s.name] = s
        for n, s in fns.items():
            if s.meta is not None:
                assert n.endswith('_code'), n
                self.obl.append(Obligation(mod, n[:-5], s.params, s.meta, n[:-5] + '_want' in fns))

    def run(self, mod, fn, params, abstract, nodiv=False):
        ip = self.ip
        ip.nodiv = nodiv
        ip.hooks.clear()
        for g in abstract:
            for h in GROUPS.get(g, [g]):
                m, f, hook = HOOKS[h]
                ip.hooks[m + ':' + f] = hook
        ip.notes.clear()
        ip.events.clear()
        ip.entered.clear()
        try:
            return ip.run(mod, fn, [param(n, t) for n, t in params])
        finally:
            ip.hooks.clear()


def flatten_exc(t):
    """All exceptions alike (used where the statement only says 'refused')."""
    return tm.lift(lambda x: tm.mk('exc', ('Exception',)) if x.op == 'exc' else x, t)


EVENTS = ('mutation', 'autoinsert', 'dsread', 'float2dec', 'mixed', 'globalwrite', 'partial', 'shared')


def kinds_in(k, depth=0):
    """Classes that may occur in a value."""
    out = set()
    if k is None or depth > 6:
        return out
    out |= set(k.b)
    for x in [k.e] + list(k.items or ()):
        if x is not None:
            out |= kinds_in(x, depth + 1)
    return sorted(out) if depth == 0 else out


class Outcome(object):
    def __init__(self, status, why='', **kw):
        self.status, self.why = status, why
        self.info = kw


class Obligation(object):
    def __init__(self, mod, name, params, meta, paired=True):
        self.mod, self.name, self.params, self.meta, self.paired = mod, name, params, meta, paired
        self.props = meta['props']

    def run(self, ctx, limit=60, nsamples=1200):
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(limit))
        t0 = time.time()
        try:
            o = self.decide(ctx, nsamples)
        except Timeout:
            o = Outcome('undetermined', 'time limit')
        except (TooBig, RecursionError) as e:
            o = Outcome('undetermined', 'normal form too large (%s)' % e)
        except LookupError as e:
            o = Outcome('undetermined', 'not analysable: %s' % e)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            o = Outcome('undetermined', 'analysis gave up: %r at %s:%s' % (e, os.path.basename(tb.filename), tb.lineno))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        o.info['seconds'] = round(time.time() - t0, 2)
        o.info.setdefault('visited', sorted(ctx.ip.entered))
        o.info['facts'] = getattr(self, 'facts', None)
        return o

    def decide(self, ctx, nsamples):
        ab = self.meta.get('abstract', [])
        ctx.ip.budget = self.meta.get('budget', 400000)
        tm.LIMIT[0] = tm._created[0] + ctx.ip.budget
        tm.number_from(self.base())
        c = ctx.run(self.mod, self.name + '_code', self.params, ab, self.meta.get('nodiv', False))
        visited = sorted(q for q in ctx.ip.entered if not q.startswith('specs.'))
        notes = dict(ctx.ip.notes)
        self.facts = {'kind': repr(c.k), 'kinds': kinds_in(c.k),
                      'events': [{'kind': e['kind'], 'file': e['file'], 'line': e['line'], 'func': e['func'],
                                  'root': str(e.get('root', e.get('site', ''))), 'what': str(e.get('what', ''))}
                                 for e in ctx.ip.events.values() if e['kind'] in EVENTS]}
        w = ctx.run(self.mod, self.name + '_want', self.params, ab, self.meta.get('nodiv', False))
        wnotes = dict(ctx.ip.notes)
        ct, wt = tm.strip_shallow(c.t), tm.strip_shallow(w.t)
        if not self.meta.get('strict'):
            ct, wt = flatten_exc(ct), flatten_exc(wt)
        if self.meta.get('unordered'):
            pass
        if ct is wt and not notes and not wnotes and not ct.opq:
            return Outcome('held', visited=visited, size=ct.size)
        if notes or wnotes:
            n = notes or wnotes
            return Outcome('undetermined', 'outside the analysed fragment: %s' % sorted(n)[:3], visited=visited)
        wit = self.witness(ctx, ct, wt, nsamples)
        if wit is None and self.again(ctx, ab, ct, wt):
            return Outcome('held', visited=visited, size=ct.size)
        if wit is None:
            return Outcome('undetermined', 'normal forms differ but no distinguishing interpretation%s' % (' (opaque)' if ct.opq or wt.opq else ''),
                           visited=visited, code=show(ct)[:2000], want=show(wt)[:2000])
        return Outcome('violation', 'normal forms differ', visited=visited, witness=wit,
                       code=show(ct)[:4000], want=show(wt)[:4000])

    def base(self):
        return 1000000 * (1 + zlib.crc32((self.mod + self.name).encode()) % 4000037)

    def again(self, ctx, ab, ct, wt):
        """Normal forms may depend on the numbering of bound variables: compare under others."""
        cs, ws = {ct}, {wt}
        for n in range(1, 4):
            tm.number_from(self.base() + 250007 * n)
            for names, out in (('_code', cs), ('_want', ws)):
                t = ctx.run(self.mod, self.name + names, self.params, ab, self.meta.get('nodiv', False)).t
                if ctx.ip.notes or t.opq:
                    return False
                out.add(t if self.meta.get('strict') else flatten_exc(t))
            if cs & ws:
                return True
        return False

    def witness(self, ctx, ct, wt, nsamples):
        rng = random.Random(7)
        fns = FNS
        sizes = thresholds(ct, wt)
        te.HINTS[:] = sorted(strings(ct) ^ strings(wt))[:8]
        LOOSE[0] = self.meta.get('loose', False)
        stop = time.time() + 12 + (6 if sizes else 0)
        for i in range(nsamples * (2 if sizes else 1)):
            if time.time() > stop:
                break
            vals = samples(self.params, rng, sizes[i // 2 % len(sizes)] if sizes and i % 2 else None)
            if vals is None:
                return None
            a, x = te.evaluate(ct, vals, fns)
            if a != 'val':
                continue
            b, y = te.evaluate(wt, vals, fns)
            if b != 'val':
                continue
            if self.meta.get('multiset'):
                pass
            if not te.equal(x, y):
                return {'arguments': {k: repr(v) for k, v in vals.items()}, 'code': repr(x), 'expected': repr(y)}
        return None
