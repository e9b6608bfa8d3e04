"""Models of the Python builtins, methods and library calls the package uses."""
import ast
from fractions import Fraction

from . import terms as tm
from .terms import (emptyset, T, mk, const, num, var, lv, app, opaque, ite, conj, disj, neg, eq, lt, le, add, sub, mul,
                    div, at, length, concat, one, comp, contains, truth, mkset, union, inter, diff, symdiff,
                    to_set, setlit, Sum, SumD, range_cons, TRUE, FALSE, NONE_T, ZERO, ONE, EMPTY, BOT, ANY,
                    INT, NAT, NUM, BOOL, STR, show, lift, leaves, atomise, intval, numval, ones, minmax, absn,
                    subterms, substm, isconst)
from . import kinds as kd
from .kinds import K, ANYK, INTK, BOOLK, DECK, FLOATK, STRK, NONEK, FNK
from . import interp as im
from .interp import V, NONEV, BOTV


def kwv(kwargs, name, default=None):
    x = kwargs.get(name)
    return x[1] if x is not None else default


def star(args):
    return any(isinstance(a, tuple) for a in args)


def fresh(ip, st, t, k, kind='list'):
    return ip.newlist(st, t, k, kind)


# ------------------------------------------------------------------ builtins
def call_builtin(ip, name, args, kwargs, st, node):
    if star(args):
        if name == 'zip' and len(args) == 1:
            v = args[0][1]
            s = ip.pure(ip.iterterm(v, st), st)
            return V(tm.unzip(s), K('iter', K('tuple', kd.elem(kd.elem(v.k)))))
        if name in ('max', 'min', 'set', 'print', 'sum') and len(args) == 1:
            args = [args[0][1]]
        else:
            ip.note('star argument to ' + name, node)
            return ip.opaque_call(V(const(name)), args, kwargs, st, node, name)
    f = globals().get('b_' + name)
    if f is None:
        ip.event('ext', st, node, name='builtins.' + name)
        ip.note('builtin ' + name, node)
        return ip.opaque_call(V(const(name)), args, kwargs, st, node, name)
    return f(ip, args, kwargs, st, node)


def b_len(ip, args, kwargs, st, node):
    v = args[0]

    def f(t):
        if t.op == 'ref':
            c = st.heap.get(t.a[0])
            if c is None:
                return opaque('len', (), NAT)
            if c.kind == 'dict':
                if c.t is None:
                    r = ZERO
                    for p, _ in c.d.values():
                        r = add(r, ite(p, ONE, ZERO))
                    return r
                return length(to_set(ip.mm_keys(c)))
            if c.kind in ('list', 'set'):
                return length(ip.pure(c.t, st))
            return length(ip.content(t, st))
        if t.op == 'dictv' and t.a[0] == 'known':
            r = ZERO
            for kt, p, _ in t.a[1:]:
                r = add(r, ite(p, ONE, ZERO))
            return r
        return length(t)
    return V(lift(f, v.t), INTK)


def b_range(ip, args, kwargs, st, node):
    xs = [ip.asidx(a, st) for a in args]
    step = None
    if len(xs) == 1:
        lo, hi = ZERO, xs[0]
    else:
        lo, hi = xs[0], xs[1]
        if len(xs) == 3:
            step = xs[2]
    i = lv(('int', 0), 'i')
    s = intval(step) if step is not None else 1
    if s == 1:
        t = comp(i, ('range', sub(hi, lo)), one(add(lo, i)))
    elif s == -1:
        t = comp(i, ('range', sub(lo, hi)), one(sub(lo, i)))
    else:
        t = app('range', [lo, hi, step], ('seq', INT))
    return V(t, K('range', INTK))


b_xrange = b_range


def b_enumerate(ip, args, kwargs, st, node):
    v = args[0]
    start = args[1] if len(args) > 1 else kwv(kwargs, 'start')
    s0 = ip.asidx(start, st) if start is not None else ZERO
    s = ip.iterterm(v, st)
    ek = kd.elem(v.k)
    kk = K('iter', K('tuple', kd.join(INTK, ek), (INTK, ek)))

    def f(x):
        es = ones(x)
        if es is not None:
            return concat([one(concat([one(add(s0, num(n))), one(e)])) for n, e in enumerate(es)])
        if x.op == 'bot':
            return EMPTY
        i = lv(('int', 0), 'i')
        return comp(i, ('range', length(x)), one(concat([one(add(s0, i)), one(at(x, i))])))
    return V(lift(f, s), kk)


def b_zip(ip, args, kwargs, st, node):
    ss = [ip.iterterm(a, st) for a in args]
    eks = [kd.elem(a.k) for a in args]
    ek = None
    for k in eks:
        ek = kd.join(ek, k)
    kk = K('iter', K('tuple', ek, tuple(eks)))
    if not ss:
        return V(EMPTY, kk)

    def f(*xs):
        es = [ones(x) for x in xs]
        if all(e is not None for e in es):
            n = min(len(e) for e in es)
            return concat([one(concat([one(e[i]) for e in es])) for i in range(n)])
        n = length(xs[0])
        for x in xs[1:]:
            m = length(x)
            if m is not n:
                c = ip.simp(le(n, m), st)
                n = ite(c, n, m)
        i = lv(('int', 0), 'i')
        return comp(i, ('range', n), one(concat([one(at(x, i)) for x in xs])))
    return V(lift(f, *ss), kk)


def b_iter(ip, args, kwargs, st, node):
    r, c = ip.single_ref(args[0], st)
    if c is not None and c.cls == 'iter':
        return args[0]
    k = kd.elem(args[0].k)
    return V(ip.alloc(st, 'list', t=ip.iterterm(args[0], st), k=k, cls='iter'), K('iter', k))


def seqsum(ip, t, st):
    def num_(e):
        return ip.asnum(V(e), st)

    def leaf(x):
        if x.op == 'bot':
            return ZERO
        if x.ty[0] == 'set':
            x = im.setseq(x)
        if x.op != 'seq':
            i = lv(('int', 0), 'i')
            return SumD(i, ('range', length(x)), num_(at(x, i)))
        r = ZERO
        for sg in x.a:
            if sg[0] == 'one':
                r = add(r, num_(sg[1]))
            elif sg[0] == 'spl':
                r = add(r, lift(leaf, sg[1]))
            else:
                v, dom, body = tm.open_seg(x, sg)
                r = add(r, SumD(v, dom, lift(leaf, body)))
        return r
    return lift(leaf, t)


def cmcount(t, p, q):
    """Count at [p][q] of a matrix built by a sequence of (row, column, weight) updates."""
    def entry(e):
        def f(x):
            if x.ty[0] not in ('seq', 'tup') or x.op == 'opq':
                return opaque('cmentry', (x,), NUM)
            return ite(conj(eq(at(x, ZERO), p), eq(at(x, num(1)), q)), at(x, num(2)), ZERO)
        return lift(f, e)

    def leaf(x):
        if x.op == 'bot' or x is EMPTY:
            return ZERO
        if x.op != 'seq':
            return opaque('cmcontent', (x,), NUM)
        r = ZERO
        for sg in x.a:
            if sg[0] == 'one':
                r = add(r, entry(sg[1]))
            elif sg[0] == 'spl':
                r = add(r, lift(leaf, sg[1]))
            else:
                v, dom, body = tm.open_seg(x, sg)
                r = add(r, SumD(v, dom, lift(leaf, body)))
        return r
    return lift(leaf, t)


def b_sum(ip, args, kwargs, st, node):
    v = args[0]
    start = args[1] if len(args) > 1 else kwv(kwargs, 'start')
    s = ip.iterterm(v, st)
    e0 = V(EMPTY)
    if start is not None and any(x.ty[0] == 'seq' for x in leaves(ip.seqof(start, st))):
        # sum of lists
        i = lv(('int', 0), 'i')

        def leaf(x):
            if x.op != 'seq':
                return comp(i, ('range', length(x)), ip.iterterm(V(at(x, i)), st))
            parts = []
            for sg in x.a:
                if sg[0] == 'one':
                    parts.append(ip.iterterm(V(sg[1]), st))
                elif sg[0] == 'spl':
                    parts.append(lift(leaf, sg[1]))
                else:
                    w, dom, body = tm.open_seg(x, sg)
                    parts.append(comp(w, dom, lift(leaf, body)))
            return concat(parts)
        return V(concat([ip.seqof(start, st), lift(leaf, s)]), K(start.k.b, kd.elem(kd.elem(v.k))))
    t = seqsum(ip, s, st)
    ek = kd.elem(v.k, None)
    k, prob = kd.arith('add', ek or INTK, start.k if start is not None else INTK)
    k = kd.join(k, start.k if start is not None else INTK)
    if start is not None:
        t = add(t, ip.asnum(start, st))
    if start is not None and k.b >= frozenset(['dec', 'int']) and 'dec' in start.k.b and len(start.k.b) == 1:
        k = DECK
    return V(t, k)


def b_max(ip, args, kwargs, st, node):
    return extremum(ip, args, kwargs, st, node, True)


def b_min(ip, args, kwargs, st, node):
    return extremum(ip, args, kwargs, st, node, False)


def extremum(ip, args, kwargs, st, node, ismax):
    if 'key' in kwargs:
        ip.note('max/min with key', node)
        return ip.opaque_call(V(const('max' if ismax else 'min')), args, kwargs, st, node, 'max' if ismax else 'min')
    default = kwv(kwargs, 'default')
    if len(args) >= 2:
        r = ip.asnum(args[0], st)
        k = args[0].k
        for a in args[1:]:
            r = minmax(r, ip.asnum(a, st), ismax)
            k = kd.join(k, a.k)
        return V(r, k)
    v = args[0]
    s = ip.iterterm(v, st)
    empty = ip.simp(eq(length(s), ZERO), st)
    ek = kd.elem(v.k)
    if default is None:
        if empty is not FALSE:
            ip.event('partial', st, node, what='max() or min() of a possibly empty collection', when=empty)
            if empty is TRUE:
                ip.raise_('ValueError', st, node)
                return BOTV
            B = st.copy()
            B.live = conj(st.live, empty)
            ip.raise_('ValueError', B, node)
            st.exits += B.exits
            st.live = conj(st.live, neg(empty))

    def f(x):
        es = ones(x)
        if es:
            r = es[0]
            for e in es[1:]:
                r = minmax(r, e, ismax)
            return r
        if x.op == 'seq' and len(x.a) == 2 and x.a[0][0] == 'one' and x.a[1][0] == 'spl':
            pass
        st_ = to_set(x)
        ty = tm.elemty(st_)
        if ty[0] not in ('int', 'num', 'bool'):
            ty = NUM
        return lift(lambda z: app('max' if ismax else 'min', (z,), ty), st_)
    r = lift(f, s)
    if default is not None:
        return V(ite(empty, default.t, r), kd.join(ek, default.k))
    return V(r, ek)


def b_abs(ip, args, kwargs, st, node):
    return V(absn(ip.asnum(args[0], st)), args[0].k)


def ascending(x):
    """Term is a strictly increasing integer range."""
    if x.op == 'seq' and len(x.a) == 1 and x.a[0][0] == 'comp' and x.a[0][1] == 'range':
        v, dom, body = tm.open_seg(x, x.a[0])
        e = ones(body) if body.op == 'seq' else None
        if e and len(e) == 1 and e[0].ty[0] == 'int':
            k = tm.to_poly(e[0]).get(((v, 1),), 0)
            rest = sub(e[0], mul(num(k), v))
            return k > 0 and v not in subterms(rest)
    return False


def b_sorted(ip, args, kwargs, st, node):
    v = args[0]
    if set(kwargs) == {'reverse'} and kwv(kwargs, 'reverse').t in (TRUE, FALSE):
        up = b_sorted(ip, args, {}, st, node)
        if kwv(kwargs, 'reverse').t is FALSE:
            return up
        # equal elements are interchangeable here, so their order among each other does not matter
        v = b_reversed(ip, [up], {}, st, node)
        return fresh(ip, st, v.t, kd.elem(up.k))
    if 'key' in kwargs or 'reverse' in kwargs:
        s = ip.pure(ip.iterterm(v, st), st)
        extra = []
        for n in ('key', 'reverse'):
            if n in kwargs:
                extra += [const(n), ip.pure(kwv(kwargs, n).t, st)]
        ip.note('sorted with key or reverse', node)
        return fresh(ip, st, opaque('sorted', [s] + extra, s.ty), kd.elem(v.k))
    s = ip.iterterm(v, st)

    def f(x):
        if x is EMPTY or ascending(x) or (ones(x) is not None and len(ones(x)) == 1):
            return x
        es = ones(x)
        if es is not None and all(isconst(e) for e in es):
            try:
                return concat([one(const(z) if not isinstance(z, Fraction) else num(z)) for z in sorted(e.a[1] if e.op == 'const' else Fraction(*e.a) for e in es)])
            except TypeError:
                pass
        y = asset(x)
        if y is not None:
            return app('sorted', (y,), ('seq', tm.elemty(y)))
        return app('sorted', (x,), ('seq', tm.elemty(x)))
    return fresh(ip, st, lift(f, ip.pure(s, st)), kd.elem(v.k))


def asset(x):
    """The set a duplicate-free enumeration enumerates, or None."""
    if x.ty[0] == 'set':
        return x
    if x.op == 'seq' and len(x.a) == 1 and x.a[0][0] == 'comp' and x.a[0][1] == 'set':
        v, dom, body = tm.open_seg(x, x.a[0])
        if body.op == 'seq' and len(body.a) == 1 and body.a[0] == ('one', v):
            return mkset(v, dom[1])
    return None


def b_set(ip, args, kwargs, st, node):
    if not args:
        return ip.newset(st, tm.emptyset(), None)
    v = args[0]
    return ip.newset(st, asset_of(ip, v, st), kd.elem(v.k, None))


def asset_of(ip, v, st):
    s = ip.pure(ip.seqof(v, st), st)

    def f(x):
        if x.op == 'dictv':
            return lift(mk_to_set, ip.iterterm(V(x), st))
        return mk_to_set(x)
    return lift(f, s)


def mk_to_set(x):
    y = asset(x)
    return y if y is not None else to_set(x)


def b_frozenset(ip, args, kwargs, st, node):
    if not args:
        return V(tm.emptyset(), K('frozenset'))
    v = args[0]
    return V(asset_of(ip, v, st), K('frozenset', kd.elem(v.k, None)))


def b_list(ip, args, kwargs, st, node):
    if not args:
        return ip.newlist(st, EMPTY, None)
    v = args[0]
    r = ip.newlist(st, ip.iterterm(v, st), kd.elem(v.k))
    r.k = K('list', kd.elem(v.k), v.k.items)
    return r


def b_tuple(ip, args, kwargs, st, node):
    if not args:
        return V(EMPTY, K('tuple'))
    v = args[0]
    return V(ip.iterterm(v, st), K('tuple', kd.elem(v.k, None), v.k.items))


def plain_copy(ip, v, st, node):
    """A new dictionary with the entries of a mapping, or None."""
    r, c = ip.single_ref(v, st)
    if c is None and v.t.op == 'dictv' and v.t.a[0] == 'sym':
        pass
    elif c is not None and c.kind != 'dataset' or c is None and (v.t.ty[0] not in ('dict', 'dataset') or v.t.op in ('ref', 'dictv', 'ite')):
        return None
    t = lift(lambda x: share(ip, x, node), ip.mapof(v, st))
    return V(ip.alloc(st, 'dataset', t=t, d={}, cls='plain'), K('dict', kd.elem(v.k, None)))


def b_dict(ip, args, kwargs, st, node):
    if args and not kwargs:
        d = plain_copy(ip, args[0], st, node)
        if d is not None:
            return d
    d = ip.newdict(st)
    if args:
        dict_update(ip, d, args[0], st, node)
    for n, (p, v) in kwargs.items():
        if n == '**':
            dict_update(ip, d, v, st, node)
            continue
        r, c = ip.single_ref(d, st)
        if c.t is None:
            dd = dict(c.d)
            p0, v0 = dd.get(const(n), (FALSE, BOTV))
            dd[const(n)] = (disj(p, p0), v if p is TRUE else ip.mergeV(p, v, v0))
            st.heap[r.a[0]] = c.but(d=dd, k=kd.join(c.k, v.k))
        else:
            ip.setitem(d, V(const(n), STRK), v, st, node)
    return d


def dict_update(ip, d, v, st, node):
    """d.update(v) for a local dictionary d."""
    if v.t.op == 'ite' and any(x.op == 'ref' for x in leaves(v.t)):
        ip.leafwise(v, st, lambda x, S: dict_update(ip, d, x, S, node) or NONEV)
        return
    r, c = ip.single_ref(d, st)
    r2, c2 = ip.single_ref(v, st)
    if c is None:
        ip.mutation(d, st, node, 'update')
        return
    if c.kind == 'dataset':
        map_update(ip, (r, ()), v, st, node)
        return
    src = None
    if c2 is not None and c2.kind == 'dict':
        if c2.t is None:
            src = [(kt, p, w) for kt, (p, w) in c2.d.items()]
        elif c.t is None and not c.d:
            st.heap[r.a[0]] = c.but(t=c2.t, d=None, k=c2.k, cls=c2.cls)
            return
    elif v.t.op == 'dictv' and v.t.a[0] == 'known':
        src = [(kt, p, V(w)) for kt, p, w in v.t.a[1:]]
    else:
        s = ip.iterterm(v, st)
        es = ones(s)
        if es is not None and v.t.ty[0] not in ('dict', 'dataset', 'cm'):
            src = []
            for e in es:
                kt = ip.pure(at(e, ZERO), st)
                ek = kd.elem(v.k)
                src.append((kt, TRUE, V(at(e, ONE), ek.items[1] if ek.items and len(ek.items) == 2 else None)))
    if src is not None and c.t is None and all(isconst(x[0]) for x in src) and all(isconst(x) for x in c.d):
        dd = dict(c.d)
        k = c.k
        for kt, p, w in src:
            p0, v0 = dd.get(kt, (FALSE, BOTV))
            dd[kt] = (disj(p, p0), w if p is TRUE else ip.mergeV(p, w, v0))
            k = kd.join(k, w.k)
        st.heap[r.a[0]] = c.but(d=dd, k=k)
        return
    if src is not None:
        for kt, p, w in src:
            if p is TRUE:
                ip.setitem(d, V(kt), w, st, node)
            else:
                ip.branch(st, p, lambda A: ip.setitem(d, V(kt), w, A, node) and None, lambda B: None)
        return
    # entries of a symbolic mapping
    ents = entries(ip, v, st)
    if ents is not None:
        c1 = ip.symdict(c)
        st.heap[r.a[0]] = c1.but(t=concat([c1.t, ents]), k=kd.join(c1.k, kd.elem(v.k, None)))
        return
    ip.note('dict update from unsupported value', node)
    st.heap[r.a[0]] = c.but(t=opaque('update', (ip.pure(d.t, st), ip.pure(v.t, st)), ('seq', ANY)), d=None)


def entries(ip, v, st):
    """(key, value) pairs of a mapping or an iterable of pairs, as a sequence term."""
    r, c = ip.single_ref(v, st)
    if c is not None and c.kind == 'dict' and c.t is not None and c.cls != 'mm':
        return c.t
    if c is not None and c.kind == 'dict' and c.t is None:
        return ip.symdict(c).t
    t = v.t
    if t.ty[0] in ('dict', 'dataset') and t.op not in ('ref', 'dictv', 'ite'):
        ks = tm.keys_of(t)
        x = lv(tm.elemty(ks), 'k')
        return comp(x, ('set', contains(ks, x)), one(concat([one(x), one(at(t, x))])))
    if t.ty[0] == 'seq' or (c is not None and c.kind == 'list') or t.ty[0] == 'tup':
        return ip.iterterm(v, st)
    return None


def b_str(ip, args, kwargs, st, node):
    if not args:
        return V(const(''), STRK)

    if tm.pyconst(args[0].t)[0] and args[0].k.b == frozenset(['float']):
        return V(const(str(float(tm.pyconst(args[0].t)[1]))), STRK)

    def f(t):
        if t.ty[0] == 'str':
            return t
        ok, v = tm.pyconst(t)
        if ok and args[0].k.b == frozenset(['float']):
            return const(str(float(v)))
        if ok and not isinstance(v, float) and (v is None or isinstance(v, (int, str, bool))):
            return const(str(v))
        return app('str', (t,), STR)
    return V(lift(f, ip.pure(args[0].t, st)), K(['str', 'fstr']) if 'float' in args[0].k.b else STRK)


def b_repr(ip, args, kwargs, st, node):
    return V(app('repr', (ip.pure(args[0].t, st),), STR), K(['str', 'fstr']) if 'float' in args[0].k.b else STRK)


b_format = b_repr


def b_int(ip, args, kwargs, st, node):
    if not args:
        return V(ZERO, INTK)
    v = args[0]

    def f(t):
        if t.ty[0] == 'int':
            return t
        if t.ty[0] == 'bool':
            return ite(t, ONE, ZERO) if t.op == 'ite' else num(1 if t is TRUE else 0)
        q = numval(t)
        if q is not None:
            return num(int(q))
        if t.op == 'const' and t.a[0] == 'str':
            try:
                return num(int(t.a[1]))
            except ValueError:
                pass
        return app('int', (t,), INT)
    return V(lift(f, ip.pure(v.t, st)), INTK)


def b_float(ip, args, kwargs, st, node):
    t = ip.asnum(args[0], st) if args else ZERO

    def f(x):
        if x.ty[0] == 'int' or x.op == 'num' or x.op == 'app' and x.a[0] == 'float':
            return x
        return app('float', (x,), NUM)
    return V(lift(f, ip.pure(t, st)), FLOATK)


def b_bool(ip, args, kwargs, st, node):
    return V(ip.truthv(args[0], st) if args else FALSE, BOOLK)


TYNAMES = {'int': ('int',), 'num': ('int', 'float', 'Decimal'), 'bool': ('bool', 'int'), 'str': ('str',),
           'none': (), 'seq': ('list', 'tuple'), 'set': ('set', 'frozenset'), 'dict': ('dict',),
           'dataset': ('Dataset', 'dict', 'defaultdict'), 'cm': ('ConfusionMatrix', 'dict'), 'fn': ()}


def classes_of(ip, v):
    o = ip.reg.get(v.t)
    if isinstance(o, im.UserClass):
        return [o.name]
    if isinstance(o, im.Builtin):
        return [o.name]
    if isinstance(o, im.Ext):
        n = o.name.split('.')[-1]
        return [n]
    if isinstance(o, im.NamedTuple):
        return ['nt:' + o.name]
    es = ones(v.t) if v.t.op == 'seq' else None
    if es is not None:
        out = []
        for e in es:
            r = classes_of(ip, V(e))
            if r is None:
                return None
            out += r
        return out
    return None


ABC = {'Mapping': ['dict'], 'MutableMapping': ['dict'], 'Sequence': ['list', 'tuple', 'str'],
       'Iterable': ['list', 'tuple', 'str', 'dict', 'set', 'frozenset'], 'Set': ['set', 'frozenset'],
       'Number': ['int', 'float', 'Decimal', 'bool'], 'Integral': ['int', 'bool'], 'basestring': ['str'],
       'defaultdict': ['defaultdict', 'Dataset'], 'OrderedDict': ['OrderedDict']}


def b_isinstance(ip, args, kwargs, st, node):
    v = args[0]
    cs = classes_of(ip, args[1])
    if cs is None:
        return V(atomise(mk('truth', (opaque('isinstance', (ip.pure(v.t, st), ip.pure(args[1].t, st))),), BOOL)), BOOLK)
    wanted = set()
    for c in cs:
        wanted |= set(ABC.get(c, [c]))

    def f(t):
        if t.op == 'ref':
            c = st.heap.get(t.a[0])
            names = {'dict'} if c.cls == 'plain' else {'list': {'list'}, 'set': {'set'}, 'dict': {'dict'}, 'cm': {'ConfusionMatrix', 'dict'},
                     'dataset': {'Dataset', 'dict', 'defaultdict'}, 'inst': {c.cls if c is not None else '?'}}[c.kind]
            return TRUE if names & wanted else FALSE
        if t.op == 'num':
            if Fraction(*t.a).denominator == 1 and ('int' in wanted) and ('dec' not in v.k.b and 'float' not in v.k.b):
                return TRUE
            if not ({'int', 'Decimal', 'float'} & wanted):
                return FALSE
        if t.op in ('fn',):
            return FALSE
        if t.op in ('bot', 'undef'):
            return FALSE
        k = t.ty[0]
        if k in TYNAMES and (t.op != 'app' or t.a[0] in TYPED) or k in ('str', 'none', 'set', 'dict', 'dataset', 'cm', 'bool'):
            names = set(TYNAMES[k])
            if not (names & wanted):
                return FALSE
            if k in ('int', 'str', 'dict', 'dataset', 'cm', 'bool') and names & wanted:
                return TRUE
            if names <= wanted:
                return TRUE
            if k == 'seq':
                kb = v.k.b & frozenset(['list', 'tuple'])
                if kb and kb <= wanted and 'any' not in v.k.b:
                    if t.op in ('seq',) and len(v.k.b) == 1:
                        return TRUE
                if len(v.k.b) == 1 and t.op == 'seq' and not (v.k.b & wanted):
                    return FALSE
        r = FALSE
        for w in sorted(wanted):
            r = disj(r, atomise(mk('isinst', (t, w), BOOL)))
        return r
    return V(lift(f, v.t), BOOLK)


TYPED = frozenset(['pos2mass', 'mass2pos', 'mass2str', 'nltk2mass', 'bed_add', 'bed_sub', 'bed_tra'])
ITERABLE = ('seq', 'set', 'str', 'dict', 'dataset', 'cm')
DICTISH = ('dict', 'dataset', 'cm')


def b_hasattr(ip, args, kwargs, st, node):
    v, a = args[0], args[1]
    name = a.t.a[1] if a.t.op == 'const' else None

    def f(t):
        if t.op in ('bot', 'undef'):
            return FALSE
        c = st.heap.get(t.a[0]) if t.op == 'ref' else None
        k = t.ty[0]
        if c is not None:
            k = {'list': 'seq', 'set': 'set', 'dict': 'dict', 'cm': 'cm', 'dataset': 'dataset', 'inst': 'inst'}[c.kind]
            if k == 'inst':
                return TRUE if name in c.d else atomise(mk('hasattr', (ip.content(t, st), name), BOOL))
        if name is None:
            return atomise(mk('truth', (opaque('hasattr', (ip.pure(t, st),)),), BOOL))
        if k == 'any':
            return atomise(mk('hasattr', (ip.pure(t, st), name), BOOL))
        if name in ('__iter__', '__len__'):
            return TRUE if k in ITERABLE else FALSE
        if name in ('items', 'keys', 'values', 'get', 'update', 'iteritems', 'itervalues'):
            return TRUE if k in DICTISH and not name.startswith('iter') else FALSE
        if name in ('__getitem__',):
            return TRUE if k in ('seq', 'str', 'dict', 'dataset', 'cm') else FALSE
        if name in im.DS_ATTRS:
            return TRUE if k == 'dataset' else FALSE
        if name == '__call__':
            return TRUE if k == 'fn' else FALSE
        return atomise(mk('hasattr', (ip.pure(t, st), name), BOOL))
    return V(lift(f, v.t), BOOLK)


def b_callable(ip, args, kwargs, st, node):
    t = args[0].t
    if t.ty[0] == 'fn':
        return V(TRUE, BOOLK)
    return V(atomise(mk('hasattr', (ip.pure(t, st), '__call__'), BOOL)), BOOLK)


def b_getattr(ip, args, kwargs, st, node):
    n = args[1].t
    if n.op == 'const' and n.a[0] == 'str':
        if len(args) == 3:
            h = b_hasattr(ip, args[:2], {}, st, node).t
            if h is TRUE:
                return ip.getattr(args[0], n.a[1], st, node)
            if h is FALSE:
                return args[2]
            return ip.branch(st, h, lambda A: ip.getattr(args[0], n.a[1], A, node), lambda B: args[2])
        return ip.getattr(args[0], n.a[1], st, node)
    ip.note('dynamic getattr', node)
    return ip.opaque_call(V(const('getattr')), args, kwargs, st, node, 'getattr')


def b_setattr(ip, args, kwargs, st, node):
    n = args[1].t
    if n.op == 'const' and n.a[0] == 'str':
        ip.setattr(args[0], n.a[1], args[2], st, node)
    else:
        ip.note('dynamic setattr', node)
        ip.mutation(args[0], st, node, 'setattr')
    return NONEV


def over(ip, v, st, node, fn):
    """Sequence [fn(e)] over the elements of v; fn(V, S) -> V (sequence term)."""
    gens = ip.gens(v, st, node)
    if gens is None:
        return None
    parts = []
    for levels, guard, ev in gens:
        A = st.copy()
        A.live = conj(st.live, guard)
        for x, dom in levels:
            if dom[0] == 'range':
                A.cons = A.cons + tuple(range_cons(x, dom[1]))
            else:
                A.live = conj(A.live, dom[1])
        r = fn(ev, A)
        st.exits += [x for x in A.exits if x.kind == 'raise' and not x.cond.fv]
        if any(ch[0] in ('cell', 'entry') for ch in ip.changes(st, A)):
            ip.note('effect inside a lazily mapped function', node)
        t = ite(guard, ip.freeze(r, A, st), EMPTY)
        for a, cell in A.heap.items():
            st.heap.setdefault(a, cell)
        for x, dom in reversed(levels):
            t = comp(x, dom, t)
        parts.append(t)
    return concat(parts)


def b_map(ip, args, kwargs, st, node):
    f = args[0]
    ek = [None]
    if len(args) > 2:
        z = b_zip(ip, args[1:], {}, st, node)

        def call2(ev, S):
            xs = [ip.index(ev, num(i), S, node) for i in range(len(args) - 1)]
            r = ip.call(f, xs, {}, S, node)
            ek[0] = kd.join(ek[0], r.k)
            return one(r.t)
        t = over(ip, z, st, node, call2)
    else:
        def call1(ev, S):
            r = ip.call(f, [ev], {}, S, node)
            ek[0] = kd.join(ek[0], r.k)
            return one(r.t)
        t = over(ip, args[1], st, node, call1)
    if t is None:
        return ip.opaque_call(V(const('map')), args, kwargs, st, node, 'map')
    return V(t, K('iter', ek[0]))


def b_filter(ip, args, kwargs, st, node):
    f = args[0]

    def call1(ev, S):
        r = ip.call(f, [ev], {}, S, node) if f.t is not NONE_T else ev
        return ite(ip.truthv(r, S), one(ev.t), EMPTY)
    t = over(ip, args[1], st, node, call1)
    if t is None:
        return ip.opaque_call(V(const('filter')), args, kwargs, st, node, 'filter')
    return V(t, K('iter', kd.elem(args[1].k)))


def b_any(ip, args, kwargs, st, node):
    return V(quant(ip, args[0], st, node, True), BOOLK)


def b_all(ip, args, kwargs, st, node):
    return V(neg(quant(ip, args[0], st, node, False)), BOOLK)


def quant(ip, v, st, node, pos):
    gens = ip.gens(v, st, node)
    if gens is None:
        return atomise(mk('truth', (opaque('quant', (ip.pure(v.t, st),)),), BOOL))
    r = FALSE
    for levels, guard, ev in gens:
        c = ip.truthv(ev, st)
        c = c if pos else neg(c)
        if levels:
            r = disj(r, ip.existsover(levels, guard, c))
        else:
            r = disj(r, conj(guard, c))
    return r


def b_round(ip, args, kwargs, st, node):
    x = ip.asnum(args[0], st)
    if len(args) > 1:
        return V(app('roundto', (x, args[1].t), NUM), args[0].k)

    def f(t):
        if t.ty[0] == 'int':
            return t
        q = numval(t)
        if q is not None:
            return num(round(q))
        return app('call', (mk('fn', ('builtin', 'round'), ('fn',)), t, const('|')), INT)
    return V(lift(f, x), INTK)


def b_type(ip, args, kwargs, st, node):
    if len(args) == 3:
        d = args[2]
        r, c = ip.single_ref(d, st)
        attrs = {}
        if c is not None and c.kind == 'dict' and c.t is None:
            for kt, (p, v) in c.d.items():
                if p is TRUE and kt.op == 'const' and kt.a[0] == 'str':
                    attrs[kt.a[1]] = v
        nm = args[0].t.a[1] if args[0].t.op == 'const' else '?'
        cls = im.UserClass(nm, None, None, attrs, [])
        ip.naddr += 1
        return ip.fnval(cls, 'enumclass', nm, ip.naddr)
    return V(app('type', (ip.pure(args[0].t, st),)), ANYK)


def b_print(ip, args, kwargs, st, node):
    return NONEV


def b_id(ip, args, kwargs, st, node):
    ip.event('ext', st, node, name='builtins.id')
    return V(opaque('id', (ip.pure(args[0].t, st),), INT), INTK)


def b_hash(ip, args, kwargs, st, node):
    ip.event('ext', st, node, name='builtins.hash')
    return V(opaque('hash', (ip.pure(args[0].t, st),), INT), INTK)


def b_next(ip, args, kwargs, st, node):
    s = ip.iterterm(args[0], st)
    r, c = ip.single_ref(args[0], st)
    if c is not None and c.kind == 'list' and c.cls == 'iter':
        n = length(s)
        none = ip.simp(eq(n, ZERO), st)
        if none is TRUE and len(args) > 1:
            return args[1]
        if none is TRUE:
            ip.raise_('StopIteration', st, node)
            return BOTV
        x = V(at(s, ZERO), kd.elem(args[0].k))
        st.heap[r.a[0]] = c.but(t=tm.slice_(s, ONE, n))
        if none is not FALSE and len(args) > 1:
            return ip.mergeV(none, args[1], x)
        if none is not FALSE:
            B = st.copy()
            B.live = conj(st.live, none)
            ip.raise_('StopIteration', B, node)
            st.exits += B.exits
            st.live = conj(st.live, neg(none))
        return x
    if len(args) > 1:
        e = eq(length(s), ZERO)
        return V(ite(e, args[1].t, at(s, ZERO)), kd.join(kd.elem(args[0].k), args[1].k))
    if args[0].t.op not in ('seq', 'var', 'app', 'at'):
        ip.note('next()', node)
    ip.note('next()', node)
    return V(at(s, ZERO), kd.elem(args[0].k))


def b_reversed(ip, args, kwargs, st, node):
    s = ip.iterterm(args[0], st)

    def f(x):
        es = ones(x)
        if es is not None:
            return concat([one(e) for e in reversed(es)])
        i = lv(('int', 0), 'i')
        n = length(x)
        return comp(i, ('range', n), one(at(x, sub(sub(n, ONE), i))))
    return V(lift(f, s), K('iter', kd.elem(args[0].k)))


def b_divmod(ip, args, kwargs, st, node):
    a = ip.binop(ast.FloorDiv(), args[0], args[1], st, node)
    b = ip.binop(ast.Mod(), args[0], args[1], st, node)
    return V(concat([one(a.t), one(b.t)]), K('tuple', kd.join(a.k, b.k), (a.k, b.k)))


def b_pow(ip, args, kwargs, st, node):
    return ip.binop(ast.Pow(), args[0], args[1], st, node)


def b_object(ip, args, kwargs, st, node):
    return V(ip.alloc(st, 'inst', d={}, cls='object'), K('obj:object'))


def b_super(ip, args, kwargs, st, node):
    me = None
    if len(args) > 1:
        me = args[1]
    else:
        fs = [f for f in st.frames if isinstance(f, int) and 'self' in st.frames[f]]
        if fs:
            me = st.frames[max(fs)]['self']
    if me is not None and me.t.op == 'ref' and st.heap[me.t.a[0]].kind == 'dataset':
        return V(mk('super', (me.t,), ('obj',)), K('super'), (me.t, ()))
    return V(mk('super', (), ('obj',)), K('super'))


def b___fresh__(ip, args, kwargs, st, node):
    """Specifications only: an object of its own with the given content."""
    if args[0].t.ty[0] == 'dataset' and args[0].t.op != 'ref':
        return ip.own_dataset(args[0], st)
    return deep(ip, args[0], st)


def b_staticmethod(ip, args, kwargs, st, node):
    return args[0]


b_classmethod = b_staticmethod


def b_open(ip, args, kwargs, st, node):
    return call_ext(ip, 'open', args, kwargs, st, node)


def b_slice(ip, args, kwargs, st, node):
    return V(opaque('slice', [ip.pure(a.t, st) for a in args]), ANYK)


def b_chr(ip, args, kwargs, st, node):
    return V(app('chr', (args[0].t,), STR), STRK)


def b_ord(ip, args, kwargs, st, node):
    return V(app('ord', (args[0].t,), NAT), INTK)


def b_issubclass(ip, args, kwargs, st, node):
    return V(atomise(mk('truth', (app('issubclass', [ip.pure(a.t, st) for a in args]),), BOOL)), BOOLK)


def b___import__(ip, args, kwargs, st, node):
    n = args[0].t
    if n.op == 'const' and n.a[1] in ip.prog.modules:
        ip.load(n.a[1])
        return ip.modval(n.a[1])
    return V(opaque('import', (ip.pure(n, st),)), ANYK)


# ------------------------------------------------------------------ methods
def call_method(ip, b, args, kwargs, st, node):
    recv, name = b.recv, b.name
    if isinstance(b.fn, im.Builtin):
        return unbound(ip, b.fn.name, name, args, kwargs, st, node)
    if star(args):
        ip.note('star argument to method ' + name, node)
        return ip.opaque_call(V(const('.' + name)), [recv] + list(args), kwargs, st, node, '.' + name)
    if recv.t.op == 'ite' and any(x.op == 'ref' for x in leaves(recv.t)):
        return ip.leafwise(recv, st, lambda x, S: call_method(ip, im.Bound(name, x, None, b.path), args, kwargs, S, node))
    if recv.t.op == 'ite' and any(x is NONE_T for x in leaves(recv.t)):
        recv = V(ip.simp(recv.t, st), recv.k, recv.p)
    r, c = ip.single_ref(recv, st)
    if c is not None:
        f = globals().get('m_%s_%s' % (c.kind, name))
        if f is not None:
            return f(ip, recv, r, c, args, kwargs, st, node)
        if c.kind == 'inst':
            return inst_method(ip, recv, r, c, name, args, kwargs, st, node)
        if c.kind == 'dataset':
            return dataset_method(ip, recv, r, c, name, args, kwargs, st, node)
    if recv.t.op == 'super':
        if recv.p is not None and ip.map_place(V(recv.p[0], recv.k), st) is not None:
            r = recv.p[0]
            return dataset_method(ip, V(r, recv.k), r, st.heap[r.a[0]], name, args, kwargs, st, node, False)
        return NONEV
    mp = ip.map_place(recv, st)
    if mp is not None:
        w = map_method(ip, mp, recv, name, args, kwargs, st, node)
        if w is not None:
            return w
    if name in im.MUTATORS and recv.p is not None and not listadd(ip, b, name, st):
        r = place_method(ip, recv, name, args, kwargs, st, node)
        if r is not None:
            return r
    if b.path is not None and name in im.MUTATORS:
        return path_method(ip, b, name, args, kwargs, st, node)
    if name in im.MUTATORS:
        pm = pure_mutator(ip, recv, name, args, kwargs, st, node)
        if pm is not None:
            return pm
    t = ip.pure(recv.t, st)
    f = globals().get('p_' + name)
    if f is not None:
        r = f(ip, V(t, recv.k), args, kwargs, st, node)
        if r is not None:
            return r
    if name in im.MUTATORS:
        ip.mutation(recv, st, node, name)
    flat = [t] + [ip.pure(a.t, st) for a in args]
    for n in sorted(kwargs):
        flat += [const(n), ip.pure(kwargs[n][1].t, st)]
    kb = recv.k.b
    if t.ty[0] in ('seq', 'tup', 'set', 'dict', 'str', 'int', 'num', 'bool', 'cm') and t.op != 'opq':
        ip.note('method .%s' % name, node)
        return V(opaque('method', [const(name)] + flat), ANYK)
    # objects from the outside (files, readers, ...)
    ip.event('extmethod', st, node, name=name, recv=t)
    return V(app('method', [const(name)] + flat), ANYK)


def listadd(ip, b, name, st):
    """xs[i].add(e) on a list of sets, and multimaps, have their own model."""
    if b.path is None:
        return False
    r, c = ip.single_ref(b.path[0], st)
    return c is not None and (c.cls == 'mm' or (c.kind == 'list' and name == 'add'))


def place_method(ip, recv, name, args, kwargs, st, node):
    """Mutating method on a container that lives inside another container."""
    a0 = ip.pure(args[0].t, st) if args else None
    root = st.heap.get(recv.p[0].a[0])
    if root is None:
        return None
    kb = recv.k.b
    isseq = 'list' in kb or recv.t.ty[0] == 'seq'
    isset = 'set' in kb or recv.t.ty[0] == 'set'
    if name in ('append', 'extend', 'pop', 'insert') or isseq and not isset:
        if name == 'append':
            f = lambda t: concat([t, one(a0)])
        elif name == 'extend':
            s = ip.pure(ip.iterterm(args[0], st), st)
            f = lambda t: concat([t, s])
        elif name == 'clear':
            f = lambda t: EMPTY
        else:
            return None
    elif name == 'add':
        f = lambda t: union(t, setlit([a0]))
    elif name in ('discard', 'remove'):
        f = lambda t: diff(t, setlit([a0]))
    elif name == 'update' and not any(x in kb for x in ('dict', 'any')):
        s = to_set(ip.pure(ip.iterterm(args[0], st), st))
        f = lambda t: union(t, s)
    elif name == 'clear' and isset:
        f = lambda t: emptyset()
    else:
        return None
    if root.owner is not None and not isinstance(root.owner, tuple) and ip.stack:
        ip.event('mutation', st, node, root=root.owner, what=name)
    if not ip.path_update(recv.p, st, node, f):
        return None
    return NONEV


def unbound(ip, cls, name, args, kwargs, st, node):
    """dict.fromkeys(..), dict.__setitem__(d, k, v), str.join(s, xs), ..."""
    if name == '__init__' and args and cls in ('dict', 'defaultdict') and ip.map_place(args[0], st) is not None:
        for a in args[1:] if cls == 'dict' else args[2:]:
            map_update(ip, (args[0].t, ()), a, st, node)
        return NONEV
    if name in ('__init__', '__new__'):
        return NONEV
    if name == 'fromkeys':
        d = ip.newdict(st)
        s = ip.pure(ip.iterterm(args[0], st), st)
        v = args[1] if len(args) > 1 else NONEV
        r, c = ip.single_ref(d, st)
        es = ones(s)
        if es is not None and all(isconst(e) for e in es):
            st.heap[r.a[0]] = c.but(d={e: (TRUE, v) for e in es}, k=v.k)
        else:
            st.heap[r.a[0]] = c.but(t=im.mapseq(s, lambda e: concat([one(e), one(v.t)])), d=None, k=v.k)
        return d
    if cls == 'str' and name == 'maketrans':
        return ip.opaque_call(V(const('maketrans')), args, kwargs, st, node, 'maketrans')
    if args:
        r, c = ip.single_ref(args[0], st)
        if c is not None and c.kind == 'dataset':
            return dataset_method(ip, args[0], r, c, name, args[1:], kwargs, st, node, False)
        if name == '__setitem__':
            return ip.setitem(args[0], args[1], args[2], st, node)
        if name == '__getitem__':
            return ip.getitem(args[0], args[1], st, node)
        if name == '__contains__':
            return V(ip.containsv(args[0], args[1], st), BOOLK)
        return call_method(ip, im.Bound(name, args[0]), args[1:], kwargs, st, node)
    ip.note('unbound method', node)
    return V(opaque('unbound', (const(cls + '.' + name),)), ANYK)


def inst_method(ip, recv, r, c, name, args, kwargs, st, node):
    cls = None
    for o in ip.reg.values():
        if isinstance(o, im.UserClass) and o.name == c.cls:
            cls = o
    if cls is not None and name in cls.attrs:
        o = ip.reg.get(cls.attrs[name].t)
        if isinstance(o, im.UserFn):
            return ip.call_user(o, [recv] + list(args), kwargs, st, node)
    ip.note('instance method ' + name, node)
    return ip.opaque_call(V(const('.' + name)), [recv] + list(args), kwargs, st, node, '.' + name)


def dataset_method(ip, recv, r, c, name, args, kwargs, st, node, own=True):
    m = ip.class_method(c.cls, name) if own else None
    if m is not None:
        return ip.call(m, [recv] + list(args), kwargs, st, node)
    if name == '__init__':
        if len(args) > 1:
            map_update(ip, (r, ()), args[1], st, node)
        return NONEV
    w = map_method(ip, (r, ()), recv, name, args, kwargs, st, node)
    if w is not None:
        return w
    f = globals().get('p_' + name)
    if f is not None:
        w = f(ip, V(ip.pure(recv.t, st), recv.k), args, kwargs, st, node)
        if w is not None:
            return w
    ip.note('dataset method ' + name, node)
    return ip.opaque_call(V(const('.' + name)), [recv] + list(args), kwargs, st, node, '.' + name)


def share(ip, m, node):
    """The mapping m with the same containers as entries."""
    if tm.valty(m)[0] not in ('dict', 'any') or m.op in ('bot', 'undef'):
        return m
    x = tm.lv(tm.elemty(m), 'x')
    return tm.mkmap(x, tm.contains(m, x), tm.shallow(tm.at(m, x), ip.site(node)))


def map_update(ip, p, v, st, node):
    """d.update(v) for a dataset or a dictionary inside one."""
    m = ip.map_term(p, st)
    rr, cc = ip.single_ref(v, st)
    if (cc is None or cc.kind not in ('dict', 'dataset')) and v.t.ty[0] not in ('dict', 'dataset'):
        ents = entries(ip, v, st)
        n = tm.asmap(ip.pure(ents, st)) if ents is not None else None
    else:
        n = ip.mapof(v, st)
    if n is None or n.ty[0] not in ('dict', 'dataset'):
        ip.note('update of a mapping', node)
        n = opaque('update', (ip.pure(v.t, st),), ('dict', STR, ANY))
    n = lift(lambda x: share(ip, x, node), n)
    ip.map_replace(p, tm.lift(lambda a, b: tm.mapmerge(a, b), m, n), st, node)
    return NONEV


def map_method(ip, p, recv, name, args, kwargs, st, node):
    """Methods of a dataset or of a dictionary inside one."""
    if name == 'update':
        if args:
            map_update(ip, p, args[0], st, node)
        for n, (q, w) in kwargs.items():
            if n == '**' or q is not TRUE:
                ip.note('update with options', node)
            else:
                ip.map_set(p, const(n), w, st, node)
        return NONEV
    if name in ('get', '__getitem__', 'setdefault', 'pop', '__setitem__', '__delitem__', '__contains__') and args:
        kt = ip.pure(args[0].t, st)
        if kt.op == 'ite':
            return ip.leafwise(V(kt, args[0].k), st, lambda x, S: map_method(ip, p, recv, name, [x] + list(args[1:]), kwargs, S, node))
        m = ip.map_term(p, st)
        if name == '__contains__':
            return V(contains(m, kt), BOOLK)
        if name == 'get':
            return ip.map_get(p, kt, args[0], st, node, args[1] if len(args) > 1 else kwv(kwargs, 'default', NONEV))
        if name == '__getitem__':
            return ip.map_get(p, kt, args[0], st, node)
        if name == '__setitem__':
            ip.map_set(p, kt, args[1], st, node)
            return NONEV
        if name == '__delitem__':
            ip.map_del(p, kt, st, node)
            return NONEV
        miss = ip.simp(neg(contains(m, kt)), st)
        if name == 'setdefault':
            d = args[1] if len(args) > 1 else NONEV
            if miss is TRUE:
                ip.map_set(p, kt, d, st, node)
            elif miss is not FALSE:
                ip.branch(st, miss, lambda A: ip.map_set(p, kt, d, A, node) or NONEV, lambda B: NONEV)
            q = (p[0], p[1] + (kt,))
            t = ip.path_read(q, st)
            return V(t, kd.of_ty(t.ty), q)
        # pop
        val = V(at(m, kt), None)
        if len(args) > 1 or 'default' in kwargs:
            d = args[1] if len(args) > 1 else kwv(kwargs, 'default', NONEV)
            ip.map_del(p, kt, st, node, False)
            return val if miss is FALSE else (d if miss is TRUE else ip.mergeV(miss, d, val))
        ip.map_del(p, kt, st, node)
        return val
    if name == 'clear':
        ip.map_replace(p, tm.emptymap(STR), st, node)
        return NONEV
    if name == 'copy' and (p[1] or st.heap[p[0].a[0]].cls == 'plain'):
        return plain_copy(ip, V(ip.map_term(p, st)), st, node)
    if name == '__iter__':
        return V(ip.iterterm(recv, st), K('iter', STRK))
    if name == '__len__':
        return V(length(ip.map_term(p, st)), INTK)
    if name in im.MUTATORS:
        ip.note('mapping method ' + name, node)
        ip.map_replace(p, opaque('mapping', (const(name), ip.map_term(p, st)), ('dict', STR, ANY)), st, node)
        return V(opaque('mapping', (const(name),)), ANYK)
    return None


# --- list cells
def m_list_append(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'append')
    x = args[0]
    st.heap[r.a[0]] = c.but(t=concat([c.t, one(x.t)]), k=kd.join(c.k, x.k))
    return NONEV


def m_list_extend(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'extend')
    x = args[0]
    st.heap[r.a[0]] = c.but(t=concat([c.t, ip.iterterm(x, st)]), k=kd.join(c.k, kd.elem(x.k, None)))
    return NONEV


def m_list_insert(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'insert')
    if intval(args[0].t) == 0:
        t = concat([one(args[1].t), c.t])
    else:
        ip.note('list.insert', node)
        t = opaque('insert', (ip.pure(c.t, st), args[0].t, ip.pure(args[1].t, st)), ('seq', ANY))
    st.heap[r.a[0]] = c.but(t=t, k=kd.join(c.k, args[1].k))
    return NONEV


def m_list_pop(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'pop')
    es = ones(c.t)
    i = intval(args[0].t) if args else -1
    if es and i is not None and -len(es) <= i < len(es):
        x = es[i]
        del es[i]
        st.heap[r.a[0]] = c.but(t=concat([one(e) for e in es]))
        return V(x, c.k or ANYK)
    segs = tm.segs_of(c.t)
    if i == -1 and segs and segs[-1][0] == 'one':
        st.heap[r.a[0]] = c.but(t=tm.mkseq(segs[:-1]))
        return V(segs[-1][1], c.k or ANYK)
    if i == 0 and segs and segs[0][0] == 'one':
        st.heap[r.a[0]] = c.but(t=tm.mkseq(segs[1:]))
        return V(segs[0][1], c.k or ANYK)
    if i == -1 and c.t.op != 'ite':
        n = length(c.t)
        x = at(c.t, sub(n, ONE))
        st.heap[r.a[0]] = c.but(t=tm.slice_(c.t, ZERO, sub(n, ONE)))
        return V(x, c.k or ANYK)
    ip.note('list.pop', node)
    st.heap[r.a[0]] = c.but(t=opaque('pop', (ip.pure(c.t, st),), ('seq', ANY)))
    return V(opaque('popped', (ip.pure(c.t, st),)), c.k or ANYK)


def m_list_sort(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'sort')
    s = b_sorted(ip, [V(c.t, K('list', c.k))], kwargs, st, node)
    st.heap[r.a[0]] = c.but(t=st.heap[s.t.a[0]].t)
    return NONEV


def m_list_reverse(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'reverse')
    s = b_reversed(ip, [V(c.t, K('list', c.k))], {}, st, node)
    st.heap[r.a[0]] = c.but(t=s.t)
    return NONEV


def m_list_clear(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'clear')
    st.heap[r.a[0]] = c.but(t=EMPTY)
    return NONEV


def m_list_remove(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'remove')
    ip.note('list.remove', node)
    st.heap[r.a[0]] = c.but(t=opaque('remove', (ip.pure(c.t, st), ip.pure(args[0].t, st)), ('seq', ANY)))
    return NONEV


def m_list_copy(ip, v, r, c, args, kwargs, st, node):
    return ip.newlist(st, c.t, c.k)


def m_list_count(ip, v, r, c, args, kwargs, st, node):
    return p_count(ip, V(ip.pure(c.t, st), K('list', c.k)), args, kwargs, st, node)


def m_list_index(ip, v, r, c, args, kwargs, st, node):
    return V(app('indexof', (ip.pure(c.t, st), ip.pure(args[0].t, st)), NAT), INTK)


# --- set cells
def m_set_add(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'add')
    st.heap[r.a[0]] = c.but(t=union(c.t, setlit([ip.pure(args[0].t, st)])), k=kd.join(c.k, args[0].k))
    return NONEV


def m_set_discard(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'discard')
    st.heap[r.a[0]] = c.but(t=diff(c.t, setlit([ip.pure(args[0].t, st)])))
    return NONEV


m_set_remove = m_set_discard


def m_set_clear(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'clear')
    st.heap[r.a[0]] = c.but(t=tm.emptyset())
    return NONEV


def m_set_pop(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'pop')
    ip.note('set.pop', node)
    x = opaque('setpop', (ip.pure(c.t, st),))
    st.heap[r.a[0]] = c.but(t=diff(c.t, setlit([x])))
    return V(x, c.k or ANYK)


def setupd(f):
    def g(ip, v, r, c, args, kwargs, st, node):
        ip.mutation(v, st, node, 'update')
        t, k = c.t, c.k
        for a in args:
            t = f(t, asset_of(ip, a, st))
            k = kd.join(k, kd.elem(a.k, None))
        st.heap[r.a[0]] = c.but(t=t, k=k)
        return NONEV
    return g


m_set_update = setupd(union)
m_set_intersection_update = setupd(inter)
m_set_difference_update = setupd(diff)
m_set_symmetric_difference_update = setupd(symdiff)


def setop(f):
    def g(ip, recv, args, kwargs, st, node):
        s = asset_of(ip, recv, st)
        k = kd.elem(recv.k, None)
        for a in args:
            s = f(s, asset_of(ip, a, st))
            k = kd.join(k, kd.elem(a.k, None))
        if any(x.ty[0] != 'set' for x in leaves(s)):
            return None
        return ip.own(V(s, K(recv.k.b & frozenset(['set', 'frozenset']) or 'frozenset', k)), st)
    return g


p_union = setop(union)
p_intersection = setop(inter)
p_difference = setop(diff)
p_symmetric_difference = setop(symdiff)


def p_issubset(ip, recv, args, kwargs, st, node):
    a, b = asset_of(ip, recv, st), asset_of(ip, args[0], st)
    return V(eq(length(diff(a, b)), ZERO), BOOLK)


def p_issuperset(ip, recv, args, kwargs, st, node):
    a, b = asset_of(ip, recv, st), asset_of(ip, args[0], st)
    return V(eq(length(diff(b, a)), ZERO), BOOLK)


def p_isdisjoint(ip, recv, args, kwargs, st, node):
    a, b = asset_of(ip, recv, st), asset_of(ip, args[0], st)
    return V(eq(length(inter(a, b)), ZERO), BOOLK)


# --- dict cells
def m_dict_get(ip, v, r, c, args, kwargs, st, node):
    default = args[1] if len(args) > 1 else kwv(kwargs, 'default', NONEV)
    if c.cls == 'defaultdict' and c.t is None:
        kt = ip.pure(args[0].t, st)
        if isconst(kt) and kt not in c.d:
            return default
    return ip.dict_get(r, c, args[0], st, node, default)


def m_dict_setdefault(ip, v, r, c, args, kwargs, st, node):
    default = args[1] if len(args) > 1 else NONEV
    kt = ip.pure(args[0].t, st)
    if c.t is None and isconst(kt) and all(isconst(x) for x in c.d):
        p, w = c.d.get(kt, (FALSE, BOTV))
        if p is TRUE:
            return w
        ip.mutation(v, st, node, 'setdefault')
        d = dict(c.d)
        d[kt] = (TRUE, default if p is FALSE else ip.mergeV(p, w, default))
        st.heap[r.a[0]] = c.but(d=d, k=kd.join(c.k, default.k))
        return d[kt][1]
    ip.mutation(v, st, node, 'setdefault')
    rr, cc = ip.single_ref(default, st)
    if cc is not None and cc.kind == 'list' and cc.t is EMPTY and (c.cls == 'mm' or (c.t is None and not c.d)):
        # multimap: setdefault(k, []) followed by .append
        st.heap[r.a[0]] = c.but(t=c.t if c.t is not None else EMPTY, d=None, cls='mm')
        ip.mms.add(r.a[0])
        ip.opened(r.a[0], kt, st, node)
        return V(mk('mmslot', (r, kt), ('mmslot',)), K('list'))
    ip.note('setdefault on a symbolic dictionary', node)
    st.heap[r.a[0]] = ip.symdict(c).but(t=opaque('setdefault', (ip.pure(v.t, st), kt, ip.pure(default.t, st)), ('seq', ANY)))
    return V(opaque('setdefault', (kt,)), ANYK)


def m_dict_keys(ip, v, r, c, args, kwargs, st, node):
    return V(ip.iterterm(v, st), K('iter', STRK if c.t is None else ANYK))


m_dict___iter__ = m_dict_keys


def m_dict_values(ip, v, r, c, args, kwargs, st, node):
    if c.t is None:
        items = [(p, w) for p, w in c.d.values()]
        t = concat([ite(p, one(w.t), EMPTY) for p, w in items]) if items else EMPTY
        k = None
        for p, w in items:
            k = kd.join(k, w.k)
        return V(t, K('iter', k))
    if c.cls == 'mm':
        t = mmgroups(ip, c)
        return V(im.mapseq(t, lambda e: at(e, ONE)), K('iter', K('list', c.k)))
    return V(im.mapseq(c.t, lambda e: at(e, ONE)), K('iter', c.k))


def m_dict_items(ip, v, r, c, args, kwargs, st, node):
    if c.t is None:
        t = concat([ite(p, one(concat([one(kt), one(w.t)])), EMPTY) for kt, (p, w) in c.d.items()]) if c.d else EMPTY
        k = None
        for p, w in c.d.values():
            k = kd.join(k, w.k)
        return V(t, K('iter', K('tuple', ANYK, (ANYK, k or ANYK))))
    if c.cls == 'mm':
        return V(mmgroups(ip, c), K('iter', K('tuple', ANYK, (ANYK, K('list', c.k)))))
    return V(c.t, K('iter', K('tuple', ANYK, (ANYK, c.k or ANYK))))


def mmgroups(ip, c):
    """[(key, [values with that key])] of a multimap."""
    ks = to_set(ip.mm_keys(c))
    x = lv(tm.elemty(ks), 'k')
    grp = im.mapseq(c.t, lambda e: at(e, ONE), lambda e: eq(at(e, ZERO), x))
    return comp(x, ('set', contains(ks, x)), one(concat([one(x), one(grp)])))


def m_dict_update(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'update')
    if args:
        dict_update(ip, v, args[0], st, node)
    for n, (p, w) in kwargs.items():
        if n == '**':
            dict_update(ip, v, w, st, node)
        else:
            d = ip.newdict(st)
            rr = d.t
            st.heap[rr.a[0]] = st.heap[rr.a[0]].but(d={const(n): (p, w)}, k=w.k)
            dict_update(ip, v, d, st, node)
    return NONEV


def m_dict_pop(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'pop')
    kt = ip.pure(args[0].t, st)
    if c.t is None and isconst(kt):
        p, w = c.d.get(kt, (FALSE, BOTV))
        d = dict(c.d)
        d.pop(kt, None)
        st.heap[r.a[0]] = c.but(d=d)
        if len(args) > 1:
            return ip.mergeV(p, w, args[1]) if p is not FALSE else args[1]
        if p is not TRUE:
            miss = ip.simp(neg(p), st)
            if miss is TRUE:
                ip.raise_('KeyError', st, node)
                return BOTV
            if miss is not FALSE:
                B = st.copy()
                B.live = conj(st.live, miss)
                ip.raise_('KeyError', B, node)
                st.exits += B.exits
                st.live = conj(st.live, neg(miss))
        return w
    ip.note('dict.pop', node)
    st.heap[r.a[0]] = ip.symdict(c).but(t=opaque('dictpop', (ip.pure(v.t, st), kt), ('seq', ANY)))
    return V(opaque('dictpop', (kt,)), ANYK)


def m_dict_copy(ip, v, r, c, args, kwargs, st, node):
    d = ip.newdict(st)
    st.heap[d.t.a[0]] = Cellcopy(c)
    return V(d.t, K('dict', c.k))


def Cellcopy(c):
    return c.but(owner=None)


def m_dict_clear(ip, v, r, c, args, kwargs, st, node):
    ip.mutation(v, st, node, 'clear')
    st.heap[r.a[0]] = c.but(d={}, t=None)
    return NONEV


def m_dict___contains__(ip, v, r, c, args, kwargs, st, node):
    return V(ip.containsv(v, args[0], st), BOOLK)


# --- mutation of a container found inside another one: base[k].append(x)
def path_method(ip, b, name, args, kwargs, st, node):
    base, k = b.path
    if base.t.op == 'ite' and any(x.op == 'ref' for x in leaves(base.t)):
        ip.note('mutation through an alternative container', node)
    r, c = ip.single_ref(base, st)
    if c is not None and c.kind == 'dict' and c.cls == 'mm' and name == 'append':
        kt = ip.pure(k.t, st)
        ip.mutation(base, st, node, 'append')
        ip.appended(r.a[0], kt, st)
        st.heap[r.a[0]] = c.but(t=concat([c.t, one(concat([one(kt), one(ip.freeze_all(args[0].t, st))]))]), k=kd.join(c.k, args[0].k))
        return NONEV
    if c is not None and c.kind == 'dict' and c.cls == 'mm' and name == 'extend':
        kt = ip.pure(k.t, st)
        s = ip.pure(ip.iterterm(args[0], st), st)
        st.heap[r.a[0]] = c.but(t=concat([c.t, im.mapseq(s, lambda e: concat([one(kt), one(e)]))]), k=kd.join(c.k, kd.elem(args[0].k)))
        return NONEV
    if c is not None and c.kind == 'list' and name == 'add':
        idx = ip.asidx(k, st)
        x = ip.pure(args[0].t, st)
        es = ones(c.t)
        n = intval(idx)
        if es is not None and n is not None and -len(es) <= n < len(es):
            es[n] = union(es[n], setlit([x])) if es[n].op != 'ref' else es[n]
            st.heap[r.a[0]] = c.but(t=concat([one(e) for e in es]))
            return NONEV
        L = length(c.t)
        st.heap[r.a[0]] = c.but(t=app('setadd', (ip.pure(c.t, st), idx, x), c.t.ty))
        return NONEV
    ip.mutation(base if c is not None else b.recv, st, node, name)
    if c is not None and c.kind in ('list', 'dict', 'set'):
        ip.note('mutation of a nested container', node)
        args_t = [ip.pure(a.t, st) for a in args]
        ty = {'list': ('seq', ANY), 'set': ('set', ANY), 'dict': ('seq', ANY)}[c.kind]
        old = ip.pure(base.t, st)
        st.heap[r.a[0]] = c.but(t=opaque('nested', [const(name), old, ip.pure(k.t, st)] + args_t, ty), d=None if c.kind == 'dict' else c.d)
    return V(opaque('nested', (const(name),)), ANYK)


def pure_mutator(ip, recv, name, args, kwargs, st, node):
    t = recv.t
    if t.op == 'mmslot':
        r, kt = t.a
        c = st.heap[r.a[0]]
        if name == 'append':
            x = ip.freeze_all(args[0].t, st)
            ip.appended(r.a[0], kt, st)
            st.heap[r.a[0]] = c.but(t=concat([c.t, one(concat([one(kt), one(x)]))]), k=kd.join(c.k, args[0].k))
            return NONEV
        if name == 'extend':
            s = ip.pure(ip.iterterm(args[0], st), st)
            st.heap[r.a[0]] = c.but(t=concat([c.t, im.mapseq(s, lambda e: concat([one(kt), one(e)]))]), k=kd.join(c.k, kd.elem(args[0].k)))
            return NONEV
    return None


# --- pure values
def p_keys(ip, recv, args, kwargs, st, node):
    def f(t):
        if t.op == 'dictv':
            return ip.iterterm(V(t), st)
        if t.op == 'cmrow' and t.a[0].op != 'ref':
            x = lv(ANY, 'x')
            return tm.mkset(x, contains(t, x))
        if t.ty[0] in ('dict', 'dataset', 'cm'):
            return tm.keys_of(t)
        return None
    xs = [f(t) for t in leaves(recv.t)]
    if any(x is None for x in xs):
        if all(t.ty[0] == 'any' for t in leaves(recv.t)):
            return V(app('keys', (recv.t,), ('set', ANY)), K('keys', ANYK))
        return None
    return V(lift(f, recv.t), K('keys', STRK))


def p_values(ip, recv, args, kwargs, st, node):
    def f(t):
        if t.op == 'dictv' and t.a[0] == 'known':
            return concat([ite(p, one(v), EMPTY) for kt, p, v in t.a[1:]])
        if t.ty[0] in ('dict', 'dataset', 'cm'):
            ks = tm.keys_of(t)
            x = lv(tm.elemty(ks), 'k')
            return comp(x, ('set', contains(ks, x)), one(at(t, x)))
        return None
    xs = [f(t) for t in leaves(recv.t)]
    if any(x is None for x in xs):
        if all(t.ty[0] == 'any' for t in leaves(recv.t)):
            return V(app('values', (recv.t,), ('seq', ANY)), K('iter', ANYK))
        return None
    return V(lift(f, recv.t), K('iter', kd.elem(recv.k)))


def p_items(ip, recv, args, kwargs, st, node):
    def f(t):
        if t.op == 'dictv' and t.a[0] == 'known':
            return concat([ite(p, one(concat([one(kt), one(v)])), EMPTY) for kt, p, v in t.a[1:]])
        if t.ty[0] in ('dict', 'dataset', 'cm'):
            ks = tm.keys_of(t)
            x = lv(tm.elemty(ks), 'k')
            return comp(x, ('set', contains(ks, x)), one(concat([one(x), one(at(t, x))])))
        return None
    xs = [f(t) for t in leaves(recv.t)]
    if any(x is None for x in xs):
        if all(t.ty[0] == 'any' for t in leaves(recv.t)):
            return V(app('items', (recv.t,), ('seq', ANY)), K('iter', K('tuple', ANYK)))
        return None
    ek = kd.elem(recv.k)
    return V(lift(f, recv.t), K('iter', K('tuple', ANYK, (STRK if recv.t.ty[0] == 'dataset' else ANYK, ek))))


def emptyish(ip, v, st):
    if v is None or v.t is NONE_T:
        return False
    t = ip.pure(v.t, st)
    return t is ZERO or (t.op == 'dictv' and len(t.a) == 1)


def p_get(ip, recv, args, kwargs, st, node):
    t = recv.t
    if t.op == 'ite' and any(x.op == 'cmrow' for x in leaves(t)):
        return ip.leafwise(V(ip.simp(t, st), recv.k), st, lambda x, S: p_get(ip, x, args, kwargs, S, node) or V(opaque('rowget', (x.t,)), ANYK))
    default = args[1] if len(args) > 1 else kwv(kwargs, 'default', NONEV)
    kt = ip.pure(args[0].t, st)
    if t.op == 'cmrow':
        if t.a[0].op in ('var', 'at'):
            if emptyish(ip, default, st):
                return V(app('cmget', (t.a[0], t.a[1], kt), NAT), INTK)
        if t.a[0].op != 'var' and t.a[0].op != 'at' and emptyish(ip, default, st):
            return V(cmcount(ip.pure(t.a[0], st), ip.pure(t.a[1], st), kt), K(['int', 'dec']))
        return V(opaque('cmrowget', (t, kt)), ANYK)
    if t.op == 'ref' and t.ty[0] == 'cm' and emptyish(ip, default, st):
        return V(mk('cmrow', (t, kt), ('cmrow',)), K('cmrow'))
    if t.ty[0] == 'cm' and t.op != 'ref':
        if emptyish(ip, default, st):
            return V(mk('cmrow', (t, kt), ('cmrow',)), K('cmrow'))
        inn = contains(t, kt)
        return V(ite(inn, mk('cmrow', (t, kt), ('cmrow',)), default.t), kd.join(K('cmrow'), default.k))

    def f(x):
        if x.op == 'dictv' and x.a[0] == 'known':
            r = default.t
            for q, p, v in x.a[1:]:
                r = ite(conj(eq(q, kt), p), v, r)
            return r
        if x.ty[0] in ('dict', 'dataset'):
            return ite(contains(x, kt), at(x, kt), default.t)
        return None
    xs = [f(x) for x in leaves(t)]
    if any(x is None for x in xs):
        return None
    return V(lift(f, t), kd.join(kd.elem(recv.k), default.k))


def p_copy(ip, recv, args, kwargs, st, node):
    t = recv.t
    if t.ty[0] in ('set', 'seq'):
        return ip.own(V(t, recv.k), st)
    if t.ty[0] in ('dict',):
        return plain_copy(ip, recv, st, node) or V(t, recv.k)
    if t.ty[0] == 'dataset':
        ip.event('datasetcopy', st, node)
        return V(app('dscopy', (t,), t.ty), recv.k)
    return None


def p_classes(ip, recv, args, kwargs, st, node):
    return V(app('classes', (recv.t,), ('set', ANY)), K('set', ANYK))


def m_cm_get(ip, v, r, c, args, kwargs, st, node):
    default = args[1] if len(args) > 1 else kwv(kwargs, 'default', NONEV)
    if emptyish(ip, default, st):
        return V(mk('cmrow', (r, args[0].t), ('cmrow',)), K('cmrow'))
    ip.note('confusion matrix row with a default', node)
    return V(opaque('cmrowget', (ip.content(r, st), ip.pure(args[0].t, st))), ANYK)


def m_cm_classes(ip, v, r, c, args, kwargs, st, node):
    return V(app('classes', (ip.content(r, st),), ('set', ANY)), K('set', ANYK))


def p_count(ip, recv, args, kwargs, st, node):
    t = recv.t
    x = ip.pure(args[0].t, st)
    if t.ty[0] == 'str':
        return V(app('strcount', (t, x), NAT), INTK)
    if t.ty[0] in ('seq', 'tup'):
        i = lv(('int', 0), 'i')
        s = im.mapseq(t, lambda e: e, lambda e: eq(e, x))
        return V(length(s), INTK)
    return None


def p_index(ip, recv, args, kwargs, st, node):
    return V(app('indexof', (recv.t, ip.pure(args[0].t, st)), NAT), INTK)


def p_split(ip, recv, args, kwargs, st, node):
    def f(t, *xs):
        return app('split', (t,) + xs, ('seq', STR))
    return V(lift(f, recv.t, *[ip.pure(a.t, st) for a in args]), K('list', STRK))


def p_join(ip, recv, args, kwargs, st, node):
    s = ip.pure(ip.iterterm(args[0], st), st)

    def f(x):
        if x.op == 'seq':
            sep = recv.t
            out = []
            buf = []
            es = ones(x)
            if es is not None:
                if any(e.ty[0] in ('int', 'num', 'tup', 'bool', 'none') for e in es):
                    ip.raise_('TypeError', st, node)
                    return tm.BOT
                for n, e in enumerate(es):
                    if n:
                        out.append(sep)
                    out.append(e)
                return im.fmt(out)
        return app('join', (recv.t, x), STR)
    return V(lift(f, s), STRK)


def p_format(ip, recv, args, kwargs, st, node):
    t = recv.t
    if t.op == 'const' and not kwargs:
        import re
        parts = re.split(r'(\{\d*\})', t.a[1])
        if not any('{' in p or '}' in p for p in parts[::2]):
            out, n, ok = [], 0, True
            for p in parts:
                if p.startswith('{') and p.endswith('}'):
                    i = int(p[1:-1]) if p[1:-1] else n
                    n += 1
                    if i >= len(args):
                        ok = False
                        break
                    out.append(b_str(ip, [args[i]], {}, st, node).t)
                elif p:
                    out.append(const(p))
            if ok:
                return V(lift(lambda *xs: im.fmt(list(xs)), *out) if out else const(''), STRK)
    flat = [t] + [ip.pure(a.t, st) for a in args]
    for n in sorted(kwargs):
        flat += [const(n), ip.pure(kwargs[n][1].t, st)]
    return V(app('strformat', flat, STR), STRK)


def strm(name, ty=STR):
    def g(ip, recv, args, kwargs, st, node):
        xs = [ip.pure(a.t, st) for a in args]
        if recv.t.op == 'const' and recv.t.a[0] == 'str' and not xs and name in ('lower', 'upper', 'strip', 'title'):
            return V(const(getattr(recv.t.a[1], name)()), STRK)
        if recv.t.ty[0] not in ('str', 'any'):
            return None
        return V(app('str.' + name, [recv.t] + xs, ty), kd.of_ty(ty))
    return g


for _n in ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'title', 'replace', 'encode', 'decode', 'zfill'):
    globals()['p_' + _n] = strm(_n)
for _n in ('startswith', 'endswith', 'isdigit'):
    globals()['p_' + _n] = (lambda nm: lambda ip, recv, args, kwargs, st, node: V(
        atomise(mk('truth', (app('str.' + nm, [recv.t] + [ip.pure(a.t, st) for a in args]),), BOOL)), BOOLK))(_n)
p_splitlines = strm('splitlines', ('seq', STR))


def p_sqrt(ip, recv, args, kwargs, st, node):
    return V(lift(lambda x: app('sqrt', (x,), NUM), ip.asnum(recv, st)), recv.k)


def p_quantize(ip, recv, args, kwargs, st, node):
    return V(app('quantize', [ip.asnum(recv, st)] + [ip.pure(a.t, st) for a in args], NUM), DECK)


p_to_integral_value = p_quantize


def p_is_zero(ip, recv, args, kwargs, st, node):
    return V(eq(ip.asnum(recv, st), ZERO), BOOLK)


def p_most_common(ip, recv, args, kwargs, st, node):
    return None


# ------------------------------------------------------------------ library
def call_ext(ip, name, args, kwargs, st, node):
    if name.startswith('segeval.'):
        ip.note('call of missing package name ' + name, node)
    f = EXT.get(name)
    if f is not None and not star(args):
        r = f(ip, args, kwargs, st, node)
        if r is not None:
            return r
    base = name.split('.')[-1]
    if name.startswith('collections.defaultdict.') and args and not star(args):
        return unbound(ip, 'defaultdict', base, args, kwargs, st, node)
    if base.endswith('__init__'):
        return NONEV
    if base in im.EXCEPTIONS or base.endswith('Error') or base.endswith('Exception'):
        return V(mk('exc', (base,), ('exc',)), ANYK)
    flat = [const(name)]
    for a in args:
        if isinstance(a, tuple):
            a = a[1]
        flat.append(ip.pure(a.t, st))
    for n in sorted(kwargs):
        flat += [const(n), ip.pure(kwargs[n][1].t, st)]
    ip.event('ext', st, node, name=name, args=tuple(flat[1:]))
    ty = EXTTY.get(name, ANY)
    if star(args):
        return V(opaque('ext', flat, ty), ANYK)
    if ty == BOOL:
        return V(atomise(mk('truth', (app('ext', flat),), BOOL)), BOOLK)
    return V(app('ext', flat, ty))


EXTTY = {'os.path.join': STR, 'os.path.splitext': ('seq', STR), 'os.path.basename': STR, 'os.path.split': ('seq', STR),
         'os.listdir': ('seq', STR), 'os.path.isdir': BOOL, 'os.path.isfile': BOOL, 'os.path.exists': BOOL,
         'csv.reader': ('seq', ('seq', STR)), 'os.path.dirname': STR, 'os.path.abspath': STR}


def x_decimal(ip, args, kwargs, st, node):
    if not args:
        return V(ZERO, DECK)
    v = args[0]
    if 'float' in v.k.b or 'fstr' in v.k.b:
        ip.event('float2dec', st, node)

    def f(t):
        if t.op == 'const' and t.a[0] == 'str':
            try:
                return num(Fraction(t.a[1].strip()))
            except (ValueError, ZeroDivisionError):
                return opaque('decimal', (t,), NUM)
        if t.op == 'app' and t.a[0] == 'str':
            return f(t.a[1])
        if t.ty[0] == 'bool':
            return ite(t, ONE, ZERO) if t.op == 'ite' else num(1 if t is TRUE else 0)
        if t.ty[0] in ('int', 'num'):
            return t
        if t.op in ('bot', 'undef'):
            return t
        if t.ty[0] in ('any', 'str'):
            return mk('app', ('num', t), NUM)
        return opaque('decimal', (t,), NUM)
    return V(lift(f, ip.pure(v.t, st)), DECK)


def x_combinations(ip, args, kwargs, st, node):
    v = args[0]
    r = args[1] if len(args) > 1 else kwv(kwargs, 'r')
    if r is None or intval(r.t) != 2:
        return None
    s = ip.iterterm(v, st)
    ek = kd.elem(v.k)

    def f(x):
        es = ones(x)
        if es is not None:
            return concat([one(concat([one(es[i]), one(es[j])])) for i in range(len(es)) for j in range(i + 1, len(es))])
        n = length(x)
        i, j = lv(('int', 0), 'i'), lv(('int', 0), 'j')
        inner = comp(j, ('range', sub(sub(n, i), ONE)), one(concat([one(at(x, i)), one(at(x, add(add(i, j), ONE)))])))
        return comp(i, ('range', n), inner)
    return V(lift(f, s), K('iter', K('tuple', ek, (ek, ek))))


def x_product(ip, args, kwargs, st, node):
    if kwargs.get('repeat') is not None:
        n = intval(kwv(kwargs, 'repeat').t)
        if n is None:
            return None
        args = list(args) * n
    ss = [ip.iterterm(a, st) for a in args]
    eks = tuple(kd.elem(a.k) for a in args)

    def go(i, acc):
        if i == len(ss):
            return one(concat([one(x) for x in acc]))
        return flat(ss[i], lambda e: go(i + 1, acc + [e]))
    ek = None
    for k in eks:
        ek = kd.join(ek, k)
    return V(go(0, []), K('iter', K('tuple', ek, eks)))


def flat(s, f):
    """Concatenation of f(e) for e in s."""
    def leaf(t):
        if t.op == 'bot':
            return EMPTY
        if t.ty[0] == 'set':
            t = im.setseq(t)
        if t.op != 'seq':
            i = lv(('int', 0), 'i')
            return comp(i, ('range', length(t)), f(at(t, i)))
        parts = []
        for sg in t.a:
            if sg[0] == 'one':
                parts.append(f(sg[1]))
            elif sg[0] == 'spl':
                parts.append(lift(leaf, sg[1]))
            else:
                v, dom, body = tm.open_seg(t, sg)
                parts.append(comp(v, dom, lift(leaf, body)))
        return concat(parts)
    return lift(leaf, s)


def x_permutations(ip, args, kwargs, st, node):
    v = args[0]
    r = args[1] if len(args) > 1 else kwv(kwargs, 'r')
    s = ip.pure(ip.iterterm(v, st), st)
    ek = kd.elem(v.k)
    if r is not None and r.t is not NONE_T:
        if intval(r.t) != 2:
            return None
        n = length(s)
        i, j = lv(('int', 0), 'i'), lv(('int', 0), 'j')
        t = comp(i, ('range', n), comp(j, ('range', n), ite(eq(i, j), EMPTY, one(concat([one(at(s, i)), one(at(s, j))])))))
        return V(t, K('iter', K('tuple', ek, (ek, ek))))
    return V(lift(lambda x: app('permutations', (x,), ('seq', ('seq', tm.elemty(x)))), s), K('iter', K('tuple', ek)))


def x_chain(ip, args, kwargs, st, node):
    ek = None
    for a in args:
        ek = kd.join(ek, kd.elem(a.k, None))
    return V(concat([ip.iterterm(a, st) for a in args]), K('iter', ek))


def x_chain_from(ip, args, kwargs, st, node):
    s = ip.iterterm(args[0], st)
    return V(flat(s, lambda e: ip.iterterm(V(e, kd.elem(args[0].k)), st)), K('iter', kd.elem(kd.elem(args[0].k))))


def x_groupby(ip, args, kwargs, st, node):
    v = args[0]
    key = args[1] if len(args) > 1 else kwv(kwargs, 'key')
    s = ip.pure(ip.iterterm(v, st), st)
    if key is not None and key.t is not NONE_T:
        g = app('groupsby', (ip.pure(key.t, st), s), ('seq', ('seq', tm.elemty(s))))
        ip.note('groupby with a key', node)
        g = opaque('groupsby', (ip.pure(key.t, st), s), ('seq', ('seq', tm.elemty(s))))
    else:
        g = lift(tm.groups, s)
    ek = kd.elem(v.k)

    def f(g):
        i = lv(('int', 0), 'g')
        return comp(i, ('range', length(g)), one(concat([one(at(at(g, i), ZERO)), one(at(g, i))])))
    return V(lift(f, g), K('iter', K('tuple', ANYK, (ek, K('iter', ek)))))


def x_accumulate(ip, args, kwargs, st, node):
    if len(args) > 1 or kwargs:
        return None
    s = ip.iterterm(args[0], st)

    def f(x):
        i, j = lv(('int', 0), 'i'), lv(('int', 0), 'j')
        return comp(i, ('range', length(x)), one(SumD(j, ('range', add(i, ONE)), ip.asnum(V(at(x, j)), st))))
    return V(lift(f, s), K('iter', kd.elem(args[0].k)))


def x_repeat(ip, args, kwargs, st, node):
    if len(args) < 2:
        return None
    i = lv(('int', 0), 'i')
    return V(comp(i, ('range', ip.asidx(args[1], st)), one(args[0].t)), K('iter', args[0].k))


def x_islice(ip, args, kwargs, st, node):
    if len(args) > 3:
        return None
    s = ip.iterterm(args[0], st)
    lo, hi = (ZERO, args[1].t) if len(args) == 2 else (args[1].t, args[2].t)
    if lo is NONE_T:
        lo = ZERO
    if hi is NONE_T:
        hi = length(s)
    return V(ip.slice_seq(s, lo, hi, st), K('iter', kd.elem(args[0].k)))


def x_pairwise(ip, args, kwargs, st, node):
    s = ip.iterterm(args[0], st)
    ek = kd.elem(args[0].k)

    def f(x):
        i = lv(('int', 0), 'i')
        return comp(i, ('range', sub(length(x), ONE)), one(concat([one(at(x, i)), one(at(x, add(i, ONE)))])))
    return V(lift(f, s), K('iter', K('tuple', ek, (ek, ek))))


def x_starmap(ip, args, kwargs, st, node):
    f = args[0]
    ek = [None]

    def call1(ev, S):
        s = ip.iterterm(ev, S)
        es = ones(s)
        if es is None:
            return opaque('starmap', (ip.pure(s, S),), ('seq', ANY))
        items = ev.k.items if ev.k.items and len(ev.k.items) == len(es) else [kd.elem(ev.k)] * len(es)
        r = ip.call(f, [V(e, k) for e, k in zip(es, items)], {}, S, node)
        ek[0] = kd.join(ek[0], r.k)
        return one(r.t)
    t = over(ip, args[1], st, node, call1)
    return V(t, K('iter', ek[0])) if t is not None else None


def x_namedtuple(ip, args, kwargs, st, node):
    nm = args[0].t.a[1] if args[0].t.op == 'const' else '?'
    f = args[1]
    fields = None
    if f.t.op == 'const' and f.t.a[0] == 'str':
        fields = f.t.a[1].replace(',', ' ').split()
    else:
        es = ones(ip.iterterm(f, st))
        if es is not None and all(e.op == 'const' for e in es):
            fields = [e.a[1] for e in es]
    if fields is None:
        return None
    ip.nts[nm] = fields
    return ip.fnval(im.NamedTuple(nm, fields), 'namedtuple', nm, tuple(fields))


def x_defaultdict(ip, args, kwargs, st, node):
    d = ip.newdict(st)
    r = d.t
    st.heap[r.a[0]] = st.heap[r.a[0]].but(cls='defaultdict', owner=('factory', args[0].t) if args else None)
    o = ip.reg.get(args[0].t) if args else None
    if isinstance(o, im.Builtin) and o.name == 'list':
        st.heap[r.a[0]] = st.heap[r.a[0]].but(t=EMPTY, d=None, cls='mm')
    elif args and len(args) > 1:
        dict_update(ip, d, args[1], st, node)
    return d


def x_deepcopy(ip, args, kwargs, st, node):
    v = args[0]
    return deep(ip, v, st)


def deep(ip, v, st):
    def f(t):
        if t.op == 'ref':
            c = st.heap.get(t.a[0])
            if c is None:
                return t
            return t
        return t
    if v.t.op == 'ref':
        c = st.heap[v.t.a[0]]
        if c.kind == 'dict' and c.t is None:
            d = {}
            for kt, (p, w) in c.d.items():
                d[kt] = (p, deep(ip, w, st))
            r = ip.alloc(st, 'dict', d=d, k=c.k, cls=c.cls)
            return V(r, v.k)
        r = ip.alloc(st, c.kind, t=tm.unshallow_all(ip.pure(c.t, st)) if c.t is not None else None, k=c.k, cls=c.cls,
                     d={n: deep(ip, w, st) for n, w in c.d.items()} if c.d and c.kind in ('inst', 'dataset') else c.d)
        return V(r, v.k)
    t = ip.pure(v.t, st)
    if t.ty[0] == 'dataset':
        return V(app('deepcopy', (t,), t.ty), v.k)
    if t.ty[0] in ('set', 'seq'):
        return ip.own(V(t, v.k), st)
    return V(app('deepcopy', (t,), t.ty) if t.ty[0] in ('dict', 'any', 'cm') and t.op in ('var', 'at', 'app') else t, v.k)


def x_copy(ip, args, kwargs, st, node):
    v = args[0]
    if v.t.op == 'ref':
        c = st.heap[v.t.a[0]]
        t = lift(lambda x: share(ip, x, node), c.t) if c.kind == 'dataset' else c.t
        r = ip.alloc(st, c.kind, t=t, k=c.k, d=dict(c.d) if c.d is not None else None, cls=c.cls)
        return V(r, v.k)
    if v.t.ty[0] in ('set', 'seq'):
        return ip.own(v, st)
    return V(v.t, v.k)


def x_partial(ip, args, kwargs, st, node):
    if not args:
        return None
    ip.naddr += 1
    return ip.fnval(im.Partial(args[0], args[1:], kwargs), 'partial', ip.naddr)


def x_reduce(ip, args, kwargs, st, node):
    if len(args) < 3:
        return None
    fid = ip.newframe(st)
    fr = st.frames[fid]
    fr['$f'], fr['$s'], fr['$a'] = args[0], args[1], args[2]
    src = ast.parse('for e in s:\n    a = f(a, e)').body[0]
    for n in ast.walk(src):
        if isinstance(n, ast.Name):
            n.id = '$' + n.id
        if hasattr(n, 'lineno'):
            n.lineno = getattr(node, 'lineno', 0)
    ip.s_For(src, st, (fid,), None)
    return st.frames[fid]['$a']


def x_sqrt(ip, args, kwargs, st, node):
    return V(lift(lambda x: app('sqrt', (x,), NUM), ip.asnum(args[0], st)), FLOATK)


def opfn(op):
    def g(ip, args, kwargs, st, node):
        return ip.binop(op, args[0], args[1], st, node)
    return g


def cmpfn(op):
    def g(ip, args, kwargs, st, node):
        return V(ip.compare(op, args[0], args[1], st, node), BOOLK)
    return g


def x_itemgetter(ip, args, kwargs, st, node):
    if len(args) != 1:
        return None
    src = ast.parse('lambda x: x[k]').body[0].value
    return lamb(ip, src, {'k': args[0]}, st, ('itemgetter', args[0].t))


def x_attrgetter(ip, args, kwargs, st, node):
    if len(args) != 1 or args[0].t.op != 'const':
        return None
    src = ast.parse('lambda x: x.%s' % args[0].t.a[1]).body[0].value
    return lamb(ip, src, {}, st, ('attrgetter', args[0].t))


def lamb(ip, src, env, st, key):
    fid = ip.newframe(st)
    st.frames[fid].update(env)
    m = 'segeval'
    fn = im.UserFn('<operator>', src, m, (fid,), [], {})
    return ip.fnval(fn, 'operator', *key)


def x_ordered(ip, args, kwargs, st, node):
    return b_dict(ip, args, kwargs, st, node)


def x_ceil(ip, args, kwargs, st, node):
    return V(app('ceil', (ip.asnum(args[0], st),), INT), INTK)


def x_floor(ip, args, kwargs, st, node):
    return V(app('floor', (ip.asnum(args[0], st),), INT), INTK)


def x_fsum(ip, args, kwargs, st, node):
    v = b_sum(ip, args, kwargs, st, node)
    return V(v.t, FLOATK)


def x_maplib(ip, args, kwargs, st, node):
    return b_map(ip, args, kwargs, st, node)


EXT = {
    'decimal.Decimal': x_decimal,
    'itertools.combinations': x_combinations, 'itertools.product': x_product,
    'itertools.permutations': x_permutations, 'itertools.chain': x_chain,
    'itertools.chain.from_iterable': x_chain_from, 'itertools.groupby': x_groupby,
    'itertools.accumulate': x_accumulate, 'itertools.repeat': x_repeat, 'itertools.islice': x_islice,
    'itertools.pairwise': x_pairwise, 'itertools.starmap': x_starmap,
    'itertools.izip': lambda ip, a, k, st, n: b_zip(ip, a, k, st, n),
    'collections.namedtuple': x_namedtuple, 'collections.defaultdict': x_defaultdict,
    'collections.OrderedDict': x_ordered,
    'copy.deepcopy': x_deepcopy, 'copy.copy': x_copy,
    'functools.partial': x_partial, 'functools.reduce': x_reduce,
    'math.sqrt': x_sqrt, 'math.ceil': x_ceil, 'math.floor': x_floor, 'math.fsum': x_fsum,
    'math.fabs': lambda ip, a, k, st, n: V(absn(ip.asnum(a[0], st)), FLOATK),
    'operator.add': opfn(ast.Add()), 'operator.sub': opfn(ast.Sub()), 'operator.mul': opfn(ast.Mult()),
    'operator.truediv': opfn(ast.Div()), 'operator.floordiv': opfn(ast.FloorDiv()), 'operator.pow': opfn(ast.Pow()),
    'operator.and_': opfn(ast.BitAnd()), 'operator.or_': opfn(ast.BitOr()), 'operator.xor': opfn(ast.BitXor()),
    'operator.eq': cmpfn(ast.Eq()), 'operator.ne': cmpfn(ast.NotEq()), 'operator.lt': cmpfn(ast.Lt()),
    'operator.le': cmpfn(ast.LtE()), 'operator.gt': cmpfn(ast.Gt()), 'operator.ge': cmpfn(ast.GtE()),
    'operator.is_': cmpfn(ast.Is()), 'operator.is_not': cmpfn(ast.IsNot()),
    'operator.itemgetter': x_itemgetter, 'operator.attrgetter': x_attrgetter,
}

from . import io_model
EXT.update(io_model.EXT)
p_read, p_write, p_close = io_model.f_read, io_model.f_write, io_model.f_close
b___text__, b___jsontext__, b___isjson__, b___loaded__ = io_model.b___text__, io_model.b___jsontext__, io_model.b___isjson__, io_model.b___loaded__
