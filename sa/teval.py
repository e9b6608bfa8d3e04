"""Ground evaluation of value terms.

This is *not* an execution of the code under analysis: it evaluates a term of
the value graph under a finite interpretation of its free variables and of its
uninterpreted functions.  It has exactly one use in the checks: when the normal
forms of two terms differ, an accusation is kept only if some interpretation
tells the two terms apart (two different normal forms may still denote the same
function).  It can only withdraw an accusation, never make one.
"""
from fractions import Fraction
from hashlib import blake2b
import itertools

from . import terms as tm
from .terms import T


class Unknown(Exception):
    """The term has no ground meaning here."""


class Undef(Exception):
    """Undefined value (missing element, impossible path)."""


class FD(dict):
    def __hash__(self):
        return hash(frozenset(self.items()))


class DS(FD):
    """Dataset: a mapping with attributes."""
    attrs = None


class Exc(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Exc) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Raise(%s)' % self.name


CAP = 48


def norm(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def canon(x):
    """Representation equal for equal values."""
    if isinstance(x, frozenset):
        return '{%s}' % ','.join(sorted(map(canon, x)))
    if isinstance(x, dict):
        if isinstance(x, DS):
            return 'DS' + canon(FD(x)) + canon(FD(x.attrs))
        return '{%s}' % ','.join(sorted('%s:%s' % (canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (tuple, list)):
        return '(%s)' % ','.join(map(canon, x))
    return repr(x)


def h64(*key):
    return int.from_bytes(blake2b(canon(key).encode(), digest_size=8).digest(), 'big')


def skey(x):
    if isinstance(x, bool):
        return (0, int(x))
    if isinstance(x, (int, Fraction)):
        return (0, x)
    if x is None:
        return (1,)
    if isinstance(x, str):
        return (2, x)
    if isinstance(x, tuple):
        return (3, tuple(skey(y) for y in x))
    return (4, repr(x))


def sqrt_frac(x):
    """40-digit square root as a Fraction."""
    x = Fraction(x)
    if x < 0:
        raise Undef()
    n = 10 ** 80
    from math import isqrt
    return Fraction(isqrt(int(x * n * n)), n) if x.denominator != 1 or isqrt(x.numerator) ** 2 != x.numerator \
        else Fraction(isqrt(x.numerator))


def universe(vals):
    out = set([None])
    todo = list(vals)
    while todo:
        v = todo.pop()
        try:
            if isinstance(v, (int, Fraction, str, tuple, frozenset)):
                out.add(v)
        except TypeError:
            pass
        if isinstance(v, (tuple, list, frozenset, set)):
            todo.extend(v)
        elif isinstance(v, dict):
            todo.extend(v.keys())
            todo.extend(v.values())
    return out


class Env(object):
    def __init__(self, vals, fns=None, steps=400000):
        self.vals = vals
        self.fns = fns or {}
        self.b = {}
        self.memo = {}
        self.uni = None
        self.steps = steps

    def universe(self):
        if self.uni is None:
            u = universe(self.vals.values())
            u |= set(range(-2, 10))
            self.uni = u
        return self.uni


def ev(t, E):
    if not t.fv:
        r = E.memo.get(t)
        if r is not None:
            if r[0] == 0:
                return r[1]
            raise r[1]
        try:
            v = _ev(t, E)
        except (Undef, Unknown) as x:
            E.memo[t] = (1, x)
            raise
        E.memo[t] = (0, v)
        return v
    if t.op in BINDERS or (t.op == 'app' and t.a[0] == 'permutations'):
        # the value depends on the free bound variables only
        try:
            k = (t, tuple([E.b.get((h, i)) for _, h, i in slots(t)]))
            r = E.memo.get(k)
        except TypeError:
            return _ev(t, E)
        if r is None:
            try:
                r = (0, _ev(t, E))
            except Undef as x:
                r = (1, x)
            E.memo[k] = r
        if r[0]:
            raise r[1]
        return r[1]
    return _ev(t, E)


BINDERS = frozenset(['sum', 'setc', 'mapc', 'foldv', 'seq'])
SLOTS = {}


def slots(t):
    r = SLOTS.get(t.fv)
    if r is None:
        r = SLOTS[t.fv] = sorted(t.fv)
    return r


def tight(g, slot, E):
    """Everything a bound variable can be for a guard to hold, or None if that is not plain to see."""
    if ('b',) + slot not in g.fv:
        return None
    if g.op == 'ite':
        c, a, b = g.a
        x, y = c, None
        if a is tm.FALSE:
            x = tight(b, slot, E)
            return exists(c, slot, E) if x is None else x
        x = tight(c, slot, E)
        if x is None:
            x = tight(a, slot, E)
        if x is None or b is tm.FALSE:
            return x
        y = tight(b, slot, E)
        return None if y is None else x | y
    try:
        if g.op == 'in':
            x, s = g.a
            if x.op == 'bv' and (x.a[0], x.a[1]) == slot and ('b',) + slot not in s.fv:
                return frozenset(iterate(ev(s, E)))
        if g.op == 'eq':
            for x, y in (g.a, g.a[::-1]):
                if x.op == 'bv' and (x.a[0], x.a[1]) == slot and ('b',) + slot not in y.fv:
                    return frozenset([ev(y, E)])
    except (Undef, Unknown, TypeError):
        pass
    return None


def exists(c, slot, E):
    """Everything a bound variable can be for the count of something not to be zero."""
    if c.op != 'eqp' or Fraction(*c.a[1]) != 0:
        return None
    p = c.a[0]
    if p.op == 'poly':
        if len(p.a) != 1 or len(p.a[0][0]) != 1:
            return None
        p = p.a[0][0][0][0]
    bvf = ('b',) + slot
    if p.op != 'sum' or not any(bvf in g.fv for g in p.a[2]) or any(bvf in g.fv for g in p.a[1]):
        return None
    out = set()
    mine = [g for g in p.a[2] if bvf in g.fv]
    try:
        for _ in enum(p.a[0], p.h, p.a[1], [g for g in p.a[2] if bvf not in g.fv], E):
            for g in mine:
                d = tight(g, slot, E)
                if d is not None:
                    out |= d
                    break
            else:
                return None
    except (Undef, Unknown):
        return None
    return frozenset(out)


def _ev(t, E):
    E.steps -= 1
    if E.steps < 0:
        raise Unknown('steps')
    op = t.op
    f = OPS.get(op)
    if f is None:
        raise Unknown(op)
    return f(t, E)


def o_const(t, E):
    if t.a[0] == 'ellipsis':
        return Ellipsis
    return t.a[1]


def o_num(t, E):
    return norm(Fraction(*t.a))


def o_var(t, E):
    n = t.a[0]
    if n in E.vals:
        return E.vals[n]
    raise Unknown('var ' + n)


def o_bv(t, E):
    k = (t.a[0], t.a[1])
    if k in E.b:
        if E.b[k] is HOLE:
            raise Undef('hole')
        return E.b[k]
    raise Unknown('bv')


def o_ite(t, E):
    while t.op == 'ite':
        try:
            p = atom(t.a[0], E)
        except Undef:
            # a condition with no value leaves the result alone if both outcomes agree
            x, y = ev(t.a[1], E), ev(t.a[2], E)
            if type(x) is type(y) and equal(x, y):
                return x
            raise
        t = t.a[1] if p else t.a[2]
    return ev(t, E)


def isn(x):
    return isinstance(x, (int, Fraction))


def needn(x):
    if not isn(x):
        raise Undef('number')
    return x


def atom(a, E):
    op = a.op
    if op == 'ite':
        return truthy(ev(a, E))
    if op == 'eq':
        return same(ev(a.a[0], E), ev(a.a[1], E))
    if op in ('eqp', 'le', 'lt'):
        x = needn(ev(a.a[0], E))
        c = Fraction(*a.a[1])
        if op == 'eqp':
            return x == c
        return x <= c if op == 'le' else x < c
    if op == 'in':
        x, s = ev(a.a[0], E), ev(a.a[1], E)
        try:
            return x in s
        except TypeError:
            raise Undef('in')
    if op == 'truth':
        return truthy(ev(a.a[0], E))
    if op == 'isinst':
        x = ev(a.a[0], E)
        return isinst(x, a.a[1])
    if op == 'hasattr':
        x = ev(a.a[0], E)
        n = a.a[1] if isinstance(a.a[1], str) else ev(a.a[1], E)
        return hasattr(x, n)
    raise Unknown(op)


def o_atom(t, E):
    return atom(t, E)


def isinst(x, n):
    if n == 'int':
        return isinstance(x, int)
    if n in ('list', 'tuple'):
        return isinstance(x, (tuple, list)) and (n == 'tuple')
    if n == 'str':
        return isinstance(x, str)
    if n == 'dict':
        return isinstance(x, dict)
    if n in ('set', 'frozenset'):
        return isinstance(x, frozenset)
    raise Unknown('isinst ' + str(n))


def truthy(x):
    if isinstance(x, Exc):
        raise Undef()
    return bool(x)


def same(a, b):
    if type(a) is bool or type(b) is bool:
        return a == b
    return a == b


def o_poly(t, E):
    r = Fraction(0)
    for m, k in t.a:
        p, over = Fraction(*k), False
        for x, e in m:
            y = needn(ev(x, E))
            if e < 0 and y == 0:
                over = True
            else:
                p *= Fraction(y) ** e
        if over and p:
            raise Undef('div0')
        r += 0 if over else p     # normal forms of "0 if x == 0 else x / y" are x / y
    return norm(r)


def o_pass(t, E):
    return ev(t.a[0], E)


def relax(c, i, h, rest, tys, E):
    """Set the later variables of a linear constraint c <= 0 to the values that make it weakest."""
    for j in rest:
        if tys[j][0] != 'int' or len(tys[j]) < 2 or tys[j][1] is None:
            for z in rest:
                E.b.pop((h, z), None)
            return False
        E.b[(h, j)] = tys[j][1]
    E.b[(h, i)] = 0
    base = ev(c, E)
    for j in rest:
        E.b[(h, j)] += 1
        up = ev(c, E)
        E.b[(h, j)] -= 1
        if up < base:
            for z in rest:
                E.b.pop((h, z), None)
            return False
    return True


def bounds(v, i, h, cons, E, later, tys):
    """Integer interval of variable slot i from constraints over bound slots only."""
    lo, hi = None, None
    if len(v) > 1 and v[1] is not None:
        lo = v[1]
    b = ('b', h, i)
    for c in cons:
        if not plain(c, b):
            continue
        rest = [j for j in later if ('b', h, j) in c.fv]
        if rest and not all(plain(c, ('b', h, j)) for j in rest):
            continue
        if rest and not relax(c, i, h, rest, tys, E):
            continue
        # c is linear in v: sample two points
        E.b[(h, i)] = 0
        c0 = ev(c, E)
        E.b[(h, i)] = 1
        c1 = ev(c, E)
        k = c1 - c0
        if k > 0:
            u = -Fraction(c0) / k
            u = u.numerator // u.denominator
            hi = u if hi is None else min(hi, u)
        elif k < 0:
            u = Fraction(c0) / -k
            u = -((-u.numerator) // u.denominator)
            lo = u if lo is None else max(lo, u)
        for j in rest:
            E.b.pop((h, j), None)
    E.b.pop((h, i), None)
    if lo is None:
        lo = -CAP
    if hi is None:
        hi = CAP
    return range(lo, hi + 1)


def plain(c, b):
    """The variable occurs in c, and only as a term of the sum."""
    return b in c.fv and c.op == 'poly' and all(b not in x.fv or (x.op == 'bv' and e == 1) for m, k in c.a for x, e in m)


def order_of(tys, h, cons):
    """Enumeration order: integers bounded through other variables come after those."""
    n = len(tys)
    bounded = [tys[i][0] == 'int' and any(('b', h, i) in c.fv for c in cons) for i in range(n)]
    out = []
    while len(out) < n:
        for i in range(n):
            if i in out:
                continue
            if not bounded[i] or not any(plain(c, ('b', h, i)) and ('b', h, j) in c.fv and j not in out and
                                         not (bounded[j] and plain(c, ('b', h, j)))
                                         for c in cons for j in range(n) if j != i):
                out.append(i)
                break
        else:
            out += [i for i in range(n) if i not in out]
    return out


def enum(tys, h, cons, guards, E, order=None, k=0):
    n = len(tys)
    if order is None:
        order = order_of(tys, h, cons)
    if k == n:
        for c in cons:
            if ev(c, E) > 0:
                return
        yield
        return
    i = order[k]
    later = order[k + 1:]
    ty = tys[i]
    if ty[0] == 'int' and any(('b', h, i) in c.fv for c in cons):
        dom = bounds(ty, i, h, cons, E, later, tys)
        if len(dom) > 4000:
            raise Unknown('range')
    else:
        dom = candidates((h, i), ty, guards, E)
    now = [g for g in guards if ('b', h, i) in g.fv and not any(('b', h, j) in g.fv for j in later)]
    for x in dom:
        E.b[(h, i)] = x
        if not all(holds(g, E) for g in now):
            continue
        for _ in enum(tys, h, cons, guards, E, order, k + 1):
            yield
    E.b.pop((h, i), None)


def holds(g, E):
    """False only if the guard is known to fail."""
    try:
        return truthy(ev(g, E))
    except Undef:
        return True


def okty(x, ty):
    k = ty[0]
    if k == 'int':
        return isinstance(x, int) and not isinstance(x, bool) and (ty[1] is None or x >= ty[1])
    if k == 'str':
        return isinstance(x, str)
    if k == 'num':
        return isn(x)
    return True


def candidates(slot, ty, guards, E):
    bvf = ('b', slot[0], slot[1])
    for g in guards:
        d = tight(g, slot, E)
        if d is not None:
            return sorted((x for x in d if okty(x, ty)), key=skey)
    out = set()

    def add(x):
        try:
            out.add(x)
        except TypeError:
            pass

    def gather(t):
        if bvf not in t.fv:
            return
        op = t.op
        if op in ('eq',):
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if x.op == 'bv' and (x.a[0], x.a[1]) == slot:
                    try:
                        add(ev(y, E))
                    except (Undef, Unknown):
                        pass
                else:
                    gather(x)
            # structured equality  eq(seq(..v..), s): rely on the universe
            for x in E.universe():
                if okty(x, ty):
                    add(x)
            return
        if op == 'eqp':
            p = t.a[0]
            E.b[slot] = 0
            try:
                c0 = ev(p, E)
                E.b[slot] = 1
                c1 = ev(p, E)
                if c1 != c0:
                    add(norm((Fraction(*t.a[1]) - c0) / (c1 - c0)))
            except (Undef, Unknown, TypeError):
                pass
            E.b.pop(slot, None)
            gather(p)
            return
        if op == 'in':
            x, s = t.a
            if x.op == 'bv' and (x.a[0], x.a[1]) == slot:
                try:
                    for y in ev(s, E):
                        add(y)
                except (Undef, Unknown, TypeError):
                    pass
                return
            gather(x)
            gather(s)
            return
        if op == 'sum':
            try:
                n = len(t.a[0])
                for _ in enum(t.a[0], t.h, [c for c in t.a[1] if bvf not in c.fv], [g for g in t.a[2] if bvf not in g.fv], E):
                    for g in t.a[2]:
                        gather(g)
                    gather(t.a[3])
            except (Undef, Unknown):
                pass
            return
        for x in t.a:
            for y in tm._walkT(x):
                gather(y)
    for g in guards:
        gather(g)
    if not out or ty[0] in ('any', 'str', 'seq', 'num'):
        for x in E.universe():
            if okty(x, ty):
                out.add(x)
    return sorted((x for x in out if okty(x, ty)), key=skey)


def conj(ats, E):
    """Conjunction: false if any part is, whatever the others do."""
    bad = None
    for a in ats:
        try:
            if not truthy(ev(a, E)):
                return False
        except Undef as e:
            bad = e
    if bad is not None:
        raise bad
    return True


def o_sum(t, E):
    tys, cons, ats, body = t.a
    r = Fraction(0)
    for _ in enum(tys, t.h, cons, ats, E):
        if conj(ats, E):
            r += needn(ev(body, E))
    return norm(r)


def o_seq(t, E):
    out = []
    for s in t.a:
        if s[0] == 'one':
            out.append(ev(s[1], E))
        elif s[0] == 'spl':
            out.extend(iterate(ev(s[1], E)))
        elif s[1] == 'range':
            h = 1 + s[3].h
            n = needn(ev(s[2], E))
            if n > 4000:
                raise Unknown('range')
            for i in range(int(n)):
                E.b[(h, 0)] = i
                out.extend(iterate(ev(s[3], E)))
            E.b.pop((h, 0), None)
        else:
            h = 1 + max(s[2].h, s[3].h)
            dom = candidates((h, 0), s[5], [s[2]], E)
            for x in dom:
                E.b[(h, 0)] = x
                try:
                    p = truthy(ev(s[2], E))
                except Undef:
                    p = False
                if p:
                    out.extend(iterate(ev(s[3], E)))
            E.b.pop((h, 0), None)
    return tuple(out)


def iterate(x):
    if isinstance(x, (tuple, str)):
        return x
    if isinstance(x, frozenset):
        return sorted(x, key=skey)
    if isinstance(x, dict):
        return tuple(x)
    raise Undef('iter')


def o_setc(t, E):
    h = t.h
    out = set()
    for x in candidates((h, 0), t.a[1], [t.a[2]], E):
        E.b[(h, 0)] = x
        try:
            if truthy(ev(t.a[2], E)):
                out.add(x)
        except Undef:
            pass
    E.b.pop((h, 0), None)
    return frozenset(out)


def o_mapc(t, E):
    h = t.h
    out = []
    for x in candidates((h, 0), t.a[0], [t.a[1]], E):
        E.b[(h, 0)] = x
        try:
            if truthy(ev(t.a[1], E)):
                out.append((x, ev(t.a[2], E)))
        except Undef:
            pass
    E.b.pop((h, 0), None)
    return FD(sorted(out, key=lambda z: skey(z[0])))


class Hole(object):
    pass


HOLE = Hole()


def o_fold(t, E):
    x = ev(t.a[0], E)[t.a[1]]
    if x is HOLE:
        raise Undef('hole')
    return x


def o_foldv(t, E):
    h, ltys, kinds, stys, doms, guard, inits, outs = t.a
    nl = len(ltys)
    state = []
    for x in inits:
        try:
            state.append(ev(x, E))
        except Undef:
            state.append(HOLE)

    def levels(i):
        if i == nl:
            yield
            return
        if kinds[i] == 'range':
            n = needn(ev(doms[i], E))
            if n > 4000:
                raise Unknown('range')
            dom = range(int(n))
        else:
            dom = [x for x in candidates((h, i), ltys[i], [doms[i]], E)]
        for x in dom:
            E.b[(h, i)] = x
            if kinds[i] == 'set':
                try:
                    if not truthy(ev(doms[i], E)):
                        continue
                except Undef:
                    continue
            for _ in levels(i + 1):
                yield
        E.b.pop((h, i), None)
    for _ in levels(0):
        for j, x in enumerate(state):
            E.b[(h, nl + j)] = x
        if not truthy(ev(guard, E)):
            continue
        new = []
        for o in outs:
            try:
                new.append(ev(o, E))
            except Undef:
                new.append(HOLE)
        state = new
    for j in range(len(state)):
        E.b.pop((h, nl + j), None)
    return tuple(state)


def o_at(t, E):
    s, i = ev(t.a[0], E), ev(t.a[1], E)
    if isinstance(s, dict):
        if i in s:
            return s[i]
        if t.ty[0] == 'dict':
            return FD()     # any value will do: what is computed never depends on it
        raise Undef('key')
    if isinstance(s, (tuple, str)):
        if not isinstance(i, int):
            raise Undef('index')
        if -len(s) <= i < len(s):
            return s[i]
        raise Undef('index')
    if isinstance(s, (set, frozenset)):
        # iteration over a value not known to be a set: some order, the same for both sides
        s = sorted(s, key=skey)
        if isinstance(i, int) and -len(s) <= i < len(s):
            return s[i]
    raise Undef('at')


def o_len(t, E):
    s = ev(t.a[0], E)
    try:
        return len(s)
    except TypeError:
        raise Undef('len')


def o_slice(t, E):
    s, lo, hi = [ev(x, E) for x in t.a]
    if not isinstance(s, (tuple, str)):
        raise Undef('slice')
    return s[max(lo, 0):max(hi, 0)]


def o_dictv(t, E):
    if t.a[0] == 'known':
        out = FD()
        for kt, p, v in t.a[1:]:
            if truthy(ev(p, E)):
                out[ev(kt, E)] = ev(v, E)
        return out
    if t.a[0] == 'sym':
        out = FD()
        for kv in ev(t.a[1], E):
            out[kv[0]] = kv[1]
        return out
    raise Unknown('dictv')


def o_exc(t, E):
    return Exc(t.a[0])


def o_undef(t, E):
    raise Undef(str(t.a))


def o_bot(t, E):
    raise Undef('bot')


def o_fn(t, E):
    return ('fn', t.key)


def o_inst(t, E):
    return ('inst', t.a[0]) + tuple((n, ev(v, E)) for n, v in t.a[1:])


class Fn(object):
    """Sampled uninterpreted function."""

    def __init__(self, name, ty=tm.NUM, f=None, symmetric=False):
        self.name, self.ty, self.f, self.symmetric = name, ty, f, symmetric

    def __call__(self, *args):
        if self.symmetric:
            args = tuple(sorted(args[:2], key=skey)) + args[2:]
        if self.f is not None:
            return self.f(*args)
        return sample_ty(self.ty, (self.name, args))

    def __repr__(self):
        return 'Fn(%s)' % self.name


# A size that a threshold in the terms at hand makes interesting (set by the search for witnesses).
SIZE = [None]
# Strings that only one of the terms at hand mentions.
HINTS = []


def names(key, *usual):
    """The usual names, and others made from the strings of interest."""
    out = list(usual)
    for h in HINTS:
        for i in range(1 if len(usual) < 4 else 3):
            b = usual[h64('hint', key, h, i) % len(usual)]
            out += [h + b, b + h] if h64('hints', key, h, i) % 2 else [h]
    return tuple(n for i, n in enumerate(out) if n not in out[:i])


def size(key, usual):
    """How many: usually one of the usual numbers, sometimes about as many as the size of interest."""
    z = h64('size', key)
    if SIZE[0] is not None and z % 2:
        return max(0, SIZE[0] + (z >> 8) % 4 - 1)
    return (z >> 16) % usual


def sample_ty(ty, key):
    k = ty[0]
    z = h64(key)
    if k == 'int':
        if ty[1] is None:
            return -2 + z % 5 if z >> 8 & 1 else z % 12
        return ty[1] + z % 5
    if k == 'num':
        return norm(Fraction(z % 23, 1 + (z >> 8) % 5))
    if k == 'bool':
        return bool(z & 1)
    if k == 'str':
        return 's%d' % (z % 4) if not HINTS or z >> 8 & 3 else names(key, 's%d' % (z % 4))[(z >> 10) % 3 % (1 + len(HINTS))]
    if k == 'none':
        return None
    if k == 'seq':
        return tuple(sample_ty(ty[1], (key, i)) for i in range(z % 4 if SIZE[0] is None else size(key, 4)))
    if k == 'set':
        return frozenset(sample_ty(ty[1], (key, i)) for i in range(z % 3))
    if k in ('tuple', 'tup'):
        return tuple(sample_ty(x, (key, i)) for i, x in enumerate(ty[1:]))
    return norm(Fraction(z % 23, 1 + (z >> 8) % 5))


BUILTIN = {
    'round': lambda x, n=0: round(Fraction(x)) if not n else round(Fraction(x), n), 'len': len, 'int': lambda x: int(x), 'abs': abs,
    'sum': lambda x: norm(sum(x, Fraction(0))), 'max': lambda *x: max(*x), 'min': lambda *x: min(*x),
}


def options(kw):
    """Options other than those without effect on the result, or given as they would be by default."""
    return tuple(sorted((n, v) for n, v in kw.items() if v != '$absent' and n not in ('permuted', 'boundary_types') and
                        (n, v) not in (('one_minus', False), ('n_t', 2))))


def o_app(t, E):
    f = t.a[0]
    if f == 'call':
        g = t.a[1]
        args, kw = [], {}
        i = 2
        while t.a[i] is not tm.const('|'):
            args.append(ev(t.a[i], E))
            i += 1
        i += 1
        while i < len(t.a):
            n = t.a[i].a[1]
            v = ev(t.a[i + 1], E)
            kw[n] = v
            i += 2
        kw = dict(options(kw))
        if g.op == 'fn':
            if g.a[0] == 'builtin' and g.a[1] in BUILTIN:
                try:
                    return norm(BUILTIN[g.a[1]](*args, **kw))
                except (TypeError, ValueError):
                    raise Undef('builtin')
            h = E.fns.get(g.a[-1])
            if h is None:
                return sample_ty(t.ty, ('fn', g.key.hex(), tuple(args), tuple(sorted(kw.items()))))
            return h(*args, **kw)
        fv = ev(g, E)
        if isinstance(fv, Fn) and not kw:
            return fv(*args)
        if isinstance(fv, Fn):
            return fv(*(tuple(args) + tuple(sorted(kw.items()))))
        return sample_ty(t.ty, ('callv', fv, tuple(args), tuple(sorted(kw.items()))))
    h = APPS.get(f)
    args = [ev(x, E) if isinstance(x, T) else x for x in t.a[1:]]
    if h is not None:
        try:
            return norm(h(*args))
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError):
            raise Undef(f)
    if f in E.fns:
        return E.fns[f](*args)
    if not f.startswith('metric:'):
        raise Unknown('no interpretation of ' + f)
    args = [z for i in range(0, len(args), 2) for z in args[i:i + 2] if args[i] != 'boundary_types']
    return sample_ty(t.ty, (f, tuple(args)))


def a_cmget(m, p, a):
    return m.get(p, {}).get(a, 0)


def a_cmkeys(m, p):
    return frozenset(m.get(p, {}))


def a_classes(m):
    return frozenset(m) | frozenset(a for r in m.values() for a in r)


def a_groups(s):
    return tuple(tuple(g) for _, g in itertools.groupby(s))


def a_setadd(s, i, x):
    s = list(s)
    s[i] = s[i] | frozenset([x])
    return tuple(s)


def a_strformat(f, *args):
    if len(args) == 1:
        return f % args[0]
    raise TypeError


def a_int(x):
    if isinstance(x, str):
        return int(x)
    return int(x)


def a_unzip(s):
    return tuple(zip(*s))


def a_stepslice(s, lo, hi, st):
    return s[slice(lo, hi, st)]


def a_attr(d, name):
    if isinstance(d, DS) and name in d.attrs:
        return d.attrs[name]
    raise Unknown('attribute')


def a_max(s):
    return max(s)


def a_min(s):
    return min(s)


def a_items(d):
    return tuple(d.items())


def a_str(x):
    if isinstance(x, (int, str)):
        return str(x)
    return '<%r>' % (x,)


def a_lset(s, i, v):
    s = list(s)
    s[i] = v
    return tuple(s)


def a_dset(e, k, v):
    return tuple((kv[0], v) if kv[0] == k else kv for kv in e)


def a_fix(x):
    import math
    return math.floor(x)


def a_dictget(ents, k, default):
    r = None
    found = False
    for e in ents:
        if e[0] == k:
            r, found = e[1], True
    if found:
        return r
    if default == '$required':
        raise KeyError
    return default


APPS = {
    'cmget': a_cmget, 'cmkeys': a_cmkeys, 'classes': a_classes, 'groups': a_groups, 'setadd': a_setadd, 'strformat': a_strformat, 'int': a_int, 'unzip': a_unzip, 'num': lambda x: x if isn(x) else a_int(x),
    'attr': a_attr, 'stepslice': a_stepslice, 'max': a_max, 'min': a_min, 'items': a_items, 'keys': lambda d: frozenset(d), 'values': lambda d: tuple(d.values()),
    'str': a_str, 'repr': repr, 'sqrt': sqrt_frac, 'abs': abs, 'mod': lambda a, b: a % b, 'floordiv': lambda a, b: a // b,
    'pow': lambda a, b: a ** b, 'sorted': lambda s: tuple(sorted(s, key=skey)), 'strcat': lambda *x: ''.join(x), 'strmul': lambda a, b: a * b,
    'strcount': lambda s, x: s.count(x), 'indexof': lambda s, x: s.index(x), 'split': lambda s, *x: tuple(s.split(*x)),
    'join': lambda s, x: s.join(x), 'range': lambda *x: tuple(range(*x)), 'list': lambda s: tuple(iterate(s)),
    'permutations': lambda s, *r: tuple(itertools.permutations(iterate(s), *r)), 'floor': a_fix, 'ceil': lambda x: -a_fix(-x),
    'lset': a_lset, 'dset': a_dset, 'haskey': lambda e, k: any(kv[0] == k for kv in e),
    'dictget': a_dictget, 'deepcopy': lambda x: x, 'shallow': lambda x, y: x, 'dscopy': lambda x: x, 'ord': ord, 'chr': chr,
    'float': lambda x: norm(Fraction(float(x))), 'roundto': lambda x, n: round(x, n), 'str.lower': lambda s: s.lower(), 'str.upper': lambda s: s.upper(), 'str.strip': lambda s, *a: s.strip(*a),
    'str.lstrip': lambda s, *a: s.lstrip(*a), 'str.rstrip': lambda s, *a: s.rstrip(*a), 'str.replace': lambda s, *a: s.replace(*a),
    'str.title': lambda s: s.title(), 'str.capitalize': lambda s: s.capitalize(), 'str.casefold': lambda s: s.casefold(),
    'str.startswith': lambda s, *a: s.startswith(*a), 'str.endswith': lambda s, *a: s.endswith(*a),
}

OPS = {
    'const': o_const, 'num': o_num, 'var': o_var, 'bv': o_bv, 'ite': o_ite, 'poly': o_poly, 'pp': o_pass, 'sel': o_pass, 'sum': o_sum,
    'seq': o_seq, 'setc': o_setc, 'mapc': o_mapc, 'at': o_at, 'len': o_len, 'slice': o_slice, 'dictv': o_dictv, 'exc': o_exc, 'undef': o_undef, 'bot': o_bot,
    'fn': o_fn, 'fold': o_fold, 'foldv': o_foldv, 'inst': o_inst, 'app': o_app,
}
for _a in ('eq', 'eqp', 'le', 'lt', 'in', 'truth', 'isinst', 'hasattr'):
    OPS[_a] = o_atom


def evaluate(t, vals, fns=None, steps=400000):
    """(kind, value): 'val', 'undef' or 'unknown'."""
    try:
        return 'val', ev(t, Env(vals, fns, steps))
    except Undef as e:
        return 'undef', str(e)
    except Unknown as e:
        return 'unknown', str(e)
    except RecursionError:
        return 'unknown', 'depth'


def equal(a, b):
    if isinstance(a, Exc) or isinstance(b, Exc):
        return a == b
    if isn(a) and isn(b):
        if a == b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return False
        return abs(a - b) <= Fraction(1, 10 ** 20) * (1 + abs(a) + abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    return a == b
