"""Hash-consed value terms with canonical normal forms.

Every value the analysis computes is a term.  Terms are *value numbers*: two
expressions that are provably the same function of the program's inputs get
the same (interned) node.  The normal forms are:

  * conditionals : ordered decision diagrams `ite(atom, hi, lo)`; every other
                   operator is lifted over them, so conditions sit on top;
  * arithmetic   : Laurent polynomials over atoms with rational coefficients
                   (Decimal() is transparent; see `kinds` for the number kind);
  * sums         : joint sums over index variables with linear bounds and
                   conjunctions of positive atoms (indicator polynomials);
  * sequences    : concatenations of elements and comprehensions;
  * sets         : characteristic predicates.

Nothing is executed and no path is enumerated.  Anything outside this language
becomes an opaque term; the rules never report on opaque terms.
"""
from fractions import Fraction
from hashlib import blake2b
from itertools import count, permutations
import sys

sys.setrecursionlimit(20000)


class TooBig(Exception):
    pass


class T(object):
    __slots__ = ('op', 'a', 'key', 'fv', 'h', 'opq', 'ty', 'rank', 'size', 'hassum', 'hassel', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_uid = count(1)


def number_from(n):
    """Fresh variables are numbered from n (keeps runs reproducible)."""
    global _uid
    _uid = count(n)
LIMIT = [400000]
_created = [0]

ANY = ('any',)
INT = ('int', None)
NAT = ('int', 0)
NUM = ('num',)
BOOL = ('bool',)
STR = ('str',)
NONE = ('none',)


def _k(x):
    if isinstance(x, T):
        return b'T' + x.key
    if isinstance(x, tuple):
        return b'(' + b','.join(_k(y) for y in x) + b')'
    if isinstance(x, bytes):
        return b'b' + x
    return (type(x).__name__ + ':' + repr(x)).encode()


def _ik(x):
    if isinstance(x, T):
        return x
    if isinstance(x, tuple):
        return tuple(_ik(y) for y in x)
    return (type(x).__name__, x)


def _walkT(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            for z in _walkT(y):
                yield z


def mk(op, a, ty=ANY, binds=(), opq=False, h=None):
    ik = (op, tuple(_ik(x) for x in a))
    t = _table.get(ik)
    if t is not None:
        return t
    _created[0] += 1
    if _created[0] > LIMIT[0]:
        raise TooBig('term budget exhausted')
    t = T()
    t.op = op
    t.a = a
    t.ty = ty
    t.key = blake2b(op.encode() + b'|' + b'|'.join(_k(x) for x in a), digest_size=12).digest()
    fv = set()
    hh = 0
    o = opq
    size = 1
    hs = op == 'sum'
    hl = op == 'sel'
    for x in a:
        for y in _walkT(x):
            o = o or y.opq
            hs = hs or y.hassum
            hl = hl or y.hassel
            size += y.size
    if op == 'seq':
        for sg in a:
            if sg[0] != 'comp':
                fv |= sg[1].fv
                hh = max(hh, sg[1].h)
            elif sg[1] == 'range':
                fv |= sg[2].fv | (sg[3].fv - set([('b', 1 + sg[3].h, 0)]))
                hh = max(hh, sg[2].h, 1 + sg[3].h)
            else:
                h0 = 1 + max(sg[2].h, sg[3].h)
                fv |= (sg[2].fv | sg[3].fv) - set([('b', h0, 0)])
                hh = max(hh, h0)
        t.fv = frozenset(fv)
        t.h = hh
    else:
        for x in a:
            for y in _walkT(x):
                fv |= y.fv
                hh = max(hh, y.h)
        t.fv = frozenset(fv - set(binds))
        t.h = hh + (1 if binds else 0)
    t.opq = o
    t.size = size
    t.rank = None
    t.hassum = hs
    t.hassel = hl
    _table[ik] = t
    return t


_memos = []


def memo(f):
    m = {}
    _memos.append(m)

    def g(*a):
        r = m.get(a)
        if r is None:
            r = f(*a)
            m[a] = r
        return r
    g.__name__ = f.__name__
    return g


def _memo_clear():
    for m in _memos:
        m.clear()


# ---------------------------------------------------------------- constants
def const(v):
    if v is None:
        return mk('const', ('none', None), NONE)
    if isinstance(v, bool):
        return mk('const', ('bool', v), BOOL)
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        return num(Fraction(v))
    if isinstance(v, str):
        return mk('const', ('str', v), STR)
    if isinstance(v, bytes):
        return mk('const', ('bytes', v), ANY)
    if v is Ellipsis:
        return mk('const', ('ellipsis', '...'), ANY)
    if isinstance(v, tuple):
        return seq([('one', const(x)) for x in v])
    raise ValueError(v)


def num(v):
    f = Fraction(v)
    return mk('num', (f.numerator, f.denominator),
              ('int', f.numerator) if f.denominator == 1 else NUM)


TRUE = const(True)
FALSE = const(False)
NONE_T = const(None)
ZERO = num(0)
ONE = num(1)


def isconst(t):
    return t.op in ('const', 'num', 'fn', 'cls', 'ref', 'mod')


def numval(t):
    if t.op == 'num':
        return Fraction(t.a[0], t.a[1])
    if t is TRUE:
        return Fraction(1)
    if t is FALSE:
        return Fraction(0)
    return None


def intval(t):
    v = numval(t)
    if v is not None and v.denominator == 1:
        return int(v)
    return None


def pyconst(t):
    """(True, value) if t is a python constant."""
    if t.op == 'const':
        return True, t.a[1]
    if t.op == 'num':
        v = numval(t)
        return True, int(v) if v.denominator == 1 else v
    return False, None


def var(name, ty=ANY):
    return mk('var', (name, ty), ty)


def lv(ty, hint='i'):
    """A fresh loop variable (ty ('int',0) for indices, or an element type)."""
    u = next(_uid)
    t = mk('lv', (u, hint), ty)
    t.fv = frozenset([t.a[0]])
    return t


def bv(h, slot, ty):
    t = mk('bv', (h, slot, ty), ty)
    t.fv = frozenset([('b', h, slot)])
    return t


def lvid(v):
    return v.a[0] if v.op == 'lv' else ('b', v.a[0], v.a[1])


def app(f, args, ty=ANY, opq=False):
    """Uninterpreted application, lifted over conditionals."""
    return blift(lambda *xs: mk('app', (f,) + tuple(xs), ty, opq=opq), *args)


def opaque(why, args=(), ty=ANY):
    flat = [x for x in args]
    return mk('opq', (why,) + tuple(flat), ty, opq=True)


# ---------------------------------------------------------------- lifting
def lift(f, *args):
    """Apply f to plain (non-ite) arguments, distributing over conditionals."""
    if not any(x.op == 'ite' for x in args):
        return f(*args)
    return _lift(f, list(args), {})


def _lift(f, args, m):
    k = tuple(args)
    r = m.get(k)
    if r is not None:
        return r
    if any(x.op == 'bot' for x in args):
        r = BOT
        m[k] = r
        return r
    tops = [x.a[0] for x in args if x.op == 'ite']
    if not tops:
        r = f(*args)
    else:
        a = min(tops, key=order)
        hi = _lift(f, [cof(x, a, True) for x in args], m)
        lo = _lift(f, [cof(x, a, False) for x in args], m)
        r = mkite(a, hi, lo)
    m[k] = r
    return r


class _Wide(Exception):
    pass


BOXLIM = 160


def blift(f, *args):
    """lift, but wide conditionals are boxed (kept as one `sel` atom)."""
    if not any(x.op == 'ite' for x in args):
        return f(*args)
    args = list(args)
    while True:
        try:
            return _blift(f, args, {})
        except _Wide:
            i = max((i for i, x in enumerate(args) if x.op == 'ite'), key=lambda i: (nodes_of(args[i]), i))
            args[i] = box(args[i])


def _blift(f, args, m):
    k = tuple(args)
    r = m.get(k)
    if r is not None:
        return r
    if len(m) > BOXLIM:
        raise _Wide()
    if any(x.op == 'bot' for x in args):
        r = BOT
    else:
        tops = [x.a[0] for x in args if x.op == 'ite']
        if not tops:
            r = f(*args)
        else:
            a = min(tops, key=order)
            hi = _blift(f, [cof(x, a, True) for x in args], m)
            lo = _blift(f, [cof(x, a, False) for x in args], m)
            r = mkite(a, hi, lo)
    m[k] = r
    return r


def nodes_of(t):
    """Number of decision nodes on the conditional skeleton."""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            todo += [x.a[1], x.a[2]]
    return len(seen)


def unbox(t):
    if t.op == 'sel':
        return unbox(t.a[0])
    if t.op == 'ite':
        return ite(atomise(t.a[0]), unbox(t.a[1]), unbox(t.a[2]))
    return t


def box(t):
    if t.op != 'ite':
        return t
    if t.ty[0] == 'bool' or all(isboolleaf(x) for x in leaves(t)):
        t = lift(lambda x: ONE if x is TRUE else ZERO if x is FALSE else x, t)
        if t.op != 'ite':
            return t
    if any(x.op == 'sel' for x in leaves(t)):
        t2 = unbox(t)
        if nodes_of(t2) <= 60:
            t = t2
        if t.op != 'ite':
            return t
    ty = t.ty
    lps = [(p, x) for p, x in leaf_paths(t, 400) if x.op not in ('bot', 'undef')]
    if all(x.ty[0] == 'int' for _, x in lps):
        los = []
        for p, x in lps:
            lo = x.ty[1]
            for a, val in p:
                if a.op == 'le' and not val and a.a[0] is x:
                    b = int(Fraction(*a.a[1]) // 1) + 1
                    lo = b if lo is None else max(lo, b)
            los.append(lo)
        ty = ('int', None if any(x is None for x in los) else min(los))
    return mk('sel', (t,), ty)


def order(atom):
    if atom.rank is None:
        # atoms about the same subject are adjacent
        subj = atom.a[0] if atom.a and isinstance(atom.a[0], T) else atom
        atom.rank = (1 if atom.fv else 0, subj.key, atom.op, atom.key)
    return atom.rank


def cof(t, atom, val):
    """Cofactor of t on an atom not below t's top."""
    if t.op == 'ite' and t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    if t.op == 'ite' and order(t.a[0]) < order(atom):
        return assume(t, atom, val)
    return t


BOT = mk('bot', (), ANY)  # value on impossible paths


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    return _ite(c, a, b)


def _ite_raw(c, a, b):
    tops = [x.a[0] for x in (c, a, b) if x.op == 'ite']
    if not tops:
        raise ValueError('condition is not boolean: %s' % show(c))
    t = min(tops, key=order)
    if c.op != 'ite':
        raise ValueError('condition is not boolean: %s' % show(c))
    hi = ite(cof(c, t, True), cof(a, t, True), cof(b, t, True))
    lo = ite(cof(c, t, False), cof(a, t, False), cof(b, t, False))
    return mkite(t, hi, lo)


_ite = memo(_ite_raw)


def _mkite_raw(atom, hi, lo):
    if hi is lo:
        return hi
    hi = assume(hi, atom, True)
    lo = assume(lo, atom, False)
    if hi is lo:
        return hi
    if hi.op == 'bot':
        return lo
    if lo.op == 'bot':
        return hi
    if not (isboolleaf(hi) and isboolleaf(lo)):
        if assume(lo, atom, True) is hi:
            return lo
        if assume(hi, atom, False) is lo:
            return hi
    o = order(atom)
    if (hi.op == 'ite' and order(hi.a[0]) <= o) or (lo.op == 'ite' and order(lo.a[0]) <= o):
        tops = [x.a[0] for x in (hi, lo) if x.op == 'ite' and order(x.a[0]) <= o]
        t = min(tops, key=order)
        if t is atom:
            return mkite(atom, cof(hi, atom, True), cof(lo, atom, False))
        h2 = mkite(atom, cof(hi, t, True), cof(lo, t, True))
        l2 = mkite(atom, cof(hi, t, False), cof(lo, t, False))
        return mkite(t, h2, l2)
    if atom.op == 'le' and atom.a[0].ty[0] == 'int' and hi.size + lo.size <= 400 and \
            not (hi.ty == BOOL and lo.ty == BOOL):
        # ite(p<=c, x, y) with x == y at p == c : lower the threshold (canonical)
        p, c = atom.a[0], Fraction(*atom.a[1])
        d, n = c, 0
        while n < 3:
            e = mk('eqp', (p, (d.numerator, d.denominator)), BOOL)
            if solved(e) is None or assume(hi, e, True) is not assume(lo, e, True):
                break
            d -= 1
            n += 1
        if 0 < n < 3:
            return ite(_cmpc('le', p, d, True), hi, lo)
    ty = hi.ty if hi.ty == lo.ty else join_ty(hi.ty, lo.ty)
    return mk('ite', (atom, hi, lo), ty)


mkite = memo(_mkite_raw)


def isboolleaf(t):
    return t is TRUE or t is FALSE


def join_ty(a, b):
    if a == b:
        return a
    if a[0] in ('int', 'num', 'bool') and b[0] in ('int', 'num', 'bool'):
        if 'num' in (a[0], b[0]):
            return NUM
        la = a[1] if a[0] == 'int' else 0
        lb = b[1] if b[0] == 'int' else 0
        return ('int', None if la is None or lb is None else min(la, lb))
    if a[0] == b[0] and a[0] in ('seq', 'set'):
        return (a[0], join_ty(a[1], b[1]))
    if 'tup' in (a[0], b[0]) and a[0] in ('seq', 'tup') and b[0] in ('seq', 'tup'):
        if a[0] == b[0] and len(a) == len(b):
            return ('tup',) + tuple(join_ty(x, y) for x, y in zip(a[1:], b[1:]))
        return ('seq', ANY)
    if a[0] in ('dict', 'dataset') and b[0] in ('dict', 'dataset') and len(a) == len(b) == 3:
        j = [y if x in (('none!',), ANY) else (x if y in (('none!',), ANY) else join_ty(x, y)) for x, y in zip(a[1:], b[1:])]
        return ('dict', j[0], j[1])
    return ANY


def atomise(a):
    """Boolean BDD node for an atom."""
    return mk('ite', (a, TRUE, FALSE), BOOL)


def neg(c):
    return ite(c, FALSE, TRUE)


def conj(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def disj(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def atoms_of(t):
    """Atoms on the conditional skeleton of t."""
    seen = set()
    out = []

    def go(x):
        if x.op != 'ite' or x in seen:
            return
        seen.add(x)
        if x.a[0] not in out:
            out.append(x.a[0])
        go(x.a[1])
        go(x.a[2])
    go(t)
    return out


def leaves(t):
    seen = set()
    out = []

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'ite':
            go(x.a[1])
            go(x.a[2])
        else:
            out.append(x)
    go(t)
    return out


def leaf_paths(t, limit=4000):
    """[(literals, leaf)] of the decision diagram (for reports)."""
    out = []

    def go(x, lits):
        if len(out) >= limit:
            return
        if x.op == 'ite':
            go(x.a[1], lits + [(x.a[0], True)])
            go(x.a[2], lits + [(x.a[0], False)])
        else:
            out.append((lits, x))
    go(t, [])
    return out


def implied(a, val, b):
    """Truth of atom b given atom a == val (True/False/None)."""
    if a is b:
        return val
    oa, ob = a.op, b.op
    if oa == 'in' == ob:
        # a row of a confusion matrix and its entries
        ka, kb = a.a[1], b.a[1]
        if ka.op == 'app' == kb.op:
            if val and ka.a[0] == 'cmkeys' and kb.a[0] == 'keys' and ka.a[1] is kb.a[1] and ka.a[2] is b.a[0]:
                return True
            if not val and ka.a[0] == 'keys' and kb.a[0] == 'cmkeys' and kb.a[1] is ka.a[1] and kb.a[2] is a.a[0]:
                return False
        return None
    if oa == 'eq' and ob == 'eq' and val:
        # same subject, both against distinct constants
        x, c = a.a
        y, d = b.a
        if x is y and isconst(c) and isconst(d) and c is not d:
            return False
        return None
    if oa in ('le', 'lt', 'eqp') and ob in ('le', 'lt', 'eqp') and a.a[0] is b.a[0]:
        c = Fraction(*a.a[1])
        d = Fraction(*b.a[1])
        isint = a.a[0].ty[0] == 'int'
        # interval of p given a==val : (lo, lo_strict, hi, hi_strict) or point / not-point
        if oa == 'eqp':
            if val:
                if ob == 'eqp':
                    return c == d
                if ob == 'le':
                    return c <= d
                return c < d
            if ob == 'eqp' and c == d:
                return False
            return None
        if oa == 'le':
            lo, los, hi, his = (None, False, c, False) if val else (c, True, None, False)
        else:
            lo, los, hi, his = (None, False, c, True) if val else (c, False, None, False)
        if isint:
            if lo is not None and los:
                lo, los = Fraction(int(lo // 1) + 1), False
        if ob == 'le':
            if hi is not None and hi <= d:
                return True
            if lo is not None and (lo > d or (lo == d and los)):
                return False
        elif ob == 'lt':
            if hi is not None and (hi < d or (hi == d and his)):
                return True
            if lo is not None and lo >= d:
                return False
        else:
            if hi is not None and (hi < d or (hi == d and his)):
                return False
            if lo is not None and (lo > d or (lo == d and los)):
                return False
        return None
    if oa == 'isinst' and ob == 'isinst' and a.a[0] is b.a[0]:
        if val and a.a[1] != b.a[1] and a.a[1] in DISJOINT and b.a[1] in DISJOINT:
            return False
    if not val and oa in ('eqp', 'le') and ob in ('le', 'lt', 'eqp') and a.a[0].op == 'sum' and (a.a[1][0] == 0 if oa == 'eqp' else a.a[1][0] >= 0):
        for f, fv in inhabited(a.a[0]):
            r = implied(f, fv, b)
            if r is not None:
                return r
        return None
    if oa == 'eq' and val and ob == 'eqp':
        if a.a[1].op == 'const' and cased(a.a[0]) and b.a[0].op == 'len' and b.a[0].a[0] is a.a[0].a[1] and b.a[1] == (0, 1):
            return a.a[1].a[1] == ''
        return None
    if ob == 'eq' and val and oa == 'eqp':
        if b.a[1].op == 'const' and cased(b.a[0]) and a.a[0].op == 'len' and a.a[0].a[0] is b.a[0].a[1] and a.a[1] == (0, 1):
            return b.a[1].a[1] == ''
        return None
    if val and oa == 'eq' and ob in ('truth', 'isinst') and a.a[0] is b.a[0]:
        if a.a[1] is NONE_T:
            return False
    if val and ob == 'eq' and oa in ('truth', 'isinst') and a.a[0] is b.a[0]:
        if b.a[1] is NONE_T:
            return False
    return None


def cased(x):
    return x.op == 'app' and x.a[0] in ('str.lower', 'str.upper')


DISJOINT = frozenset(['int', 'str', 'dict', 'list', 'tuple', 'Dataset', 'set', 'frozenset'])


def _inhabited_raw(s):
    """Ground literals that hold if the range of a sum is not empty."""
    out = []
    for c in s.a[1]:
        rest = {}
        for m, k in to_poly(c).items():
            mine = [x for x, e in m if any(isinstance(f, tuple) and f[1] == s.h for f in x.fv)]
            if not mine:
                rest[m] = rest.get(m, Fraction(0)) + k
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'bv' and k > 0 and m[0][0].ty[0] == 'int' and m[0][0].ty[1] is not None:
                rest[()] = rest.get((), Fraction(0)) + k * m[0][0].ty[1]
            else:
                break
        else:
            f = cmp0('le', from_poly(rest))
            if f.op == 'ite' and isboolleaf(f.a[1]) and isboolleaf(f.a[2]) and f.a[0].op != 'sum':
                out.append((f.a[0], f.a[1] is TRUE))
    return out


inhabited = memo(_inhabited_raw)


def solved(atom):
    """(x, replacement) implied by atom being true, or None."""
    if atom.op == 'eq':
        x, c = atom.a
        if isconst(c) and x.op not in ('const', 'num') and not isconst(x):
            return x, c
        if x.op in ('lv', 'bv', 'var') and x not in subterms(c):
            return x, c
        if c.op in ('lv', 'bv', 'var') and c not in subterms(x):
            return c, x
        return None
    if atom.op == 'eqp':
        p = to_poly(atom.a[0])
        c = Fraction(*atom.a[1])
        # solve for the largest-key linear atom with coefficient +-1
        cands = []
        for m, k in p.items():
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1:
                x = m[0][0]
                if any(x in subterms(y) for m2, _ in p.items() if m2 != m for y, _e in m2):
                    continue
                if any(y is x for m2, _ in p.items() if m2 != m for y, _e in m2):
                    continue
                cands.append((x, k, m))
        if not cands:
            return None
        x, k, m = max(cands, key=lambda z: z[0].key)
        rest = {mm: -kk / k for mm, kk in p.items() if mm != m}
        rest[()] = rest.get((), Fraction(0)) + c / k
        return x, from_poly(rest)
    return None


_subt_memo = {}
_memos.append(_subt_memo)


def subterms(t):
    r = _subt_memo.get(t)
    if r is None:
        s = set([t])
        for x in t.a:
            for y in _walkT(x):
                s |= subterms(y)
        r = frozenset(s)
        _subt_memo[t] = r
    return r


def without_count(t, atom):
    """t where a confusion matrix has no such row, or no such entry: the count is zero."""
    x, ks = atom.a
    m = {}
    for y in subterms(t):
        if y.op == 'app' and y.a[0] == 'cmget' and y.a[1] is ks.a[1]:
            if (y.a[2] is x) if ks.a[0] == 'keys' else (y.a[2] is ks.a[2] and y.a[3] is x):
                m[y] = ZERO
    if not m:
        return t
    try:
        return substm(t, m)
    except ZeroDivisionError:
        return mk('undef', ('div0',), ANY)


def _assume_raw(t, atom, val):
    if t.op == 'ite':
        r = implied(atom, val, t.a[0])
        if r is True:
            out = assume(t.a[1], atom, val)
        elif r is False:
            out = assume(t.a[2], atom, val)
        else:
            h = assume(t.a[1], atom, val)
            l = assume(t.a[2], atom, val)
            if h is t.a[1] and l is t.a[2]:
                out = t
            else:
                out = mkite(t.a[0], h, l)
    else:
        out = t
    if not val and atom.op == 'in' and out.op != 'ite' and atom.a[1].op == 'app' and atom.a[1].a[0] in ('keys', 'cmkeys'):
        out = without_count(out, atom)
    if val and atom.op == 'eqp' and atom.a[1] == (0, 1) and out.op != 'ite' and out.hassum:
        try:
            out = without_none(out, atom.a[0])
        except ZeroDivisionError:
            return mk('undef', ('div0',), ANY)
    if val:
        s = solved(atom)
        if s is not None and s[0] in subterms(out):
            try:
                out = subst(out, s[0], s[1])
            except ZeroDivisionError:
                return mk('undef', ('div0',), ANY)
            # a substituted term may expose the atom again
            if out.op == 'ite' and any(x is atom for x in atoms_of(out)):
                out = drop(out, atom, True)
    if out.op != 'ite' and out.hassel and not atom.fv:
        m = {}
        for x in subterms(out):
            if x.op == 'sel' and not x.fv:
                y = assume(x.a[0], atom, val)
                if y is not x.a[0]:
                    m[x] = y if y.op != 'ite' else box(y)
        if m:
            out = substm(out, m)
    if atom.op == 'le' and out.op != 'ite' and out.hassum:
        c = Fraction(*atom.a[1])
        if val:
            m = empty_sums(out, atom.a[0], c)
        elif atom.a[0].ty[0] == 'int':
            m = empty_sums(out, negn(atom.a[0]), -c - 1)
        else:
            m = None
        if m:
            out = substm(out, m)
    return out


assume = memo(_assume_raw)


def _none_of(p):
    """(v, constraints, Z) if p == 0 says that no member v of a range fails Z."""
    ps = to_poly(p)
    if not ps or len(ps) > 12:
        return None
    v = cons = None
    f = ZERO
    for m, k in ps.items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'sum' or len(m[0][0].a[0]) != 1 or m[0][0].a[3] is not ONE:
            return None
        s = m[0][0]
        if v is None:
            v = lv(s.a[0][0], 's')
        elif v.ty != s.a[0][0]:
            return None
        c, g = opened(s, v)[:2]
        if cons is None:
            cons = c
        elif cons != c:
            return None
        f = add(f, ite(g, num(k), ZERO))
    ns = [numval(x) for x in leaves(f)]
    if None in ns or (min(ns) < 0 < max(ns)):
        return None
    return v, cons, eq(f, ZERO), -1 if min(ns) < 0 else 1


none_of = memo(_none_of)


def opened(s, v):
    b = bv(s.h, 0, v.ty)
    g = TRUE
    for a in s.a[2]:
        g = conj(g, subst(a, b, v))
    return frozenset(subst(c, b, v) for c in s.a[1]), g, subst(s.a[3], b, v)


def without_none(t, p):
    """t, knowing that the sums of p count nothing (p == 0)."""
    r = none_of(p)
    if r is None:
        return t
    m = {}
    for x in sorted((x for x in subterms(t) if x.op in ('poly', 'sum') and not x.fv), key=lambda x: -x.size):
        if not any(x in subterms(y) for y in m):
            y = _without_none(x, r)
            if y is not x:
                m[x] = y if y.op != 'ite' else box(y)
    return substm(t, m) if m else t


def _without_none(t, r):
    v, cons, z, _ = r
    rest, mine = {}, {}
    for m, k in to_poly(t).items():
        s = m[0][0] if len(m) == 1 and m[0][1] == 1 else None
        if s is not None and s.op == 'sum' and s.a[0] == (v.ty,) and not s.fv:
            c, g, b = opened(s, v)
            if c >= cons:
                mine[c] = add(mine.get(c, ZERO), ite(g, mul(num(k), b), ZERO))
                continue
        rest[m] = k
    if not mine:
        return t
    out = from_poly(rest)
    for c, f in mine.items():
        out = add(out, Sum([v], list(c), z, f))
    return out if out.size < t.size else t


def empty_sums(t, p, hi):
    """Sums in t whose range is empty when p <= hi."""
    pp = to_poly(p)
    anchor = None
    for m in pp:
        for x, _ in m:
            anchor = x
    if anchor is None or anchor not in subterms(t):
        return {}
    out = {}
    for s in subterms(t):
        if s.op != 'sum' or s.fv or anchor not in subterms(s):
            continue
        for c in s.a[1]:
            q = to_poly(c)
            rest = {}
            ok = True
            for m, k in q.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'bv' and m[0][0].ty[0] == 'int':
                    if k <= 0 or m[0][0].ty[1] is None or m[0][0].ty[1] < 0:
                        ok = False
                        break
                    continue
                rest[m] = k
            if not ok:
                continue
            d = rest.pop((), Fraction(0))
            # rest == -k*p with k > 0
            if set(rest) != set(m for m in pp if m != ()):
                continue
            ks = set(-rest[m] / pp[m] for m in rest)
            if len(ks) != 1:
                continue
            k = ks.pop()
            if k <= 0:
                continue
            if -k * (hi - pp.get((), Fraction(0))) + d > 0:
                out[s] = ZERO
                break
    return out


def drop(t, atom, val):
    if t.op != 'ite':
        return t
    if t.a[0] is atom:
        return drop(t.a[1] if val else t.a[2], atom, val)
    h, l = drop(t.a[1], atom, val), drop(t.a[2], atom, val)
    if h is t.a[1] and l is t.a[2]:
        return t
    return mkite(t.a[0], h, l)


def constrain(t, cond):
    """Simplify t knowing cond (a BDD) holds."""
    if cond is TRUE or cond is FALSE:
        return t
    if cond.op != 'ite':
        return t
    a, h, l = cond.a
    if h is FALSE:
        return constrain(assume(t, a, False), l)
    if l is FALSE:
        return constrain(assume(t, a, True), h)
    # genuinely branching condition: simplify below both sides
    th = constrain(assume(t, a, True), h)
    tl = constrain(assume(t, a, False), l)
    if th is tl:
        return th
    return t


# ---------------------------------------------------------------- substitution
def subst(t, x, r):
    return substm(t, {x: r})


def substm(t, m):
    if not m:
        return t
    memo_ = {}
    keys = list(m)

    def touches(u):
        s = subterms(u)
        return any(k in s for k in keys)

    def go(u):
        v = m.get(u)
        if v is not None:
            return v
        if not touches(u):
            return u
        v = memo_.get(u)
        if v is None:
            v = rebuild(u, go)
            memo_[u] = v
        return v
    return go(t)


def gotuple(x, go):
    if isinstance(x, T):
        return go(x)
    if isinstance(x, tuple):
        return tuple(gotuple(y, go) for y in x)
    return x


def rebuild(u, go):
    """Re-normalise node u with go applied to its children."""
    op = u.op
    if op == 'ite':
        c = go(u.a[0]) if False else rebuild_atom(u.a[0], go)
        return ite(c, go(u.a[1]), go(u.a[2]))
    if op == 'poly':
        acc = ZERO
        for m, k in u.a:
            p = num(Fraction(*k))
            for x, e in m:
                y = go(x)
                p = mul(p, power(y, e))
            acc = add(acc, p)
        return acc
    if op == 'pp':
        return go(u.a[0])
    if op == 'sel':
        x = go(u.a[0])
        return box(x)
    if op == 'sum':
        vs, cons, g0, body = open_sum_g(u)
        cons2 = [go(c) for c in cons]
        g = TRUE
        for a in g0:
            g = conj(g, go(a))
        return Sum(vs, cons2, g, go(body))
    if op == 'seq':
        parts = []
        for s in u.a:
            parts.append(rebuild_seg(s, go))
        return concat(parts)
    if op == 'fold':
        return rebuild_fold(u, go)
    if op == 'setc':
        v = lv(u.a[1], 'x')
        body = subst_bv(u, u.a[2], v)
        return mkset(v, go(body))
    if op == 'mapc':
        v, pres, val = open_map(u)
        return mkmap(v, go(pres), go(val))
    if op == 'at':
        return at(go(u.a[0]), go(u.a[1]))
    if op == 'len':
        return length(go(u.a[0]))
    if op == 'slice':
        return slice_(go(u.a[0]), go(u.a[1]), go(u.a[2]))
    if op == 'dictv':
        return mk('dictv', gotuple(u.a, go), u.ty)
    if op == 'lam':
        # ('lam', n, tys, body)
        vs = [lv(t, 'l') for t in u.a[1]]
        body = open_binder(u, u.a[2], vs)
        return mklam(vs, go(body))
    if op == 'app':
        args = [gotuple(x, go) for x in u.a[1:]]
        h = APP_REBUILD.get(u.a[0])
        if h is not None:
            return h(*args)
        if all(isinstance(x, T) for x in args):
            return lift(lambda *xs: mk('app', (u.a[0],) + xs, u.ty, opq=u.op == 'opq'), *args)
        return mk('app', (u.a[0],) + tuple(args), u.ty)
    if op in ATOM_OPS:
        return rebuild_atom(u, go)
    if op == 'opq':
        return mk('opq', gotuple(u.a, go), u.ty, opq=True)
    return mk(op, gotuple(u.a, go), u.ty)


APP_REBUILD = {}
ATOM_OPS = frozenset(['eq', 'eqp', 'le', 'lt', 'in', 'isinst', 'truth', 'hasattr'])


def rebuild_atom(a, go):
    op = a.op
    if op == 'eq':
        return eq(go(a.a[0]), go(a.a[1]))
    if op == 'eqp':
        return eq(go(a.a[0]), num(Fraction(*a.a[1])))
    if op == 'le':
        return le(go(a.a[0]), num(Fraction(*a.a[1])))
    if op == 'lt':
        return lt(go(a.a[0]), num(Fraction(*a.a[1])))
    if op == 'in':
        return contains(go(a.a[1]), go(a.a[0]))
    if op == 'truth':
        x = a.a[0]
        if x.op == 'app' and x.a[0] == 'haskey':
            return haskey(go(x.a[1]), go(x.a[2]))
        return truth(go(x))
    if op == 'isinst':
        return lift(lambda x: atomise(mk('isinst', (x, a.a[1]), BOOL)), go(a.a[0]))
    if op == 'hasattr':
        return lift(lambda x: atomise(mk('hasattr', (x, a.a[1]), BOOL)), go(a.a[0]))
    raise ValueError(op)


APP_REBUILD['keys'] = lambda a: keys_of(a)
APP_REBUILD['unzip'] = lambda a: unzip(a)
APP_REBUILD['groups'] = lambda a: lift(groups, a)
APP_REBUILD['lset'] = lambda a, b, c: lset(a, b, c)
APP_REBUILD['dset'] = lambda a, b, c: dset(a, b, c)
APP_REBUILD['dictget'] = lambda a, b, c: dictget(a, b, None if c is const('$required') else c)


# binders other than sums: body holds bv(h,slot) where h is the node's height
def open_binder(node, body, vs):
    h = node.h
    m = {}
    for i, v in enumerate(vs):
        m[bv(h, i, v.ty)] = v
    return substm(body, m)


def subst_bv(node, body, v):
    return open_binder(node, body, [v])


def close_binder(vs, body_terms):
    """Replace fresh variables by canonical ones; returns (h, binds, terms)."""
    h = 1 + max([t.h for t in body_terms] + [0])
    for _ in range(6):
        out = [substm(t, {v: bv(h, i, v.ty) for i, v in enumerate(vs)}) for t in body_terms]
        h2 = 1 + max([t.h for t in out] + [0])
        if h2 <= h:
            break
        # normalisation made new binders, which may have captured the variables: choose others
        h = h2
    else:
        raise TooBig('binder height')
    n = 0
    while h2 != h and n < 5:
        # normalisation lowered the height: rename
        m = {bv(h, i, v.ty): bv(h2, i, v.ty) for i, v in enumerate(vs)}
        out = [substm(t, m) for t in out]
        h, h2 = h2, 1 + max([t.h for t in out] + [0])
        n += 1
    binds = [('b', h, i) for i in range(len(vs))]
    return h, binds, out


def mkb(op, a, ty, h, binds):
    t = mk(op, a, ty, binds=binds)
    return t


def mklam(vs, body):
    h, binds, (b,) = close_binder(vs, [body])
    return mkb('lam', (len(vs), tuple(v.ty for v in vs), b), ANY, h, binds)


# ---------------------------------------------------------------- folds
def mkfold(levels, guard, ins, inits, outs, k):
    """Component k of the loop state after folding `outs` over the iterations.

    levels: [(var, ('range', n) | ('set', pred))]; ins/outs: state before/after
    one iteration.  Slots k does not depend on are projected away and the rest
    is put in a name-independent order.
    """
    return mkfolds(levels, guard, ins, inits, outs, [k])[0]


def mkfolds(levels, guard, ins, inits, outs, ks, shared=None):
    """The components ks; those that depend on the same slots share one fold."""
    res = []
    shared = {} if shared is None else shared
    for k in ks:
        # an iteration that changes nothing
        if outs[k] is ins[k] or guard is FALSE:
            res.append(inits[k])
            continue
        if len(levels) == 1 and levels[0][1][0] == 'range':
            n = intval(levels[0][1][1])
            if n is not None and n <= 0:
                res.append(inits[k])
                continue
        u = union_fold(levels, guard, ins, inits, outs, k)
        if u is not None:
            res.append(u)
            continue
        need = reach(k, outs, ins)
        key = frozenset(need)
        if key not in shared:
            need.sort()
            order = [need[j] for j in slot_order([inits[j] for j in need], [outs[j] for j in need], [ins[j] for j in need],
                                                  [v for v, _ in levels])]
            shared[key] = order, foldv(levels, guard, [ins[j] for j in order], [inits[j] for j in order],
                                       [outs[j] for j in order])
        order, f = shared[key]
        i = order.index(k)
        if len(reach(i, f.a[7], slots_of(f))) < len(order):
            # closing made some slots unnecessary
            res += mkfolds(*open_fold(f), [i])
        else:
            res.append(mk('fold', (f, i), ins[k].ty))
    return res


def slots_of(f):
    return [bv(f.a[0], len(f.a[1]) + i, t) for i, t in enumerate(f.a[3])]


def foldv(levels, guard, ins, inits, outs):
    vs = [v for v, _ in levels] + list(ins)
    terms = [d[1] for _, d in levels] + [guard] + list(outs)
    h, binds, out = close_binder(vs, terms)
    nl = len(levels)
    a = (h, tuple(v.ty for v, _ in levels), tuple(d[0] for _, d in levels), tuple(i.ty for i in ins),
         tuple(out[:nl]), out[nl], tuple(inits), tuple(out[nl + 1:]))
    return mk('foldv', a, ANY, binds=binds)


def union_fold(levels, guard, ins, inits, outs, k):
    """A loop that only adds elements to a set."""
    acc, o, init = ins[k], outs[k], inits[k]
    if o.ty[0] != 'set' or len(levels) != 1:
        return None
    if not all(l.ty[0] == 'set' for l in leaves(init)):
        return None
    et = elemty(o)
    for l in leaves(init):
        et = join_ty(et, elemty(l)) if not (l.op == 'setc' and l.a[2] is FALSE) else et
    x = lv(et, 'x')
    p = contains(o, x)
    a = contains(acc, x)
    if a.op != 'ite' or a.a[1] is not TRUE or a.a[2] is not FALSE:
        return None
    a = a.a[0]
    if drop(p, a, True) is not TRUE:
        return None
    q = drop(p, a, False)
    ss = subterms(q)
    if any(i in ss for i in ins):
        return None
    q = conj(guard, q)
    v, dom = levels[0]
    return mkset(x, disj(contains(init, x), exists(v, dom, q)))


def open_fold(u):
    h, ltys, kinds, stys, doms, guard, inits, outs = u.a
    vs = [lv(t, 'f') for t in ltys + stys]
    m = {bv(h, i, v.ty): v for i, v in enumerate(vs)}
    nl = len(ltys)
    levels = [(vs[i], (kinds[i], substm(doms[i], m))) for i in range(nl)]
    return levels, substm(guard, m), vs[nl:], list(inits), [substm(o, m) for o in outs]


def rebuild_in_place(f, go):
    h, ltys, kinds, stys, doms, guard, inits, outs = f.a
    doms2, guard2, outs2 = [go(x) for x in doms], go(guard), [go(x) for x in outs]
    if 1 + max(x.h for x in doms2 + [guard2] + outs2) != h or guard2 is FALSE:
        return None
    inits2 = [go(x) for x in inits]
    nl = len(ltys)
    if len(outs) > 1 and slot_order(inits2, outs2, [bv(h, nl + i, t) for i, t in enumerate(stys)],
                                     [bv(h, i, t) for i, t in enumerate(ltys)]) != list(range(len(outs))):
        return None
    if any(o.op == 'bv' and o.a[0] == h for o in outs2) or any(o.ty[0] == 'set' for o in outs2):
        return None
    if kinds == ('range',):
        n = intval(doms2[0])
        if n is not None and n <= 0:
            return None
    return mk('foldv', (h, ltys, kinds, stys, tuple(doms2), guard2, tuple(inits2), tuple(outs2)), ANY,
              binds=[('b', h, i) for i in range(nl + len(outs))])


def reach(k, outs, ins):
    """The slots that slot k depends on."""
    need = [k]
    for x in need:
        s = subterms(outs[x])
        for j, i in enumerate(ins):
            if i in s and j not in need:
                need.append(j)
    return need


def slot_order(inits, outs, ins, levels):
    ph = {v: var('$level%d' % i, v.ty) for i, v in enumerate(levels)}
    n = len(ph)

    def second(j):
        if len(ph) == n:
            ph.update({i: var('$slot', i.ty) for i in ins})
        return substm(outs[j], ph).key
    groups_ = {}
    for j, i in enumerate(inits):
        groups_.setdefault(i.key, []).append(j)
    out = []
    for key in sorted(groups_):
        g = groups_[key]
        out += sorted(g, key=second) if len(g) > 1 else g
    return out


def rebuild_fold(u, go):
    f, k = u.a
    cache = go.__dict__.setdefault('folds', {})
    if f not in cache:
        # in place, unless the heights change
        r = rebuild_in_place(f, go)
        if r is not None:
            cache[f] = r
    if f not in cache:
        levels, guard, ins, inits, outs = open_fold(f)
        cache[f] = [(v, (d[0], go(d[1]))) for v, d in levels], go(guard), ins, [go(x) for x in inits], \
            [go(x) for x in outs], {}
    r = cache[f]
    if isinstance(r, T):
        if len(reach(k, r.a[7], slots_of(r))) == len(r.a[7]):
            return mk('fold', (r, k), u.ty)
        levels, guard, ins, inits, outs = open_fold(r)
        return mkfolds(levels, guard, ins, inits, outs, [k])[0]
    levels, guard, ins, inits, outs, shared = cache[f]
    return mkfolds(levels, guard, ins, inits, outs, [k], shared)[0]


def unzip(s):
    """zip(*s)"""
    def f(s):
        es = ones(s)
        if es is not None:
            rows = [ones(e) for e in es]
            if not rows:
                return concat([])
            if all(r is not None and len(r) == len(rows[0]) for r in rows):
                return concat([one(concat([one(r[i]) for r in rows])) for i in range(len(rows[0]))])
        e = elemty(s)
        return mk('app', ('unzip', s), ('seq', ('seq', e if e[0] != 'seq' else e[1])))
    return lift(f, s)


# functional container updates
def groups(x):
    """Maximal runs of equal elements."""
    if x.op == 'seq' and len(x.a) == 1 and x.a[0][0] == 'comp' and x.a[0][1] == 'range':
        v, dom, body = open_seg(x, x.a[0])
        if body.op == 'seq' and len(body.a) == 1 and body.a[0][0] == 'comp' and body.a[0][1] == 'range':
            u, d2, b2 = open_seg(body, body.a[0])
            es = ones(b2)
            # runs of a constant, non-empty, and different from one to the next
            if es is not None and len(es) == 1 and lvid(u) not in es[0].fv and lower(d2[1]) is not None and \
                    lower(d2[1]) >= 1 and eq(es[0], subst(es[0], v, add(v, ONE))) is FALSE:
                return comp(v, dom, one(body))
    return mk('app', ('groups', x), ('seq', ('seq', elemty(x))))


def lset(s, i, v):
    """s with element i replaced."""
    def f(s, i):
        es = ones(s)
        n = intval(i)
        if es is not None and n is not None and -len(es) <= n < len(es):
            es = list(es)
            es[n] = v
            return concat([one(x) for x in es])
        return mk('app', ('lset', s, i, v), s.ty if s.ty[0] == 'seq' else ('seq', ANY))
    return lift(f, s, i)


def dset(ents, k, v):
    """Entries with the value of the (present) key k replaced."""
    def f(e):
        if e.op == 'seq' and e.a and e.a[-1][0] == 'one':
            kv = ones(e.a[-1][1])
            if kv is not None and len(kv) == 2:
                c = eq(kv[0], k)
                if c is TRUE:
                    return concat([mkseq(list(e.a[:-1])), one(concat([one(k), one(v)]))])
        if e.op == 'app' and e.a[0] == 'dset' and e.a[2] is k:
            return dset(e.a[1], k, v)
        return mk('app', ('dset', e, k, v), e.ty if e.ty[0] == 'seq' else ('seq', ANY))
    return lift(f, ents)


def dictget(ents, k, default=None):
    """Value of key k among entries (last match), or default."""
    dflt = default if default is not None else const('$required')

    def plain(e):
        return mk('app', ('dictget', e, k, dflt), ANY)

    def f(e):
        if e.op == 'bot':
            return BOT
        if e.op == 'app' and e.a[0] == 'dset':
            return ite(eq(e.a[2], k), e.a[3], dictget(e.a[1], k, default))
        if e.op == 'seq':
            if not e.a:
                return default if default is not None else mk('undef', ('key',), ANY)
            sg = e.a[-1]
            base = mkseq(list(e.a[:-1]))
            if sg[0] == 'one':
                kv = ones(sg[1])
                if kv is None or len(kv) != 2:
                    return plain(e)
                return ite(eq(kv[0], k), kv[1], dictget(base, k, default))
            if sg[0] == 'spl':
                if not base.a if base.op == 'seq' else False:
                    return plain(sg[1])
                return plain(e)
            if sg[0] == 'comp' and (sg[1] == 'set' or k.ty[0] == 'int'):
                v, dom, body = open_seg(e, sg)
                if sg[1] == 'range' and lvid(v) in dom[1].fv:
                    return plain(e)
                for l in leaves(body):
                    if l is EMPTY:
                        continue
                    es = ones(l)
                    if es is None or len(es) != 1 or ones(es[0]) is None or len(ones(es[0])) != 2 or ones(es[0])[0] is not v:
                        return plain(e)
                g = lift(lambda l: FALSE if l is EMPTY else TRUE, body)
                val = lift(lambda l: BOT if l is EMPTY else ones(ones(l)[0])[1], body)
                inr = conj(le(ZERO, k), lt(k, dom[1])) if sg[1] == 'range' else subst(dom[1], v, k)
                c = conj(inr, subst(g, v, k))
                return ite(c, subst(val, v, k), dictget(base, k, default))
        return plain(e)
    return lift(f, ents)


def haskey(ents, k):
    def f(e):
        if e.op == 'app' and e.a[0] == 'dset':
            return haskey(e.a[1], k)
        if e.op == 'bot':
            return FALSE
        if e.op == 'seq':
            r = FALSE
            for sg in e.a:
                if sg[0] == 'one':
                    r = disj(r, eq(at(sg[1], ZERO), k))
                elif sg[0] == 'spl':
                    r = disj(r, haskey(sg[1], k))
                else:
                    v, dom, body = open_seg(e, sg)
                    r = disj(r, exists(v, dom, haskey(body, k)))
            return r
        return atomise(mk('truth', (mk('app', ('haskey', e, k), BOOL),), BOOL))
    return lift(f, ents)


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == 'num':
        v = Fraction(t.a[0], t.a[1])
        return {(): v} if v else {}
    if t.op == 'poly':
        return {m: Fraction(*k) for m, k in t.a}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fraction(1)}


def mono_key(m):
    return tuple((x.key, e) for x, e in m)


def isint(t):
    return t.ty[0] in ('int', 'bool')


def lower(t):
    """A constant lower bound of an atom, if known."""
    if t.ty[0] == 'int':
        return t.ty[1]
    if t.ty[0] == 'bool':
        return 0
    return None


def spread(p):
    """p without its c*(max(S) - min(S)) terms; returns (rest, sign of what was taken)."""
    ext = [(m, x) for m, k in p.items() if len(m) == 1 and m[0][1] == 1
           for x in [m[0][0]] if x.op == 'app' and x.a[0] == 'max' and len(x.a) == 2]
    if not ext:
        return p, 0
    sign = 0
    p = dict(p)
    for m, x in ext:
        for n, k in list(p.items()):
            if len(n) == 1 and n[0][1] == 1 and n[0][0].op == 'app' and n[0][0].a[0] == 'min' and \
                    n[0][0].a[1:] == x.a[1:] and k * p[m] < 0:
                c = min(abs(k), abs(p[m]))
                sg = 1 if p[m] > 0 else -1
                if sign and sg != sign:
                    return p, 0
                sign = sg
                p[m] -= c * sg
                p[n] += c * sg
    return {m: k for m, k in p.items() if k}, sign


def from_poly(p):
    p = {m: k for m, k in p.items() if k}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, k), = p.items()
        if m == ():
            return num(k)
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(((m, (k.numerator, k.denominator)) for m, k in p.items()),
                         key=lambda z: (len(z[0]), mono_key(z[0]))))
    ty = NUM
    if all(k[1] == 1 and all(isint(x) and e > 0 for x, e in m) for m, k in items):
        lo = Fraction(0)
        rest, sign = spread(p)
        for m, k in (items if sign <= 0 else [(m, (k.numerator, 1)) for m, k in rest.items()]):
            if m == ():
                lo += k[0]
                continue
            ls = [lower(x) for x, e in m]
            if k[0] > 0 and all(l is not None and l >= 0 for l in ls):
                v = 1
                for (x, e), l in zip(m, ls):
                    v *= l ** e
                lo += k[0] * v
            else:
                lo = None
                break
        ty = ('int', None if lo is None else int(lo))
    return mk('poly', items, ty)


def mulmono(a, b):
    d = {}
    for x, e in a + b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].key))


def _reduce_inv(p):
    """Rewrite lead(D)*D^-1 -> 1 - rest(D)*D^-1 ."""
    for _ in range(200):
        hit = None
        for m in p:
            for x, e in m:
                if x.op == 'pp' and e < 0:
                    D = to_poly(x.a[0])
                    lead, lk = lead_mono(D)
                    if lead == ():
                        continue
                    dm = dict(m)
                    if all(dm.get(y, 0) >= f if f > 0 else dm.get(y, 0) <= f for y, f in lead):
                        hit = (m, x, D, lead, lk)
                        break
            if hit:
                break
        if not hit:
            return p
        m, x, D, lead, lk = hit
        k = p.pop(m)
        invlead = tuple((y, -f) for y, f in lead)
        base = mulmono(m, invlead)            # mono without lead, still has x^-e
        # lead = (D - rest)/lk
        m1 = mulmono(base, ((x, 1),))
        p[m1] = p.get(m1, 0) + k / lk
        for rm, rk in D.items():
            if rm == lead:
                continue
            m2 = mulmono(base, rm)
            p[m2] = p.get(m2, 0) - k * rk / lk
        p = {a: b for a, b in p.items() if b}
    return p


def lead_mono(D):
    lead = max(D, key=lambda m: (sum(abs(e) for _, e in m), mono_key(m)))
    return lead, D[lead]


def _fix(p):
    # x*x = x for boolean-valued atoms is not needed: booleans are lifted.
    if any(x.op == 'pp' for m in p for x, e in m):
        p = _reduce_inv(dict(p))
        # positive powers of pp get expanded
        for m in list(p):
            for x, e in m:
                if x.op == 'pp' and e > 0:
                    rest = tuple((y, f) for y, f in m if y is not x)
                    t = from_poly({rest: p.pop(m)})
                    q = x.a[0]
                    for _ in range(e):
                        t = mul(t, q)
                    for mm, kk in to_poly(t).items():
                        p[mm] = p.get(mm, 0) + kk
                    return _fix({a: b for a, b in p.items() if b})
    return p


def add(a, b):
    if a is ZERO:
        return b if b.op != 'ite' and b.ty[0] != 'bool' else blift(_add, a, b)
    if b is ZERO:
        return a if a.op != 'ite' and a.ty[0] != 'bool' else blift(_add, a, b)
    return blift(_add, a, b)


def _add(a, b):
    p = dict(to_poly(a))
    for m, k in to_poly(b).items():
        p[m] = p.get(m, 0) + k
    return from_poly(_fix({m: k for m, k in p.items() if k}))


def mul(a, b):
    return blift(_mul, a, b)


def _mul(a, b):
    if a.op == 'undef' or b.op == 'undef':
        return mk('undef', ('div0',), ANY)
    p = {}
    for m, k in to_poly(a).items():
        for n, l in to_poly(b).items():
            q = mulmono(m, n)
            p[q] = p.get(q, 0) + k * l
    return from_poly(_fix({m: k for m, k in p.items() if k}))


def negn(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, negn(b))


def inv(a):
    return blift(_inv, a)


def _inv(a):
    if a.op == 'undef':
        return a
    p = to_poly(a)
    if not p:
        return mk('undef', ('div0',), ANY)
    if len(p) == 1:
        (m, k), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / k})
    lead, lk = lead_mono(p)
    D = from_poly({m: k / lk for m, k in p.items()})
    return from_poly({((mk('pp', (D,), D.ty), -1),): 1 / lk})


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    r = ONE
    base = a if n >= 0 else inv(a)
    for _ in range(abs(n)):
        r = mul(r, base)
    return r


def linear(p):
    return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in p)


def nonneg(t):
    """t >= 0 provable from the types of its atoms."""
    if t.op == 'ite':
        return all(nonneg(x) for x in leaves(t))
    p = to_poly(t)
    for m, k in p.items():
        if k < 0:
            return False
        for x, e in m:
            l = lower(x)
            if x.op == 'pp':
                l = 0 if nonneg(x.a[0]) else None
            if l is None or l < 0:
                if e % 2:
                    return False
    return True


# ------------------------------------------------------- comparisons
def _split_const(t):
    p = dict(to_poly(t))
    c = p.pop((), Fraction(0))
    return p, c


def _scale(p):
    """Primitive positive-lead form: (terms, factor) with terms = p*factor."""
    lead, k = lead_mono(p)
    dens = 1
    for v in p.values():
        dens = dens * v.denominator // _gcd(dens, v.denominator)
    nums = 0
    for v in p.values():
        nums = _gcd(nums, abs(int(v * dens)))
    f = Fraction(dens, nums or 1)
    if k < 0:
        f = -f
    return {m: v * f for m, v in p.items()}, f


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def cmp0(op, t):
    """op in lt/le/eq : t op 0 for a plain term."""
    if t.op == 'undef' or t.op == 'bot':
        return FALSE
    p, c = _split_const(t)
    if len(p) == 1:
        (m, k), = p.items()
        if len(m) == 1 and m[0][0].op == 'sel' and m[0][1] == 1 and nodes_of(m[0][0].a[0]) <= 12:
            return blift(lambda x: cmp0(op, x), add(mul(m[0][0].a[0], num(k)), num(c)))
    if not p:
        return TRUE if (c < 0 if op == 'lt' else c <= 0 if op == 'le' else c == 0) else FALSE
    if op == 'eq' and c == 0 and len(p) == 1:
        # a product is zero iff a factor is (a quotient iff its numerator is)
        (m, k), = p.items()
        if len(m) > 1 or (m and m[0][1] != 1):
            return disj(*[cmp0('eq', x) for x, e in m if e > 0])
    # clear denominators that are provably positive
    q, f = _scale(p)
    c = c * f
    s = from_poly(q)
    si = s.ty[0] == 'int'
    if op == 'eq':
        if si and c.denominator != 1:
            return FALSE
        lo = s.ty[1] if si else None
        if lo is not None and -c < lo:
            return FALSE
        hi = upper_const(s)
        if hi is not None and -c > hi:
            return FALSE
        v = -c
        if v == 0 and s.op == 'sum' and si:
            e = positive_sum_empty(s)
            if e is not None:
                return e
        return atomise(mk('eqp', (s, (v.numerator, v.denominator)), BOOL))
    # s/f... : p + c0 op 0  <=> (f>0) q + c op 0 ; (f<0) reversed
    if f > 0:
        return _cmpc(op, s, -c, si)
    # q + c >= 0 / > 0  <=>  not (q + c < 0) / not (q + c <= 0)
    return neg(_cmpc('lt' if op == 'le' else 'le', s, -c, si))


def solve_for(a, v):
    """The value v must have for the equality atom a to hold, or None."""
    if a.op == 'eq':
        for x, y in (a.a, a.a[::-1]):
            if x is v and lvid(v) not in y.fv:
                return y
    if a.op == 'eqp':
        p = dict(to_poly(a.a[0]))
        k = p.pop(((v, 1),), None)
        if k not in (1, -1):
            return None
        r = div(sub(num(Fraction(*a.a[1])), from_poly(p)), num(k))
        return r if r.ty[0] == 'int' and lvid(v) not in r.fv else None
    return None


@memo
def through_image(s):
    """[sum == 0] where a bound variable ranges over the image of another."""
    vs, cons, ats, body = open_sum(s)
    for m, k in to_poly(body).items():
        if k <= 0 or any(e <= 0 or lower(x) is None or lower(x) < 1 for x, e in m):
            return None
    for n, a in enumerate(ats):
        if a.op != 'natom' or not emptiness(a.a[0]) or a.a[0].a[0].op != 'sum':
            continue
        vs2, cons2, ats2, body2 = open_sum(a.a[0].a[0])
        if any(k <= 0 or any(e <= 0 or lower(x) is None or lower(x) < 1 for x, e in m) for m, k in to_poly(body2).items()):
            continue
        for v in vs:
            for j, b in enumerate(ats2):
                f = solve_for(b, v)
                if f is None:
                    continue
                g = conj(*[lit(x) for i, x in enumerate(ats) if i != n] + [lit(x) for i, x in enumerate(ats2) if i != j])
                least = [sub(num(v.ty[1]), f)] if v.ty[0] == 'int' and v.ty[1] is not None else []
                t = Sum([x for x in vs if x is not v] + vs2, [subst(c, v, f) for c in cons + cons2] + least, subst(g, v, f), ONE)
                return eq(t, ZERO)
    return None


@memo
def positive_sum_empty(s):
    """[sum == 0] for a sum of positive terms over a plain range: the range is empty."""
    r = through_image(s)
    if r is not None:
        return r
    if len(s.a[0]) != 1 or s.a[2] or len(s.a[1]) != 1:
        return None
    vs, cons, ats, body = open_sum(s)
    v = vs[0]
    for m, k in to_poly(body).items():
        if k <= 0 or any(e <= 0 or lower(x) is None or lower(x) < 1 for x, e in m):
            return None
    p = to_poly(cons[0])
    if p.get(((v, 1),)) != 1 or not linear(p):
        return None
    c0 = subst(cons[0], v, ZERO)
    if lvid(v) in c0.fv:
        return None
    return neg(le(c0, ZERO))


def _cmpc(op, s, c, si):
    """s op c as BDD, s primitive with positive lead."""
    if si:
        if op == 'lt':
            c = Fraction(-((-c) // 1)) - 1   # s < c  <=> s <= ceil(c)-1
            op = 'le'
        else:
            c = Fraction(c // 1)
        lo = s.ty[1]
        if s.op == 'poly':
            r = none_of(s)
            if r is not None and r[3] < 0:
                if c >= 0:
                    return TRUE
                if c == -1:
                    return neg(atomise(mk('eqp', (s, (0, 1)), BOOL)))
            elif r is not None and lo is None:
                lo = 0
        if lo is not None:
            if c < lo:
                return FALSE
            if c == lo:
                if c == 0 and s.op == 'sum':
                    e = positive_sum_empty(s)
                    if e is not None:
                        return e
                return atomise(mk('eqp', (s, (c.numerator, c.denominator)), BOOL))
    elif nonneg(s):
        if op == 'lt' and c <= 0 or op == 'le' and c < 0:
            return FALSE
        if op == 'le' and c == 0:
            return atomise(mk('eqp', (s, (0, 1)), BOOL))
    hi = upper_const(s)
    if hi is not None:
        if hi < c or (hi == c and op == 'le'):
            return TRUE
    return atomise(mk(op, (s, (c.numerator, c.denominator)), BOOL))


def upper_const(s):
    if s.op == 'poly':
        rest, sign = spread(to_poly(s))
        if sign < 0 and all(m == () for m in rest):
            return rest.get((), Fraction(0))
    return None


def lt(a, b):
    return blift(lambda x: cmp0('lt', x), sub(a, b))


def le(a, b):
    return blift(lambda x: cmp0('le', x), sub(a, b))


NUMERIC = ('int', 'num', 'bool')


def eq(a, b):
    return blift(_eq, a, b)


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('undef', 'bot') or b.op in ('undef', 'bot'):
        return FALSE
    if a.op == 'at' and b.op == 'at' and a.a[0] is b.a[0] and distinct(a.a[0]):
        # defined positions of a sequence without repetitions
        return eq(a.a[1], b.a[1])
    ta, tb = a.ty[0], b.ty[0]
    if ta in NUMERIC and tb in NUMERIC:
        return blift(lambda x: cmp0('eq', x), sub(a, b))
    ca, cb = isconst(a), isconst(b)
    if ca and cb:
        return FALSE
    kn = KINDGROUP.get(ta), KINDGROUP.get(tb)
    if kn[0] and kn[1] and kn[0] != kn[1]:
        return FALSE
    if a.op == 'seq' and b.op == 'seq':
        ea, eb = ones(a), ones(b)
        if ea is not None and eb is not None:
            if len(ea) != len(eb):
                return FALSE
            return conj(*[eq(x, y) for x, y in zip(ea, eb)])
        if ea == [] or eb == []:
            return eq(length(a), length(b))
    for x, y in ((a, b), (b, a)):
        if x.op == 'seq' and not x.a and y.op != 'seq' and kn[0] and kn[0] == kn[1]:
            return eq(length(y), ZERO)
    if a.op == 'app' and b.op == 'app' and a.a[0] == 'strcat' == b.a[0]:
        r = eq_strcat(list(a.a[1:]), list(b.a[1:]))
        if r is not None:
            return r
    if a.op == 'app' and b.op == 'app' and a.a[0] == 'join' == b.a[0]:
        r = eq_join(a, b)
        if r is not None:
            return r
    if ca or (not cb and a.key > b.key):
        a, b = b, a
    return atomise(mk('eq', (a, b), BOOL))


def eq_strcat(xs, ys):
    """Concatenations are equal when they are after a common beginning and end."""
    n = 0
    while xs and ys and xs[0] is ys[0]:
        xs, ys, n = xs[1:], ys[1:], n + 1
    while xs and ys and xs[-1] is ys[-1]:
        xs, ys, n = xs[:-1], ys[:-1], n + 1
    if not xs and not ys:
        return TRUE
    if n and len(xs) == len(ys) == 1 and xs[0].ty[0] == ys[0].ty[0] == 'str':
        return eq(xs[0], ys[0])
    return None


def eq_join(a, b):
    """Joins of lists that differ in one element are equal when the element is."""
    if a.a[1] is not b.a[1] or a.a[2].op != 'seq' or b.a[2].op != 'seq' or \
            len(a.a[2].a) != len(b.a[2].a):
        return None
    other = [(x, y) for x, y in zip(a.a[2].a, b.a[2].a)
             if not (len(x) == len(y) and all(p is q or p == q for p, q in zip(x, y)))]
    if len(other) != 1:
        return None
    x, y = other[0]
    if x[0] == y[0] == 'one' and x[1].ty[0] == y[1].ty[0] == 'str':
        return eq(x[1], y[1])
    return None


def distinct(s):
    """The sequence lists a set."""
    if s.op == 'app' and s.a[0] in ('sorted', 'keys'):
        return s.a[0] == 'keys' or distinct(s.a[1]) or s.a[1].ty[0] == 'set'
    if s.op != 'seq' or len(s.a) != 1 or s.a[0][0] != 'comp' or s.a[0][1] != 'set':
        return False
    b = s.a[0][3]
    return b.op == 'seq' and len(b.a) == 1 and b.a[0][0] == 'one' and b.a[0][1].op == 'bv' and \
        b.a[0][1].a[0] == 1 + max(s.a[0][2].h, s.a[0][3].h)


KINDGROUP = {'int': 'n', 'num': 'n', 'bool': 'n', 'str': 's', 'none': 'z', 'seq': 'q',
             'set': 't', 'dict': 'd', 'fn': 'f', 'dataset': 'd', 'cm': 'd'}


def truth(t):
    return lift(_truth, t)


def _truth(t):
    ok, v = pyconst(t)
    if ok:
        return TRUE if v else FALSE
    if t.op in ('fn', 'cls', 'mod', 'obj', 'lam'):
        return TRUE
    k = t.ty[0]
    if k in NUMERIC:
        return neg(cmp0('eq', t))
    if k in ('seq', 'set', 'dict', 'str', 'dataset', 'cm'):
        return neg(eq(length(t), ZERO))
    if k == 'fn':
        return TRUE
    if k == 'none':
        return FALSE
    if t.op in ('undef', 'bot'):
        return FALSE
    return atomise(mk('truth', (t,), BOOL))


def minmax(a, b, ismax):
    c = lt(a, b)
    return ite(c, b, a) if ismax else ite(c, a, b)


def absn(a):
    def f(x):
        p = to_poly(x)
        v = numval(x)
        if v is not None:
            return num(abs(v))
        if nonneg(x):
            return x
        if nonneg(negn(x)):
            return negn(x)
        lead, k = lead_mono(p)
        if k < 0:
            x = negn(x)
        return mk('app', ('abs', x), ('int', 0) if isint(x) else NUM)
    return lift(f, a)


APP_REBUILD['abs'] = lambda x: absn(x)


# ---------------------------------------------------------------- sequences
def seq(segs):
    return concat([seg_to_part(s) for s in segs])


def seg_to_part(s):
    return mk('seq', (s,), seqty([s]))


def seqty(segs):
    ty = None
    for s in segs:
        e = s[1].ty if s[0] == 'one' else (elemty(s[1]) if s[0] == 'spl' else s[4])
        ty = e if ty is None else join_ty(ty, e)
    return ('seq', ty or ('none!',))


EMPTY = mk('seq', (), ('seq', ('none!',)))


def valty(s):
    if s.ty[0] in ('dict', 'dataset', 'cm') and len(s.ty) > 2:
        return s.ty[2]
    return elemty(s)


def elemty(s):
    if s.ty[0] in ('seq', 'set') and len(s.ty) > 1:
        return s.ty[1]
    if s.ty[0] == 'str':
        return STR
    if s.ty[0] == 'tup':
        ty = s.ty[1]
        for x in s.ty[2:]:
            ty = join_ty(ty, x)
        return ty
    if s.ty[0] == 'dict':
        return s.ty[1]
    if s.ty[0] == 'dataset':
        return s.ty[1] if len(s.ty) > 1 else STR
    return ANY


def one(e):
    return lift(lambda x: mk('seq', (('one', x),), ('seq', x.ty)), e)


def concat(parts):
    r = EMPTY
    for p in parts:
        r = lift(_cat, r, p)
    return r


def _cat(a, b):
    sa, sb = segs_of(a), segs_of(b)
    if sa is None or sb is None:
        return opaque('concat', (a, b), ('seq', ANY))
    segs = sa + sb
    return mkseq(segs)


def mkseq(segs):
    out = []
    for s in segs:
        if s[0] == 'spl' and s[1].op == 'seq':
            out.extend(s[1].a)
        else:
            out.append(s)
    if len(out) == 1 and out[0][0] == 'spl':
        return out[0][1]
    if out and out[0][0] == 'one' and out[0][1].op == 'at' and out[0][1].a[0].ty[0] == 'tup':
        b = out[0][1].a[0]
        if len(out) == len(b.ty) - 1 and all(x[0] == 'one' and x[1].op == 'at' and x[1].a[0] is b and x[1].a[1] is num(n)
                                             for n, x in enumerate(out)):
            return b
    if not out:
        return EMPTY
    return mk('seq', tuple(out), seqty(out))


def segs_of(t):
    if t.op == 'seq':
        return list(t.a)
    if t.op == 'bot':
        return []
    if t.ty[0] in ('seq', 'str', 'any'):
        return [('spl', t)]
    return [('spl', t)]


def ones(t):
    """Element list if t is a literal sequence."""
    if t.op == 'seq' and all(s[0] == 'one' for s in t.a):
        return [s[1] for s in t.a]
    if t.op == 'const' and t.a[0] == 'str':
        return [const(c) for c in t.a[1]]
    if t.ty[0] == 'tup':
        return [mk('at', (t, num(n)), ty) for n, ty in enumerate(t.ty[1:])]
    return None


def comp(v, dom, body):
    """Ordered comprehension: for v in dom: emit body (a sequence term).

    dom is ('range', N) with N an int term, or ('set', predicate BDD over v).
    """
    # hoist conditions that do not depend on v
    outer = [a for a in atoms_of(body) if lvid(v) not in a.fv]
    if outer:
        a = min(outer, key=order)
        return ite(atomise(a), comp(v, dom, drop(assume(body, a, True), a, True)),
                   comp(v, dom, drop(assume(body, a, False), a, False)))
    if dom[0] == 'range' and dom[1].op == 'ite':
        return lift(lambda n: comp(v, ('range', n), body), dom[1])
    return _comp(v, dom, body)


def _comp(v, dom, body):
    if body is EMPTY or body.op == 'bot':
        return EMPTY
    if dom[0] == 'range':
        n = intval(dom[1])
        if n is not None and n <= 0:
            return EMPTY
        if n is not None and n <= 4:
            return concat([subst(body, v, num(i)) for i in range(n)])
        body = bounded(body, v, dom[1])
        # eta: [S[i] for i in range(len S)] is S
        if body.op == 'seq' and len(body.a) == 1 and body.a[0][0] == 'one':
            e = body.a[0][1]
            if e.op == 'at' and e.a[1] is v and lvid(v) not in e.a[0].fv and \
                    length(e.a[0]) is dom[1]:
                return e.a[0]
        # shorten a range whose last iteration is provably empty
        if body.op == 'seq' and all(s[0] == 'comp' and s[1] == 'range' for s in body.a):
            for _ in range(8):
                n1 = sub(dom[1], ONE)
                if all(nonpositive(subst(s[2], v, n1)) for s in body.a):
                    dom = ('range', n1)
                else:
                    break
        h, binds, (n2, b2) = close_binder2(v, dom[1], body)
        s = ('comp', 'range', n2, b2, elem_of(body))
    else:
        if dom[1] is FALSE:
            return EMPTY
        e = only(v, dom[1])
        if e is not None:
            return ite(subst(drop(dom[1], eq(v, e).a[0], True), v, e), subst(body, v, e), EMPTY)
        # elements that contribute nothing are left out of the domain
        if body.op == 'ite':
            body = constrain(body, dom[1])
            if body is EMPTY or body.op == 'bot':
                return EMPTY
        if body.op == 'ite' and body.size <= 400 and any(l is EMPTY for l in leaves(body)):
            g = lift(lambda l: FALSE if l is EMPTY else TRUE, body)
            d2 = conj(dom[1], g)
            if d2 is FALSE:
                return EMPTY
            dom = ('set', d2)
            body = constrain(body, d2)
            body = lift(lambda l: BOT if l is EMPTY else l, body) if body.op == 'ite' else body
            return comp(v, dom, body)
        h, binds, (p2, b2) = close_binder(
            [v], [dom[1], body])[0:3]
        s = ('comp', 'set', p2, b2, elem_of(body), v.ty)
    return mk('seq', (s,), ('seq', s[4]))


def only(v, p):
    """The one value that v can have under p, or None."""
    if p.op != 'ite':
        return None
    for a in atoms_of(p):
        if a.op == 'eq' and v in a.a:
            e = a.a[1] if a.a[0] is v else a.a[0]
            if lvid(v) not in e.fv and eq(v, e).op == 'ite' and eq(v, e).a[0] is a and drop(p, a, False) is FALSE:
                return e
    return None


def nonpositive(n):
    return n.op != 'ite' and nonneg(negn(n))


def _negative(n):
    v = numval(n)
    return v is not None and v <= 0


def close_binder2(v, n, body):
    """Close body over v where n (the range) does not contain v."""
    h, binds, (b,) = close_binder([v], [body])
    return h, binds, (n, b)


def elem_of(body):
    t = None
    for l in leaves(body):
        if l is EMPTY:
            continue
        e = elemty(l)
        t = e if t is None else join_ty(t, e)
    return t or ANY


def open_seg(node, s):
    """(v, dom, body) of a comprehension segment (height taken from contents)."""
    if s[1] == 'range':
        h = 1 + s[3].h
        v = lv(('int', 0), 'i')
        return v, ('range', s[2]), substm(s[3], {bv(h, 0, v.ty): v})
    h = 1 + max(s[2].h, s[3].h)
    v = lv(s[5], 'x')
    m = {bv(h, 0, v.ty): v}
    return v, ('set', substm(s[2], m)), substm(s[3], m)


def rebuild_seg(s, go):
    if s[0] == 'one':
        return one(go(s[1]))
    if s[0] == 'spl':
        r = go(s[1])
        return r
    v, dom, body = open_seg(None, s)
    if dom[0] == 'range':
        return comp(v, ('range', go(dom[1])), go(body))
    return comp(v, ('set', go(dom[1])), go(body))


def length(t):
    return lift(_length, t)


def _length(t):
    if t.op == 'app' and t.a[0] == 'shallow':
        return length(t.a[1])
    if t.op == 'const' and t.a[0] == 'str':
        return num(len(t.a[1]))
    if t.op == 'bot':
        return ZERO
    if t.op == 'seq':
        r = ZERO
        for s in t.a:
            if s[0] == 'one':
                r = add(r, ONE)
            elif s[0] == 'spl':
                r = add(r, length(s[1]))
            else:
                v, dom, body = open_seg(t, s)
                r = add(r, SumD(v, dom, length(body)))
        return r
    if t.ty[0] == 'tup':
        return num(len(t.ty) - 1)
    if t.op == 'setc' or t.ty[0] == 'set':
        v = lv(elemty(t), 'x')
        return Sum([v], [], contains(t, v), ONE)
    if t.op == 'slice':
        s, lo, hi = t.a
        return sub(hi, lo)
    if t.op == 'app' and t.a[0] in ('list', 'lset', 'dset', 'setadd'):
        return length(t.a[1])
    if t.op == 'app' and t.a[0] == 'sorted':
        return length(t.a[1])
    if t.op == 'app' and t.a[0] in ('keys', 'values', 'items'):
        return length(t.a[1])
    if t.op == 'mapc':
        return length(keys_of(t))
    if t.ty[0] in ('dict', 'dataset', 'cm'):
        return length(keys_of(t))
    return mk('len', (t,), NAT)


def keys_of(d):
    def f(d):
        if d.op == 'app' and d.a[0] == 'shallow':
            return keys_of(d.a[1])
        if d.op == 'mapc':
            v, pres, _ = open_map(d)
            return mkset(v, pres)
        if d.op in ('bot', 'undef'):
            return d
        return mk('app', ('keys', d), ('set', elemty(d)))
    return lift(f, d)


# ---------------------------------------------------------------- mappings
def mkmap(v, pres, val):
    """{ v: val | pres }"""
    val = constrain(val, pres) if val.op == 'ite' else val
    if pres is FALSE:
        val = BOT
    # eta
    if pres.op == 'ite' and pres.a[1] is TRUE and pres.a[2] is FALSE and pres.a[0].op == 'in' and pres.a[0].a[0] is v:
        ks = pres.a[0].a[1]
        if ks.op == 'app' and ks.a[0] == 'keys' and val.op == 'at' and val.a[0] is ks.a[1] and val.a[1] is v and \
                lvid(v) not in ks.a[1].fv:
            return ks.a[1]
    h, binds, (p, b) = close_binder([v], [pres, val])
    vt = None
    for l in leaves(val):
        if l.op not in ('bot', 'undef'):
            vt = l.ty if vt is None else join_ty(vt, l.ty)
    return mkb('mapc', (v.ty, p, b), ('dict', v.ty, vt or ('none!',)), h, binds)


def emptymap(ty=ANY):
    return mkmap(lv(ty, 'x'), FALSE, BOT)


def open_map(m):
    v = lv(m.a[0], 'x')
    h = m.h
    q = {bv(h, 0, v.ty): v}
    return v, substm(m.a[1], q), substm(m.a[2], q)


def keyty(m, k):
    a = elemty(m)
    return k.ty if a == ANY or a == ('none!',) else (a if k.ty == ANY else join_ty(a, k.ty))


def shallow(m, site):
    """The mapping m itself, held by a second container (site: where that happened)."""
    def f(x):
        if x.op in ('bot', 'undef', 'const', 'num', 'seq') or x.ty[0] in ('str', 'seq', 'tup', 'int', 'num', 'bool', 'set'):
            return x
        if x.op == 'mapc':
            v, pres, val = open_map(x)
            if pres is FALSE:
                return x
        if x.op == 'app' and x.a[0] == 'shallow':
            return x
        return mk('app', ('shallow', x, site), x.ty)
    return lift(f, m)


def unshallow(m):
    return lift(lambda x: x.a[1] if x.op == 'app' and x.a[0] == 'shallow' else x, m)


def unshallow_all(m):
    def f(x):
        if x.op == 'app' and x.a[0] == 'shallow':
            return f(x.a[1])
        if x.op == 'mapc':
            v, pres, val = open_map(x)
            if any(y.op == 'app' and y.a[0] == 'shallow' for y in subterms(val)):
                return mkmap(v, pres, unshallow_all(val))
        return x
    return lift(f, m)


def strip_shallow(t):
    """t without the marks of containers that are shared."""
    while True:
        m = {}
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == 'shallow' and not any(y is not x and y.op == 'app' and y.a[0] == 'shallow' for y in subterms(x)):
                m[x] = x.a[1]
        if not m:
            return t
        t = substm(t, m)


def mapset(m, k, val):
    """m with key k bound to val."""
    v = lv(keyty(m, k), 'x')
    return lift(lambda m: mkmap(v, disj(eq(v, k), contains(m, v)), ite(eq(v, k), val, at(m, v))), m)


def mapdel(m, k):
    v = lv(keyty(m, k), 'x')
    return lift(lambda m: mkmap(v, conj(neg(eq(v, k)), contains(m, v)), at(m, v)), m)


def mapmerge(m, n):
    """m updated with n."""
    v = lv(keyty(m, lv(elemty(n), 'x')), 'x')
    return mkmap(v, disj(contains(n, v), contains(m, v)), ite(contains(n, v), at(n, v), at(m, v)))


def asmap(ents):
    """The mapping given by a sequence of (key, value) entries, later ones winning."""
    e = elemty(ents)
    kt = e[1] if e[0] == 'tup' else ANY
    if e[0] == 'seq':
        kt = ANY
    v = lv(STR if kt == ANY else kt, 'x')
    return mkmap(v, haskey(ents, v), dictget(ents, v))


def at(s, i):
    return lift(_at, s, i)


SPLITEXT, SPLIT, JOIN = const('os.path.splitext'), const('os.path.split'), const('os.path.join')


def _at(s, i):
    if s.op in ('bot', 'undef'):
        return s
    if s.op == 'mapc':
        v, pres, val = open_map(s)
        return subst(val, v, i)
    if s.op == 'app' and s.a[0] == 'shallow':
        return at(s.a[1], i)
    k = intval(i)
    if s.op == 'app' and s.a[0] == 'ext' and k is not None and len(s.a) == 3 and s.a[1] in (SPLITEXT, SPLIT) and -2 <= k < 2:
        k %= 2
        i = num(k)
        p = s.a[2]
        if k == 1 and p.op == 'app' and p.a[0] == 'ext' and p.a[1] is JOIN and len(p.a) > 2:
            # the last component alone decides
            return at(mk('app', s.a[:2] + (p.a[-1],), s.ty), i)
    if s.op == 'const' and s.a[0] == 'str' and k is not None:
        try:
            return const(s.a[1][k])
        except IndexError:
            return mk('undef', ('index',), ANY)
    if s.ty[0] == 'tup' and k is not None:
        n = len(s.ty) - 1
        if not -n <= k < n:
            return mk('undef', ('index',), ANY)
        return mk('at', (s, num(k % n)), s.ty[1 + k % n])
    if s.op == 'app' and s.a[0] == 'lset':
        if nonneg(i) and nonneg(s.a[2]) or (k is not None and intval(s.a[2]) is not None and k * intval(s.a[2]) > 0):
            return ite(eq(s.a[2], i), s.a[3], at(s.a[1], i))
    if s.op == 'slice':
        b, lo, hi = s.a
        if k is not None and k < 0:
            return at(b, add(hi, i))
        return at(b, add(lo, i))
    if s.op == 'seq':
        segs = s.a
        if k is not None:
            if k >= 0:
                j = 0
                for sg in segs:
                    if sg[0] != 'one':
                        break
                    if j == k:
                        return sg[1]
                    j += 1
                else:
                    return mk('undef', ('index',), ANY)
                if j == k and segs[j][0] == 'spl' and j == len(segs) - 1:
                    return at(segs[j][1], ZERO)
                if segs[j][0] == 'spl' and j == len(segs) - 1:
                    return at(segs[j][1], num(k - j))
            else:
                j = -1
                for sg in reversed(segs):
                    if sg[0] != 'one':
                        break
                    if j == k:
                        return sg[1]
                    j -= 1
        if len(segs) == 1 and segs[0][0] == 'comp' and segs[0][1] == 'range':
            v, dom, body = open_seg(s, segs[0])
            if all(l.op == 'seq' and len(l.a) == 1 and l.a[0][0] == 'one' for l in leaves(body)):
                idx = i
                if k is not None and k < 0:
                    idx = add(dom[1], i)
                e = lift(lambda l: l.a[0][1], body)
                return subst(e, v, idx)
        if len(segs) == 1 and segs[0][0] == 'comp' and segs[0][1] == 'set':
            # the i-th image is the image of the i-th member
            v, dom, body = open_seg(s, segs[0])
            if all(l.op == 'seq' and len(l.a) == 1 and l.a[0][0] == 'one' for l in leaves(body)):
                e = lift(lambda l: l.a[0][1], body)
                base = comp(v, dom, one(v))
                if e is not v and base.op == 'seq' and len(base.a) == 1 and base.a[0][0] == 'comp':
                    return subst(e, v, mk('at', (base, i), elemty(base)) if k is None or k >= 0 else at(base, i))
        if k is not None and k < 0:
            return mk('at', (s, add(length(s), i)), elemty(s)) if length(s).op != 'ite' else \
                at(s, add(length(s), i))
        return mk('at', (s, i), elemty(s))
    if k is not None and k < 0 and s.ty[0] not in ('dict', 'dataset', 'cm'):
        return at(s, add(length(s), i))
    if s.op == 'app' and s.a[0] == 'json' and i.op == 'const' and i.a[1] == 'items':
        return mk('at', (s, i), ITEMS_TY)
    return mk('at', (s, i), valty(s))


# what a data file holds under 'items': item -> coder -> masses
ITEMS_TY = ('dict', STR, ('dict', STR, ('seq', ('int', 1))))


def slice_(s, lo, hi):
    """s[lo:hi] with 0 <= lo <= hi <= len(s) known to the caller."""
    return lift(_slice, s, lo, hi)


def _slice(s, lo, hi):
    n = intval(sub(hi, lo))
    if n is not None and 0 <= n <= 4:
        return concat([one(at(s, add(lo, num(i)))) for i in range(n)])
    if n is not None and n < 0:
        # outside what the caller knows: kept apart from the empty sequence
        return mk('slice', (s, lo, hi), s.ty)
    if lo is ZERO and hi is length(s):
        return s
    if s.op == 'slice':
        return mk('slice', (s.a[0], add(s.a[1], lo), add(s.a[1], hi)), s.ty)
    e = ones(s)
    if e is not None and intval(lo) is not None and intval(hi) is not None:
        return concat([one(x) for x in e[intval(lo):intval(hi)]])
    if s.op == 'seq' and intval(lo) is not None and hi is length(s):
        segs = list(s.a)
        k = intval(lo)
        while k and segs and segs[0][0] == 'one':
            segs.pop(0)
            k -= 1
        if k == 0:
            return mkseq(segs)
    return mk('slice', (s, lo, hi), s.ty)


# ---------------------------------------------------------------- sets
def mkset(v, pred):
    """{ v | pred }"""
    outer = [a for a in atoms_of(pred) if lvid(v) not in a.fv]
    if outer:
        a = min(outer, key=order)
        return ite(atomise(a), mkset(v, drop(pred, a, True)), mkset(v, drop(pred, a, False)))
    # eta
    if pred.op == 'ite' and pred.a[1] is TRUE and pred.a[2] is FALSE and pred.a[0].op == 'in' and \
            pred.a[0].a[0] is v and lvid(v) not in pred.a[0].a[1].fv:
        return pred.a[0].a[1]
    if pred is FALSE and v.ty != ANY:
        return emptyset()
    if v.ty[0] == 'int' and v.ty[1] is not None and pred.op == 'ite' and len(atoms_of(pred)) <= 8:
        # a literal set of integers: the same whatever bound the variable carried
        ats = atoms_of(pred)
        if all(a.op == 'eqp' and a.a[0] is v for a in ats):
            vals = []
            rest = pred
            while rest.op == 'ite' and rest.a[1] is TRUE:
                vals.append(rest.a[0].a[1])
                rest = rest.a[2]
            if rest is FALSE:
                w = lv(('int', None), 'x')
                return mkset(w, disj(*[eq(w, num(Fraction(*x))) for x in vals]))
    h, binds, (b,) = close_binder([v], [pred])
    return mkb('setc', ('set', v.ty, b), ('set', v.ty), h, binds)


def emptyset():
    v = lv(ANY, 'x')
    return mkset(v, FALSE)


def setlit(es):
    if not es:
        return emptyset()
    ty = es[0].ty
    for e in es[1:]:
        ty = join_ty(ty, e.ty)
    v = lv(loosen(ty), 'x')
    return mkset(v, disj(*[eq(v, e) for e in es]))


def loosen(ty):
    return ty


def contains(s, x):
    """x in s"""
    return lift(_contains, s, x)


def _contains(s, x):
    if s.op == 'setc':
        v = lv(s.a[1], 'x')
        b = subst_bv(s, s.a[2], v)
        return subst(b, v, x)
    if s.op in ('bot', 'undef'):
        return FALSE
    if s.op == 'seq':
        r = FALSE
        for sg in s.a:
            if sg[0] == 'one':
                r = disj(r, eq(sg[1], x))
            elif sg[0] == 'spl':
                r = disj(r, contains(sg[1], x))
            else:
                v, dom, body = open_seg(s, sg)
                r = disj(r, exists(v, dom, contains(body, x)))
        return r
    if s.op == 'app' and s.a[0] in ('list', 'sorted', 'tuple'):
        return contains(s.a[1], x)
    if s.op == 'cmrow' and s.a[0].op != 'ref':
        # an entry of a row is there only where the row is
        return conj(contains(s.a[0], s.a[1]), atomise(mk('in', (x, mk('app', ('cmkeys', s.a[0], s.a[1]), ('set', ANY))), BOOL)))
    if s.ty[0] in ('dict', 'dataset', 'cm'):
        return contains(keys_of(s), x)
    if s.op == 'const' and s.a[0] == 'str' and x.op == 'const' and x.a[0] == 'str':
        return TRUE if x.a[1] in s.a[1] else FALSE
    return atomise(mk('in', (x, s), BOOL))


def set_op(f, a, b):
    def g(x, y):
        ty = join_ty(elemty(x), elemty(y)) if x is not y else elemty(x)
        if x.op == 'setc' and x.a[2] is FALSE:
            ty = elemty(y)
        if y.op == 'setc' and y.a[2] is FALSE:
            ty = elemty(x)
        v = lv(ty, 'x')
        return mkset(v, f(contains(x, v), contains(y, v)))
    return lift(g, a, b)


def union(a, b):
    return set_op(lambda p, q: disj(p, q), a, b)


def inter(a, b):
    return set_op(lambda p, q: conj(p, q), a, b)


def diff(a, b):
    return set_op(lambda p, q: conj(p, neg(q)), a, b)


def symdiff(a, b):
    return set_op(lambda p, q: ite(p, neg(q), q), a, b)


def to_set(t):
    """set(iterable)"""
    def f(x):
        if x.ty[0] == 'set':
            return x
        if x.op == 'app' and x.a[0] in ('list', 'sorted') and x.a[1].ty[0] == 'set':
            return x.a[1]
        v = lv(elemty(x), 'x')
        if x.op == 'seq':
            return mkset(v, contains(x, v))
        if x.ty[0] in ('dict', 'dataset', 'cm'):
            return keys_of(x)
        if x.ty[0] in ('seq', 'str', 'any'):
            i = lv(('int', 0), 'i')
            return mkset(v, exists(i, ('range', length(x)), eq(at(x, i), v)))
        return opaque('toset', (x,), ('set', ANY))
    return lift(f, t)


def exists(v, dom, pred):
    return neg(eq(SumD(v, dom, ite(pred, ONE, ZERO)), ZERO))


# ---------------------------------------------------------------- sums
def SumD(v, dom, body):
    if dom[0] == 'range':
        return Sum([v], range_cons(v, dom[1]), TRUE, body)
    return Sum([v], [], dom[1], body)


def range_cons(v, n):
    """Linear constraints c <= 0 for 0 <= v < n."""
    return [negn(v), add(sub(v, n), ONE)]


def Sum(vs, cons, guard, body):
    """Sum over vs with constraints (terms <= 0), guard BDD, of body."""
    ids = set(lvid(v) for v in vs)
    for i, c in enumerate(cons):
        if c.op == 'ite':
            a = c.a[0]
            if ids & a.fv:
                # condition on the bound variable inside a bound: give up
                return opaque('sum-bound', tuple(cons) + (guard, body), NUM)
            return ite(atomise(a), Sum(vs, [assume(x, a, True) for x in cons], assume(guard, a, True), assume(body, a, True)),
                       Sum(vs, [assume(x, a, False) for x in cons], assume(guard, a, False), assume(body, a, False)))
    g = ite(guard, body, ZERO) if guard is not TRUE else body
    return _Sum(vs, cons, g, ids)


def _Sum(vs, cons, g, ids):
    outer = [a for a in atoms_of(g) if not (ids & a.fv)]
    if outer:
        a = min(outer, key=order)
        return ite(atomise(a), _Sum(vs, cons, drop(assume(g, a, True), a, True), ids),
                   _Sum(vs, cons, drop(assume(g, a, False), a, False), ids))
    if any(l.op in ('undef',) or (l.ty[0] not in ('int', 'num', 'bool', 'any') and l.op != 'bot') for l in leaves(g)):
        return opaque('sum-body', tuple(cons) + (close_opaque(vs, g),), NUM)
    # linear literals that must hold become constraints
    changed = True
    while changed:
        changed = False
        for a in atoms_of(g):
            if a.op == 'le' and a.a[0].ty[0] == 'int' and linear(to_poly(a.a[0])):
                c = num(Fraction(*a.a[1]))
                h1, h0 = drop(g, a, True), drop(g, a, False)
                if h0 is ZERO or h0 is FALSE:
                    cons = cons + [sub(a.a[0], c)]
                    g = h1
                    changed = True
                    break
                if h1 is ZERO or h1 is FALSE:
                    cons = cons + [add(sub(c, a.a[0]), ONE)]
                    g = h0
                    changed = True
                    break
    # drop atoms decided by the constraints
    g = decide(g, cons)
    if g.op == 'ite' and any(not (ids & a.fv) for a in atoms_of(g)):
        return _Sum(vs, cons, g, ids)
    ml = multilinear(g)
    total = ZERO
    for ats, p in ml.items():
        for m, k in to_poly(p).items():
            outm = tuple((x, e) for x, e in m if not (ids & x.fv))
            inm = tuple((x, e) for x, e in m if ids & x.fv)
            s = sumatom(list(vs), list(cons), list(ats), inm)
            total = add(total, mul(from_poly({outm: k}), s))
    return total


def close_opaque(vs, g):
    m = {v: mk('var', ('_o%d' % i, v.ty), v.ty) for i, v in enumerate(vs)}
    return substm(g, m)


def natom(a):
    """The negation of an emptiness test, used as a positive basis element of
    a sum (so that counting the members of a union stays a finite sum)."""
    return mk('natom', (a,), BOOL)


def emptiness(a):
    return a.op == 'eqp' and a.a[1] == (0, 1) and a.a[0].ty[0] == 'int' and nonneg(a.a[0])


def lit(a):
    return neg(atomise(a.a[0])) if a.op == 'natom' else atomise(a)


def multilinear(t):
    """{frozenset(atoms): poly term} with t = sum prod [atoms] * poly."""
    m = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if x.op != 'ite':
            r = {} if (x is ZERO or x is FALSE or x.op == 'bot') else {frozenset(): x if x is not TRUE else ONE}
        else:
            h, l = go(x.a[1]), go(x.a[2])
            s = frozenset([x.a[0]])
            if emptiness(x.a[0]):
                h, l = l, h
                s = frozenset([natom(x.a[0])])
            r = dict(l)
            d = dict(h)
            for k, v in l.items():
                d[k] = sub(d.get(k, ZERO), v)
            for k, v in d.items():
                if v is ZERO:
                    continue
                kk = k | s
                if inconsistent(kk):
                    continue
                r[kk] = add(r.get(kk, ZERO), v)
            r = {k: v for k, v in r.items() if v is not ZERO}
            if len(r) > 400:
                raise TooBig('guard')
        m[x] = r
        return r
    return go(t)


def inconsistent(ats):
    ats = list(ats)
    for i, a in enumerate(ats):
        for b in ats[i + 1:]:
            if implied(a, True, b) is False or implied(b, True, a) is False:
                return True
    return False


def bound_prove(p, cons, ids_order, depth=0):
    """Prove p <= 0 (p a plain int/num term) from constraints c<=0 and types."""
    if p.op == 'ite':
        return False
    d = to_poly(p)
    if not linear(d):
        if all(k <= 0 for k in d.values()) and nonneg(negn(p)):
            return True
        return False
    if nonneg(negn(p)):
        return True
    # lower bounds of the types: replace -k*x by -k*lower(x)
    s = Fraction(0)
    ok = True
    for m, k in d.items():
        if m == ():
            s += k
        elif k < 0:
            l = lower(m[0][0])
            if l is None:
                ok = False
                break
            s += k * l
        else:
            ok = False
            break
    if ok and s <= 0:
        return True
    if depth >= 4:
        return False
    # eliminate a positive-coefficient atom with a constraint that bounds it above,
    # or a negative-coefficient atom with one that bounds it below
    for m, k in sorted(d.items(), key=lambda z: mono_key(z[0])):
        if m == ():
            continue
        x = m[0][0]
        for c in cons:
            dc = to_poly(c)
            kc = dc.get(((x, 1),), 0)
            if kc and (kc > 0) == (k > 0):
                q = sub(p, mul(num(k / kc), c))
                if bound_prove(q, [y for y in cons if y is not c], None, depth + 1):
                    return True
    return False


def decide(g, cons):
    """Remove atoms of g that the constraints decide."""
    if not cons:
        return g
    for a in atoms_of(g):
        if a.op == 'le' or (a.op == 'lt'):
            c = num(Fraction(*a.a[1]))
            p = a.a[0]
            d = sub(p, c)
            if a.op == 'le' and bound_prove(d, cons, None):
                g = drop(g, a, True)
            elif a.a[0].ty[0] == 'int' and a.op == 'le' and bound_prove(add(negn(d), ONE), cons, None):
                g = drop(g, a, False)
        elif a.op == 'eqp' and a.a[0].ty[0] == 'int':
            c = num(Fraction(*a.a[1]))
            d = sub(a.a[0], c)
            if bound_prove(add(d, ONE), cons, None) or bound_prove(add(negn(d), ONE), cons, None):
                g = drop(g, a, False)
    return g


def bounded(t, v, n):
    """Simplify a body under 0 <= v < n."""
    if n.op == 'ite':
        return t
    return decide(t, range_cons(v, n))


def sumatom(vs, cons, ats, mono):
    """Canonical sum over vs of prod[ats]*mono, all depending on vs."""
    body = from_poly({mono: Fraction(1)})
    ids = {lvid(v): v for v in vs}
    # merge nested sums
    for x, e in mono:
        if x.op == 'sum' and e == 1 and (set(ids) & x.fv):
            v2, c2, a2, b2 = open_sum_g(x)
            rest = from_poly({tuple((y, f) for y, f in mono if y is not x): Fraction(1)})
            g = TRUE
            for a in ats:
                g = conj(g, lit(a))
            for a in a2:
                g = conj(g, a)
            return Sum(vs + v2, cons + c2, g, mul(rest, b2))
    # one-point rule
    for a in ats:
        for v in vs:
            if lvid(v) not in a.fv:
                continue
            rep = None
            if a.op == 'eq':
                x, y = a.a
                if x is v and lvid(v) not in y.fv:
                    rep = y
                elif y is v and lvid(v) not in x.fv:
                    rep = x
            elif a.op == 'eqp':
                p = to_poly(a.a[0])
                k = p.get(((v, 1),))
                if k and abs(k) == 1 and sum(1 for m in p for x, e in m if lvid(v) in x.fv) == 1:
                    rest = {m: -kk / k for m, kk in p.items() if m != ((v, 1),)}
                    rest[()] = rest.get((), Fraction(0)) + Fraction(*a.a[1]) / k
                    rep = from_poly(rest)
            if rep is None:
                continue
            g = TRUE
            for b in ats:
                if b is not a:
                    g = conj(g, subst(lit(b), v, rep))
            rest_vs = [w for w in vs if w is not v]
            newcons = [subst(c, v, rep) for c in cons]
            for c in newcons:
                g = conj(g, le(c, ZERO))
            b2 = subst(body, v, rep)
            if not rest_vs:
                return ite(g, b2, ZERO)
            return Sum(rest_vs, [c for c in newcons if any(set(lvid(w) for w in rest_vs) & c.fv for _ in (0,))], g, b2)
    # the lengths of the runs of a sequence add up to its length
    if len(vs) == 1 and not ats and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'len':
        x = mono[0][0].a[0]
        if x.op == 'at' and x.a[1] is vs[0] and x.a[0].op == 'app' and x.a[0].a[0] == 'groups' and \
                lvid(vs[0]) not in x.a[0].fv and list(cons) == range_cons(vs[0], length(x.a[0])):
            return length(x.a[0].a[1])
        # a string is its parts and what separates them
        if x.op == 'at' and x.a[1] is vs[0] and x.a[0].op == 'app' and x.a[0].a[0] == 'split' and len(x.a[0].a) == 3 and \
                lvid(vs[0]) not in x.a[0].fv and isconst(x.a[0].a[2]) and x.a[0].a[2].ty == STR and x.a[0].a[2].a[1] and \
                range_cons(vs[0], length(x.a[0]))[1] in cons and all(c in range_cons(vs[0], length(x.a[0])) for c in cons):
            return sub(length(x.a[0].a[1]), mul(num(len(x.a[0].a[2].a[1])), sub(length(x.a[0]), ONE)))
    # running over the members of a set in some order
    for v in vs:
        if v.ty[0] != 'int':
            continue
        i = lvid(v)
        mine = [c for c in cons if i in c.fv]
        L = None
        for t in [lit(a) for a in ats] + [body]:
            if i in t.fv:
                for x in subterms(t):
                    if x.op == 'at' and x.a[1] is v and x.a[0].op == 'app' and x.a[0].a[0] in ('sorted', 'list') and x.a[0].a[1].ty[0] == 'set':
                        L = x.a[0]
        if L is None or i in L.fv or v.ty[1] is None or v.ty[1] < 0:
            continue
        low, up = range_cons(v, length(L))
        if up not in mine or any(c is not up and c is not low for c in mine):
            continue
        w = lv(elemty(L), 'x')
        e = at(L, v)
        g = contains(L.a[1], w)
        for a in ats:
            g = conj(g, subst(lit(a), e, w))
        b2 = subst(body, e, w)
        if i in g.fv or i in b2.fv:
            continue
        return Sum([x for x in vs if x is not v] + [w], [c for c in cons if c not in mine], g, b2)
    # independent components
    comps = components(vs, cons, ats, mono)
    if len(comps) > 1:
        r = ONE
        for cv, cc, ca, cm in comps:
            r = mul(r, sumatom(cv, cc, ca, cm))
        return r
    # a constraint that an equality reduces to one on outer variables
    for a in ats:
        if a.op != 'eqp':
            continue
        e = sub(a.a[0], num(Fraction(*a.a[1])))
        for c in cons:
            if not (set(ids) & c.fv):
                continue
            for c2 in (add(c, e), sub(c, e)):
                if not (set(ids) & c2.fv):
                    return ite(le(c2, ZERO), sumatom(vs, [x for x in cons if x is not c], ats, mono), ZERO)
    # constant constraints
    keep = []
    for c in cons:
        v = numval(c)
        if v is not None:
            if v > 0:
                return ZERO
            continue
        keep.append(c)
    free = [c for c in keep if not (set(ids) & c.fv)]
    if free:
        g = TRUE
        for c in free:
            g = conj(g, le(c, ZERO))
        return ite(g, sumatom(vs, [c for c in keep if c not in free], ats, mono), ZERO)
    cons = keep
    # redundancy elimination (canonical order)
    cons = sorted(set(cons), key=lambda c: c.key)
    cons = prune(cons)
    # shift lower bounds to zero
    best = None
    for perm in permutations(vs) if len(vs) <= 3 else orderings(vs, cons, ats, body):
        cand = shift(list(perm), cons, ats, body)
        if cand is None:
            continue
        cv, cc, ca, cb = cand
        node = closesum(cv, cc, ca, cb)
        if isinstance(node, tuple):
            node = node[0]
            return node
        if best is None or node.key < best.key:
            best = node
    return best


def orderings(vs, cons, ats, body):
    """Orders of the variables that do not depend on their names: by the role each plays, all orders of equals."""
    terms = list(cons) + [lit(a) for a in ats]
    cls = {v: 0 for v in vs}
    for _ in range(3):
        sig = {}
        for v in vs:
            m = {w: var('$c%d' % cls[w], w.ty) for w in vs}
            m[v] = var('$me', v.ty)
            sig[v] = (cls[v], repr(v.ty), sorted(substm(t, m).key for t in terms), substm(body, m).key)
        ranks = sorted(set(map(repr, sig.values())))
        new = {v: ranks.index(repr(sig[v])) for v in vs}
        if len(set(new.values())) == len(set(cls.values())) and _:
            break
        cls = new
    groups = [[v for v in vs if cls[v] == c] for c in sorted(set(cls.values()))]
    out = [()]
    for g in groups:
        if len(out) * len(g) > 24 or len(g) > 4:
            out = [o + tuple(g) for o in out]
        else:
            out = [o + p for o in out for p in permutations(g)]
    return out[:48]


def prune(cons):
    cons = list(cons)
    i = 0
    while i < len(cons):
        rest = cons[:i] + cons[i + 1:]
        if bound_prove(cons[i], rest, None):
            cons = rest
        else:
            i += 1
    return cons


def shift(vs, cons, ats, body):
    m = {}
    for v in vs:
        if v.ty[0] != 'int':
            continue
        lows = []
        for c in cons:
            k = to_poly(c).get(((v, 1),), 0)
            if k == -1:
                rest = add(c, v)      # c = -v + rest <= 0  -> v >= rest
                if v not in subterms(rest):
                    lows.append(rest)
        if len(lows) == 1 and lows[0] is not ZERO:
            r = add(v, lows[0])
            cons = [subst(c, v, r) for c in cons]
            g = TRUE
            newats = []
            for a in ats:
                b = subst(lit(a), v, r)
                if b is TRUE:
                    continue
                if b.op == 'ite' and b.a[1] is FALSE and b.a[2] is TRUE and emptiness(b.a[0]):
                    newats.append(natom(b.a[0]))
                    continue
                if b.op == 'ite' and b.a[1] is TRUE and b.a[2] is FALSE:
                    newats.append(b.a[0])
                else:
                    return vs, cons, ats + ['bad'], body
            ats = newats
            body = subst(body, v, r)
    cons = prune(sorted(set(cons), key=lambda c: c.key))
    return vs, cons, ats, body


def closesum(vs, cons, ats, body):
    if 'bad' in ats:
        return (opaque('sum-shift', tuple(close_opaque(vs, c) for c in cons) + (close_opaque(vs, body),), NUM),)
    for c in cons:
        l = lower(c)
        if l is not None and l > 0:
            return (ZERO,)
    # plain count of one range
    if len(vs) == 1 and not ats and body is ONE and vs[0].ty[0] == 'int' and len(cons) == 1:
        v = vs[0]
        ups = [add(negn(c), v) for c in cons if to_poly(c).get(((v, 1),), 0) == 1]
        if len(ups) == 1:
            n = add(ups[0], ONE)          # v <= up  -> count up+1
            return (ite(le(n, ZERO), ZERO, n),)
    if not cons and not ats and vs[0].ty[0] == 'int':
        return (opaque('sum-unbounded', (close_opaque(vs, body),), NUM),)
    n_c, n_a = len(cons), len(ats)
    terms = list(cons) + [lit(a) for a in ats] + [body]
    h, binds, out = close_binder(vs, terms)
    c2 = sorted(out[:n_c], key=lambda c: c.key)
    a2 = sorted(set(equalities(out[n_c:n_c + n_a])), key=lambda c: c.key)
    b2 = out[-1]
    ty = ('int', 0 if (lower(b2) if b2.op != 'poly' else b2.ty[1] if isint(b2) else None) is not None and
          ((b2.ty[1] or 0) >= 0 if b2.ty[0] == 'int' else True) else None) if isint(b2) else \
        NUM
    if b2 is ONE:
        ty = NAT
    return mkb('sum', (tuple(v.ty for v in vs), tuple(c2), tuple(a2), b2), ty, h, binds)


def equalities(lits):
    """Chains of equalities, each compared with the least member."""
    cls = {}
    rest, es = [], []
    for l in lits:
        a = l.a[0] if l.op == 'ite' and l.a[1] is TRUE and l.a[2] is FALSE else None
        if a is None or a.op != 'eq':
            rest.append(l)
            continue
        es.append(l)
        x, y = cls.get(a.a[0], {a.a[0]}), cls.get(a.a[1], {a.a[1]})
        z = x | y
        for e in z:
            cls[e] = z
    if len(es) < 2 or all(len(z) == 2 for z in cls.values()):
        return lits
    done = set()
    for e in cls:
        z = cls[e]
        if e in done:
            continue
        done |= z
        r = min(z, key=lambda t: t.key)
        for o in z:
            if o is not r:
                l = eq(r, o)
                if not (l.op == 'ite' and l.a[0].op == 'eq' and l.a[1] is TRUE and l.a[2] is FALSE):
                    return lits
                rest.append(l)
    return rest


def open_sum(u):
    vs = [lv(t, 's') for t in u.a[0]]
    h = u.h
    m = {bv(h, i, v.ty): v for i, v in enumerate(vs)}
    cons = [substm(c, m) for c in u.a[1]]
    ats = []
    for a in u.a[2]:
        b = substm(a, m)
        if b.op == 'ite' and b.a[1] is TRUE and b.a[2] is FALSE:
            ats.append(b.a[0])
        elif b.op == 'ite' and b.a[1] is FALSE and b.a[2] is TRUE and emptiness(b.a[0]):
            ats.append(natom(b.a[0]))
        elif b is TRUE:
            pass
        else:
            raise TooBig('sum atom changed shape')
    return vs, cons, ats, substm(u.a[3], m)


def open_sum_g(u):
    """Like open_sum, with the guards as boolean diagrams."""
    vs = [lv(t, 's') for t in u.a[0]]
    h = u.h
    m = {bv(h, i, v.ty): v for i, v in enumerate(vs)}
    return vs, [substm(c, m) for c in u.a[1]], [substm(a, m) for a in u.a[2]], substm(u.a[3], m)


def components(vs, cons, ats, mono):
    groups = [[v] for v in vs]
    ids = [set([lvid(v)]) for v in vs]
    items = [('c', c) for c in cons] + [('a', a) for a in ats] + [('m', xe) for xe in mono]

    def fvof(it):
        return it[1][0].fv if it[0] == 'm' else it[1].fv
    allids = set().union(*ids)
    for it in items:
        f = fvof(it) & allids
        hit = [i for i, s in enumerate(ids) if s & f]
        if len(hit) > 1:
            b = hit[0]
            for i in reversed(hit[1:]):
                groups[b] += groups[i]
                ids[b] |= ids[i]
                del groups[i]
                del ids[i]
    out = []
    for g, s in zip(groups, ids):
        out.append((g, [c for c in cons if c.fv & s], [a for a in ats if a.fv & s],
                    tuple(xe for xe in mono if xe[0].fv & s)))
    if len(out) > 1:
        loose = [c for c in cons if not (c.fv & allids)]
        out[0] = (out[0][0], out[0][1] + loose, out[0][2], out[0][3])
    return out


# ---------------------------------------------------------------- printing
_names = {}


def show(t, depth=0, top=True):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t)
    if depth > 14:
        return '...'
    d = depth + 1
    op = t.op
    if op == 'const':
        return repr(t.a[1])
    if op == 'num':
        return str(Fraction(*t.a))
    if op == 'var':
        return str(t.a[0])
    if op == 'lv':
        return '%s_%d' % (t.a[1], t.a[0])
    if op == 'bv':
        return 'v%d%s' % (t.a[0], '' if t.a[1] == 0 else chr(96 + t.a[1]))
    if op == 'ite':
        if t.a[1] is TRUE and t.a[2] is FALSE:
            return '[%s]' % show(t.a[0], d)
        if t.a[1] is FALSE and t.a[2] is TRUE:
            return 'not[%s]' % show(t.a[0], d)
        return 'if(%s; %s; %s)' % (show(t.a[0], d), show(t.a[1], d), show(t.a[2], d))
    if op in ('le', 'lt', 'eqp'):
        return '%s %s %s' % (show(t.a[0], d), {'le': '<=', 'lt': '<', 'eqp': '=='}[op], Fraction(*t.a[1]))
    if op == 'eq':
        return '%s == %s' % (show(t.a[0], d), show(t.a[1], d))
    if op == 'in':
        return '%s in %s' % (show(t.a[0], d), show(t.a[1], d))
    if op == 'poly':
        out = []
        for m, k in t.a:
            k = Fraction(*k)
            ms = '*'.join(show(x, d) + ('' if e == 1 else '^%d' % e) for x, e in m)
            if not ms:
                out.append(str(k))
            elif k == 1:
                out.append(ms)
            elif k == -1:
                out.append('-' + ms)
            else:
                out.append('%s*%s' % (k, ms))
        return '(' + ' + '.join(out) + ')'
    if op == 'pp':
        return show(t.a[0], d)
    if op == 'sel':
        return '<%s>' % show(t.a[0], d)
    if op == 'sum':
        return 'SUM{%s%s}(%s)' % (
            ', '.join(show(c, d) + '<=0' for c in t.a[1]),
            (' | ' + ' & '.join(show(a, d) for a in t.a[2])) if t.a[2] else '', show(t.a[3], d))
    if op == 'at':
        return '%s[%s]' % (show(t.a[0], d), show(t.a[1], d))
    if op == 'len':
        return 'len(%s)' % show(t.a[0], d)
    if op == 'slice':
        return '%s[%s:%s]' % (show(t.a[0], d), show(t.a[1], d), show(t.a[2], d))
    if op == 'seq':
        out = []
        for s in t.a:
            if s[0] == 'one':
                out.append(show(s[1], d))
            elif s[0] == 'spl':
                out.append('*' + show(s[1], d))
            elif s[1] == 'range':
                out.append('for v%d<%s: %s' % (s[3].h + 1, show(s[2], d), show(s[3], d)))
            else:
                out.append('for v%d|%s: %s' % (1 + max(s[2].h, s[3].h), show(s[2], d), show(s[3], d)))
        return '[' + '; '.join(out) + ']'
    if op == 'setc':
        return '{v%d | %s}' % (t.h, show(t.a[2], d))
    if op == 'mapc':
        return '{v%d: %s | %s}' % (t.h, show(t.a[2], d), show(t.a[1], d))
    if op == 'app':
        return '%s(%s)' % (t.a[0], ', '.join(show(x, d) for x in t.a[1:]))
    if op == 'fold':
        return '%s.%d' % (show(t.a[0], d), t.a[1])
    if op == 'foldv':
        return 'FOLD{%s | %s; %s}(%s => %s)' % (', '.join(show(x, d) for x in t.a[4]), show(t.a[5], d), '', ', '.join(show(x, d) for x in t.a[6]),
                                             ', '.join(show(x, d) for x in t.a[7]))
    if op == 'opq':
        return '?%s(%s)' % (t.a[0], ', '.join(show(x, d) for x in t.a[1:]))
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in t.a))
