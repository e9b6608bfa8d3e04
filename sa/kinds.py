"""Kinds: which python classes a value may have (numbers are exact in terms;
the kind remembers whether the value is an int, a Decimal or a float)."""


class K(object):
    __slots__ = ('b', 'e', 'items', 'nt')

    def __init__(self, b, e=None, items=None, nt=None):
        self.b = frozenset([b]) if isinstance(b, str) else frozenset(b)
        self.e = e
        self.items = items
        self.nt = nt

    def __eq__(self, o):
        return self is o or (isinstance(o, K) and self.b == o.b and self.e == o.e and
                             self.items == o.items and self.nt == o.nt)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.b, self.nt))

    def __repr__(self):
        s = '|'.join(sorted(self.b))
        if self.items is not None:
            s += '(%s)' % ', '.join(map(repr, self.items))
        elif self.e is not None:
            s += '<%r>' % (self.e,)
        return s


def k(b, e=None):
    return K(b, e)


ANYK = K('any')
INTK = K('int')
BOOLK = K('bool')
DECK = K('dec')
FLOATK = K('float')
STRK = K('str')
NONEK = K('none')
NUMK = K('num')
FNK = K('fn')
BOTK = K([])


def join(a, b, depth=0):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if a == b:
        return a
    if depth > 6:
        return ANYK
    if not a.b:
        return b
    if not b.b:
        return a
    items = None
    if a.items is not None and b.items is not None and len(a.items) == len(b.items):
        items = tuple(join(x, y, depth + 1) for x, y in zip(a.items, b.items))
    return K(a.b | b.b, join(elem(a, None), elem(b, None), depth + 1), items,
             a.nt if a.nt == b.nt else None)


def elem(a, default=ANYK):
    if a.items is not None:
        r = None
        for x in a.items:
            r = join(r, x)
        return r if r is not None else default
    if a.e is not None:
        return a.e
    return default


def of_ty(ty):
    n = ty[0]
    if n == 'int':
        return INTK
    if n == 'num':
        return NUMK
    if n == 'bool':
        return BOOLK
    if n == 'str':
        return STRK
    if n == 'none':
        return NONEK
    if n == 'seq':
        return K('tuple', of_ty(ty[1]))
    if n == 'set':
        return K('frozenset', of_ty(ty[1]))
    if n == 'dict':
        return K('dict', of_ty(ty[2]) if len(ty) > 2 else ANYK)
    if n == 'dataset':
        return K('Dataset', of_ty(ty[2]) if len(ty) > 2 else ANYK)
    if n == 'cm':
        return K('ConfusionMatrix', INTK)
    if n == 'fn':
        return FNK
    return ANYK


NUMS = frozenset(['int', 'bool', 'dec', 'float', 'num'])


def arith(op, a, b):
    """(result kind, problems)"""
    out = set()
    prob = set()
    for x in a.b:
        for y in b.b:
            x2 = 'int' if x == 'bool' else x
            y2 = 'int' if y == 'bool' else y
            if x2 == 'any' or y2 == 'any' or x2 not in NUMS or y2 not in NUMS:
                out.add('any')
            elif 'num' in (x2, y2):
                o = y2 if x2 == 'num' else x2
                out.add('float' if o == 'float' else 'dec' if o == 'dec' else 'num')
            elif x2 == y2:
                if op == 'div' and x2 == 'int':
                    out.add('float')
                else:
                    out.add(x2)
            elif set((x2, y2)) == set(('dec', 'int')):
                out.add('dec')
            elif set((x2, y2)) == set(('float', 'int')):
                out.add('float')
            else:
                prob.add('decimal-float')
                out.add('dec')
    return K(out), prob
