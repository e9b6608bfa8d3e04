"""Abstract interpreter: source -> value terms.

Joins at every merge point, summarises every loop once (no unrolling over
input sizes, no path enumeration), inlines calls, and records effects
(mutations of objects the caller or a module owns, divisions, identity tests,
ambient reads).  Constructs outside the supported fragment yield opaque terms
or mark the run as incomplete; rules never report from those.
"""
import ast
from fractions import Fraction

from . import terms as tm
from .terms import (T, mk, const, num, var, lv, app, opaque, ite, conj, disj, neg, eq, lt, le, add, sub, mul,
                    div, at, length, concat, one, comp, contains, truth, mkset, union, inter, diff, symdiff,
                    to_set, setlit, Sum, SumD, range_cons, TRUE, FALSE, NONE_T, ZERO, ONE, EMPTY, BOT, ANY,
                    INT, NAT, NUM, BOOL, STR, show, lift, leaves, atoms_of, assume, drop, constrain, substm,
                    subst, subterms, atomise, TooBig, intval, numval, ones, minmax, absn, power)
from . import kinds as kd
from .kinds import K, ANYK, INTK, BOOLK, DECK, FLOATK, STRK, NONEK, NUMK, FNK


class V(object):
    """Abstract value: term, kind, and (p) the place it was read from:
    (ref of the enclosing heap container, keys)."""
    __slots__ = ('t', 'k', 'p')

    def __init__(self, t, k=None, p=None):
        self.p = p
        self.t = t
        self.k = k if k is not None else kd.of_ty(t.ty)

    def __repr__(self):
        return 'V(%s : %r)' % (show(self.t), self.k)


NONEV = V(NONE_T, NONEK)
BOTV = V(BOT, kd.BOTK)


class Cell(object):
    """One heap object (immutable record, replaced on update)."""
    __slots__ = ('kind', 't', 'k', 'd', 'owner', 'cls', 'born')

    def __init__(self, kind, t=None, k=None, d=None, owner=None, cls=None):
        self.kind = kind
        self.t = t
        self.k = k
        self.d = d
        self.owner = owner
        self.cls = cls

    def but(self, **kw):
        c = Cell(self.kind, self.t, self.k, self.d, self.owner, self.cls)
        for n, v in kw.items():
            setattr(c, n, v)
        return c


class Exit(object):
    __slots__ = ('kind', 'cond', 'v', 'snap', 'node')

    def __init__(self, kind, cond, v, snap, node=None):
        self.kind, self.cond, self.v, self.snap, self.node = kind, cond, v, snap, node


class State(object):
    # live: condition to be here, relative to the enclosing call / loop body;
    # known: conditions established outside it; cons: linear facts p <= 0
    __slots__ = ('frames', 'heap', 'live', 'exits', 'cons', 'known')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.live = TRUE
        self.exits = []
        self.cons = ()
        self.known = ()

    def enter(self, *conds):
        """Start a region whose path conditions are relative to its entry."""
        new = [c for c in (self.live,) + conds if c is not TRUE and c not in self.known]
        if new:
            self.known = self.known + tuple(new)
        self.live = FALSE if any(c is FALSE for c in new) else TRUE

    def copy(self):
        s = State()
        s.frames = {f: dict(d) for f, d in self.frames.items()}
        s.heap = dict(self.heap)
        s.live = self.live
        s.exits = []
        s.cons = self.cons
        s.known = self.known
        return s

    def snap(self):
        s = self.copy()
        return s

    def take(self, o):
        self.frames, self.heap, self.live, self.cons, self.known = o.frames, o.heap, o.live, o.cons, o.known


# ---- function-like objects -------------------------------------------------
class PathState(object):
    __slots__ = ('live', 'known', 'cons')

    def __init__(self, st, known):
        self.live, self.known, self.cons = st.live, known, st.cons


class UserFn(object):
    def __init__(self, qual, node, mod, scopes, defaults, kwdefaults, owner=None):
        self.qual, self.node, self.mod, self.scopes = qual, node, mod, scopes
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner


class Builtin(object):
    def __init__(self, name):
        self.name = name


class Bound(object):
    def __init__(self, name, recv, fn=None, path=None):
        self.name, self.recv, self.fn, self.path = name, recv, fn, path


class UserClass(object):
    def __init__(self, name, mod, node, attrs, bases):
        self.name, self.mod, self.node, self.attrs, self.bases = name, mod, node, attrs, bases


class NamedTuple(object):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Module(object):
    def __init__(self, name):
        self.name = name


class Ext(object):
    def __init__(self, name):
        self.name = name


class Lazy(object):
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class Partial(object):
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Unsupported(Exception):
    pass


NOKEY = object()
FRAG = set()


def lift_const(x):
    return TRUE if x is True else FALSE if x is False else tm.num(x) if isinstance(x, int) else const(x) if isinstance(x, str) else None


class Interp(object):
    def __init__(self, prog, budget=400000):
        self.prog = prog
        self.budget = budget
        self.reg = {}
        self.events = {}
        self.notes = {}
        self.origin = {}
        self.state0 = State()
        self.loaded = {}
        self.nfid = 0
        self.naddr = 0
        self.stack = []
        self.where = [('?', 0)]
        self.depth = 0
        self.owner = 'global'
        self.hooks = {}
        self.calls = 0
        self.visited = set()
        self.entered = set()
        self.cur_loopdepth = 0
        self.trial = 0
        self.nts = {}
        self.mms, self.pending = set(), {}
        self.wlog = []
        self.keyed = {}
        self.adds = {}
        self.asmaps = False
        self.seen = None
        self.bykey = {}
        self.folded = False

    # ------------------------------------------------------------- utilities
    def note(self, why, node=None):
        f, l = self.loc(node)
        self.notes[(why, f, l)] = self.notes.get((why, f, l), 0) + 1

    def loc(self, node=None):
        f, l = self.where[-1]
        if node is not None and hasattr(node, 'lineno'):
            l = node.lineno
        return f, l

    def event(self, kind, st, node=None, **info):
        if st.live is FALSE:
            return
        f, l = self.loc(node)
        fn = self.stack[-1] if self.stack else '<module>'
        key = (kind, f, l, tuple(sorted((a, str(b)) for a, b in info.items() if not isinstance(b, (T, V)))))
        old = self.events.get(key)
        if old is None:
            e = dict(info)
            e.update(kind=kind, file=f, line=l, func=fn, cond=st.live, cons=st.cons)
            self.events[key] = e
        else:
            old['cond'] = disj(old['cond'], st.live)

    def fnval(self, obj, *key):
        t = mk('fn', tuple(key), ('fn',))
        self.reg[t] = obj
        return V(t, FNK)

    def ext(self, name):
        return self.fnval(Ext(name), 'ext', name)

    def builtin(self, name):
        return self.fnval(Builtin(name), 'builtin', name)

    def alloc(self, st, kind, **kw):
        self.naddr += 1
        a = self.naddr
        kw.setdefault('owner', self.owner if not self.stack else None)
        st.heap[a] = Cell(kind, **kw)
        ty = {'list': ('seq', ANY), 'set': ('set', ANY), 'dict': ('dict', ANY, ANY),
              'cm': ('cm', ANY, ANY), 'inst': ('obj',), 'dataset': ('dataset', ANY, ANY)}[kind]
        t = mk('ref', (a,), ty)
        return t

    def newlist(self, st, t, k=None, kind='list'):
        r = self.alloc(st, 'list', t=t, k=k)
        return V(r, K(kind, k))

    def newset(self, st, t, k=None):
        r = self.alloc(st, 'set', t=t, k=k)
        return V(r, K('set', k))

    # content of a value as pure term
    def pure(self, t, st, depth=0):
        if not isinstance(t, T):
            return t
        if depth > 12:
            return opaque('deep', ())
        refs = [x for x in subterms(t) if x.op == 'ref']
        if not refs:
            return t
        if t.op == 'ref':
            return self.content(t, st, depth)
        m = {}
        for r in refs:
            m[r] = self.content(r, st, depth + 1)
        return substm(t, m)

    def content(self, r, st, depth=0):
        c = st.heap.get(r.a[0])
        if c is None:
            return opaque('dangling', (), r.ty)
        if c.kind in ('list', 'set', 'cm'):
            return self.pure(c.t, st, depth + 1)
        if c.kind == 'dict' and self.asmaps and c.cls is None:
            return tm.asmap(self.pure(self.symdict(c).t, st, depth + 1)) if c.t is not None or c.d else tm.emptymap(STR)
        if c.kind == 'dict':
            if c.t is not None:
                t = self.mm_groups(c) if c.cls == 'mm' else c.t
                return mk('dictv', ('sym', self.pure(t, st, depth + 1)), ('dict', ANY, ANY))
            items = []
            for kt, (p, v) in c.d.items():
                if p is FALSE:
                    continue
                items.append((kt, p, self.pure(v.t, st, depth + 1)))
            items.sort(key=lambda z: z[0].key)
            return mk('dictv', ('known',) + tuple(items), ('dict', ANY, ANY))
        if c.kind == 'dataset':
            return self.pure(c.t, st, depth + 1)
        if c.kind == 'fwd':
            t = self.path_read(c.cls, st)
            return self.pure(t, st, depth + 1) if t is not None else opaque('dangling', (), r.ty)
        if c.kind == 'inst':
            items = tuple((n, self.pure(v.t, st, depth + 1)) for n, v in sorted(c.d.items()))
            return mk('inst', (c.cls or '?',) + items, ('obj',))
        return opaque('cell', (), r.ty)

    def seqof(self, v, st):
        """Sequence/set/dict content term of a value (refs to containers resolved)."""
        def f(t):
            if t.op == 'ref':
                c = st.heap.get(t.a[0])
                if c is None:
                    return opaque('dangling', ())
                if c.kind in ('list', 'set', 'cm'):
                    return c.t
                if c.kind == 'dict':
                    if c.t is not None:
                        return mk('dictv', ('sym', self.mm_groups(c) if c.cls == 'mm' else c.t), ('dict', ANY, ANY))
                    if all(p is TRUE for p, _ in c.d.values()):
                        return concat([one(kt) for kt in c.d]) if c.d else EMPTY
                    return concat([ite(p, one(kt), EMPTY) for kt, (p, _) in c.d.items()])
                if c.kind == 'dataset':
                    return self.content(t, st)
                return self.content(t, st)
            return t
        return lift(f, v.t)

    def single_ref(self, v, st):
        if v.t.op == 'ref':
            return v.t, st.heap.get(v.t.a[0])
        return None, None

    # ------------------------------------------------------------- merging
    def mergeV(self, c, a, b):
        if a is b:
            return a
        if a.t.op == 'bot':
            return b
        if b.t.op == 'bot':
            return a
        return V(ite(c, a.t, b.t), kd.join(a.k, b.k), a.p if a.p == b.p else None)

    def mergeCell(self, c, a, b):
        if a is b:
            return a
        if a.kind != b.kind:
            return a.but(t=opaque('cellmerge', ()))
        if a.kind == 'dict':
            if a.t is None and b.t is None:
                d = {}
                for kt in list(a.d) + [x for x in b.d if x not in a.d]:
                    pa, va = a.d.get(kt, (FALSE, BOTV))
                    pb, vb = b.d.get(kt, (FALSE, BOTV))
                    if pa is pb and va is vb:
                        d[kt] = (pa, va)
                    else:
                        d[kt] = (ite(c, pa, pb), self.mergeV(c, va, vb))
                return a.but(d=d, k=kd.join(a.k, b.k))
            a, b = self.symdict(a), self.symdict(b)
            if (a.cls == 'mm') != (b.cls == 'mm'):
                if (b if a.cls == 'mm' else a).t is not EMPTY:
                    return a.but(t=opaque('cellmerge', ()))
                a = a.but(cls='mm')
            return a.but(t=ite(c, a.t, b.t), k=kd.join(a.k, b.k))
        if a.kind == 'inst' or a.kind == 'dataset':
            d = {}
            for n in set(a.d or {}) | set(b.d or {}):
                d[n] = self.mergeV(c, (a.d or {}).get(n, BOTV), (b.d or {}).get(n, BOTV))
            return a.but(d=d, t=ite(c, a.t, b.t) if a.t is not None and b.t is not None else a.t)
        return a.but(t=ite(c, a.t, b.t), k=kd.join(a.k, b.k))

    def symdict(self, c):
        if c.t is not None:
            return c
        t = EMPTY
        k = c.k
        for kt, (p, v) in c.d.items():
            t = concat([t, ite(p, one(concat([one(kt), one(v.t)])), EMPTY)])
            k = kd.join(k, v.k)
        return c.but(t=t, d=None, k=k)

    def merge(self, c, A, B):
        """Merge states: A where c, B elsewhere (in place result)."""
        if c is TRUE:
            return A
        if c is FALSE:
            return B
        R = State()
        for f in set(A.frames) | set(B.frames):
            fa, fb = A.frames.get(f), B.frames.get(f)
            if fa is None or fb is None:
                R.frames[f] = dict(fa or fb)
                continue
            d = {}
            for n in set(fa) | set(fb):
                va, vb = fa.get(n), fb.get(n)
                if va is vb:
                    d[n] = va
                else:
                    d[n] = self.mergeV(c, va or BOTV, vb or BOTV)
            R.frames[f] = d
        for a in set(A.heap) | set(B.heap):
            ca, cb = A.heap.get(a), B.heap.get(a)
            if ca is None or cb is None:
                R.heap[a] = ca or cb
            else:
                R.heap[a] = self.mergeCell(c, ca, cb)
        R.live = ite(c, A.live, B.live)
        R.cons = A.cons
        R.known = A.known
        return R

    def branch(self, st, c, fa, fb):
        """Run fa/fb on copies under c / not c and merge; they return V or None."""
        c = self.simp(c, st)
        if self.seen is not None:
            self.seen.add(c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        A, B = st.copy(), st.copy()
        A.live = conj(st.live, c)
        B.live = conj(st.live, neg(c))
        va = fa(A)
        vb = fb(B)
        st.exits += A.exits + B.exits
        if A.live is FALSE and B.live is FALSE:
            st.take(B)
            st.live = FALSE
            return vb if vb is not None else va
        if A.live is FALSE:
            st.take(B)
            return vb
        if B.live is FALSE:
            st.take(A)
            return va
        R = self.merge(c, A, B)
        st.take(R)
        if va is None or vb is None:
            return va or vb
        return self.mergeV(c, va, vb)

    def simp(self, c, st):
        """Condition c simplified under the current path facts."""
        if c is TRUE or c is FALSE:
            return c
        for k in (st.live,) + st.known:
            c = constrain(c, k)
            if c is TRUE or c is FALSE:
                return c
        return self.decide(c, self.facts(st))

    def facts(self, st):
        cons = list(st.cons)
        for k in (st.live,) + st.known:
            self.facts_of(k, cons)
        return cons

    def facts_of(self, c, cons):
        while c.op == 'ite':
            a, h, l = c.a
            if h is FALSE:
                lit, c = (a, False), l
            elif l is FALSE:
                lit, c = (a, True), h
            else:
                break
            a, val = lit
            if a.op == 'le' or a.op == 'lt':
                k = num(Fraction(*a.a[1]))
                if val:
                    cons.append(sub(a.a[0], k))
                elif a.a[0].ty[0] == 'int':
                    cons.append(add(sub(k, a.a[0]), ONE))
            elif a.op == 'eqp' and val:
                k = num(Fraction(*a.a[1]))
                cons.append(sub(a.a[0], k))
                cons.append(sub(k, a.a[0]))
            elif a.op == 'eqp' and not val and a.a[1] == (0, 1) and tm.nonneg(a.a[0]) and a.a[0].ty[0] == 'int':
                cons.append(sub(ONE, a.a[0]))
        return cons

    def decide(self, c, cons):
        if not cons:
            return c
        for x in cons:
            if x.op == 'ite':
                a = x.a[0]
                if a.fv:
                    cons = [y for y in cons if y is not x]
                    return self.decide(c, cons)
                return ite(atomise(a), self.decide(assume(c, a, True), [assume(y, a, True) for y in cons]),
                           self.decide(assume(c, a, False), [assume(y, a, False) for y in cons]))
        return tm.decide(c, cons)

    def prove_le0(self, p, st):
        """p <= 0 provable on this path."""
        c = self.simp(le(p, ZERO), st)
        return c is TRUE

    # ------------------------------------------------------------- modules
    def load(self, name):
        if name in self.loaded:
            return
        if name not in self.prog.modules:
            return
        self.loaded[name] = 'loading'
        path, tree = self.prog.modules[name]
        st = self.state0
        fid = 'mod:' + name
        st.frames[fid] = {'__name__': V(const(name), STRK)}
        self.where.append((self.prog.rel(path), 0))
        saved = (self.stack, self.owner)
        self.stack, self.owner = [], 'module:' + name
        try:
            for s in tree.body:
                try:
                    self.stmt(s, st, (fid,), name)
                except Unsupported as e:
                    self.note('module statement: %s' % e, s)
        finally:
            self.stack, self.owner = saved
            self.where.pop()
        st.exits = []
        st.live = TRUE
        self.loaded[name] = 'done'

    def start(self):
        st = self.state0.copy()
        return st

    def globalv(self, mod, name):
        self.load(mod)
        v = self.state0.frames.get('mod:' + mod, {}).get(name)
        if v is None:
            return None
        return self.resolve(v)

    def resolve(self, v):
        o = self.reg.get(v.t)
        if isinstance(o, Lazy):
            r = self.globalv(o.mod, o.name)
            return r if r is not None else V(opaque('missing', (const(o.mod + '.' + o.name),)), ANYK)
        return v

    # ------------------------------------------------------------- statements
    def block(self, stmts, st, sc, mod):
        for s in stmts:
            if st.live is FALSE:
                return
            self.stmt(s, st, sc, mod)

    def stmt(self, s, st, sc, mod):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.note('statement ' + type(s).__name__, s)
            self.havoc_stmt(s, st, sc)
            return
        self.visited.add((self.where[-1][0], s.lineno))
        m(s, st, sc, mod)

    def havoc_stmt(self, s, st, sc):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.setname(n.id, V(opaque('stmt', (const(type(s).__name__), const(self.where[-1][0]), const(s.lineno))), ANYK), st, sc)

    def s_Pass(self, s, st, sc, mod):
        pass

    def s_Expr(self, s, st, sc, mod):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            v = self.expr(s.value.value, st, sc, mod) if s.value.value else NONEV
            fr = st.frames[sc[0]]
            old = fr.get('$yield', V(EMPTY, K('list')))
            if isinstance(s.value, ast.Yield):
                fr['$yield'] = V(concat([old.t, one(v.t)]), K('list', kd.join(old.k.e, v.k)))
            else:
                fr['$yield'] = V(concat([old.t, self.iterterm(v, st)]), K('list', kd.join(old.k.e, kd.elem(v.k))))
            return
        self.expr(s.value, st, sc, mod)

    def s_Global(self, s, st, sc, mod):
        fr = st.frames[sc[0]]
        for n in s.names:
            fr['$global:' + n] = NONEV

    def s_Nonlocal(self, s, st, sc, mod):
        fr = st.frames[sc[0]]
        for n in s.names:
            fr['$nonlocal:' + n] = NONEV

    def s_Import(self, s, st, sc, mod):
        for a in s.names:
            top = a.name.split('.')[0]
            if a.name in self.prog.modules:
                self.load(a.name)
            if a.asname:
                v = self.modval(a.name)
                self.setname(a.asname, v, st, sc)
            else:
                self.setname(top, self.modval(top), st, sc)

    def modval(self, name):
        if name in self.prog.modules:
            return self.fnval(Module(name), 'mod', name)
        return self.ext(name)

    def s_ImportFrom(self, s, st, sc, mod):
        src = s.module or ''
        if s.level:
            base = mod.split('.')
            if not self.prog.is_pkg.get(mod):
                base = base[:-1]
            if s.level > 1:
                base = base[:len(base) - (s.level - 1)]
            src = '.'.join(base + ([src] if src else []))
        if src == '__future__':
            return
        for a in s.names:
            nm = a.asname or a.name
            if src in self.prog.modules:
                self.load(src)
                v = self.state0.frames.get('mod:' + src, {}).get(a.name)
                if v is None and src + '.' + a.name in self.prog.modules:
                    self.load(src + '.' + a.name)
                    v = self.modval(src + '.' + a.name)
                if v is None:
                    v = self.fnval(Lazy(src, a.name), 'lazy', src, a.name)
                # names from other modules live in state0; share the heap object
                if sc[0].startswith('mod:') if isinstance(sc[0], str) else False:
                    st.frames[sc[0]][nm] = v
                else:
                    self.setname(nm, v, st, sc)
                    for ad, c in self.state0.heap.items():
                        st.heap.setdefault(ad, c)
                    for f, d in self.state0.frames.items():
                        if f not in st.frames:
                            st.frames[f] = dict(d)
            else:
                self.setname(nm, self.ext(src + '.' + a.name), st, sc)

    def s_FunctionDef(self, s, st, sc, mod):
        v = self.mkfn(s, s.name, st, sc, mod)
        if s.decorator_list:
            names = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '?') for d in s.decorator_list]
            if not set(names) <= set(['staticmethod', 'classmethod', 'wraps', 'property', 'lru_cache']):
                self.note('decorator', s)
                v = V(opaque('decorated', (const(s.name),), ('any',)), ANYK)
            elif 'lru_cache' in names or 'wraps' in names or 'property' in names or 'classmethod' in names:
                self.note('decorator', s)
        self.setname(s.name, v, st, sc)

    def mkfn(self, s, name, st, sc, mod):
        defaults = [self.expr(d, st, sc, mod) for d in s.args.defaults]
        kwd = {}
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.expr(d, st, sc, mod)
        for v in defaults + list(kwd.values()):
            self.mark_owner(v, st, 'default argument of ' + name)
        qual = mod + ':' + name
        if isinstance(sc[0], int):
            key = (qual, s.lineno, s.col_offset) + (self.frame_key(st, sc),)
        else:
            key = (qual,)
        fn = UserFn(qual, s, mod, sc, defaults, kwd)
        v = self.fnval(fn, *key)
        return v

    def frame_key(self, st, sc):
        return str(sc[0])

    def mark_owner(self, v, st, owner):
        r, c = self.single_ref(v, st)
        if c is not None:
            st.heap[r.a[0]] = c.but(owner=owner)

    def s_ClassDef(self, s, st, sc, mod):
        bases = [self.expr(b, st, sc, mod) for b in s.bases]
        fid = self.newframe(st)
        saved, self.owner = self.owner, 'class:' + s.name
        self.block(s.body, st, (fid,) + tuple(sc), mod)
        self.owner = saved
        attrs = st.frames[fid]
        for n, v in attrs.items():
            o = self.reg.get(v.t)
            if isinstance(o, UserFn):
                o.owner = s.name
                o.scopes = sc
            else:
                self.mark_owner(v, st, 'class:' + s.name)
        cls = UserClass(s.name, mod, s, attrs, bases)
        self.setname(s.name, self.fnval(cls, 'class', mod, s.name), st, sc)

    def newframe(self, st):
        self.nfid += 1
        st.frames[self.nfid] = {}
        return self.nfid

    def s_Return(self, s, st, sc, mod):
        v = self.expr(s.value, st, sc, mod) if s.value is not None else NONEV
        if st.live is FALSE:
            return
        st.exits.append(Exit('return', st.live, v, st.snap(), s))
        st.live = FALSE

    def s_Raise(self, s, st, sc, mod):
        name = '?'
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.expr(a, st, sc, mod)
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
                v = self.lookup(e.id, st, sc)
                if v is not None:
                    o = self.reg.get(self.resolve(v).t)
                    if isinstance(o, UserClass):
                        name = o.name
                    elif isinstance(o, UserFn):
                        # helper returning an exception instance
                        name = self.exc_of_helper(o) or name
            elif isinstance(e, ast.Attribute):
                name = e.attr
        self.raise_(name, st, s)

    def exc_of_helper(self, fn):
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name):
                return n.value.func.id
        return None

    def raise_(self, name, st, node=None):
        if st.live is FALSE:
            return
        t = mk('exc', (name,), ('exc',))
        st.exits.append(Exit('raise', st.live, V(t, ANYK), None, node))
        st.live = FALSE

    nodiv = False

    def divzero(self, y, st, node):
        """Exit taken when the divisor y is zero."""
        if self.nodiv:
            return
        z = self.simp(eq(y, ZERO), st)
        if z is FALSE:
            return
        if z is TRUE:
            self.raise_('ArithmeticError', st, node)
            return
        B = st.copy()
        B.live = conj(st.live, z)
        self.raise_('ArithmeticError', B, node)
        st.exits += B.exits
        st.live = conj(st.live, neg(z))

    def s_Assert(self, s, st, sc, mod):
        A = st.copy()
        self.expr(s.test, A, sc, mod)   # effects/events only; asserts are assumed to hold

    def s_Delete(self, s, st, sc, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[sc[0]].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.expr(t.value, st, sc, mod)
                k = self.expr(t.slice, st, sc, mod)
                self.delitem(b, k, st, t)
            else:
                self.note('del', s)

    def delitem(self, b, k, st, node):
        mp = self.map_place(b, st)
        if mp is not None:
            self.map_del(mp, self.pure(k.t, st), st, node)
            return
        r, c = self.single_ref(b, st)
        self.mutation(b, st, node, 'del')
        if c is not None and c.kind == 'dict' and c.t is None and tm.isconst(k.t):
            p, v = c.d.get(k.t, (FALSE, BOTV))
            if p is not TRUE:
                miss = self.simp(neg(p), st)
                if miss is not FALSE:
                    B = st.copy()
                    B.live = conj(st.live, miss)
                    self.raise_('KeyError', B, node)
                    st.exits += B.exits
                    st.live = conj(st.live, neg(miss))
            d = dict(c.d)
            d.pop(k.t, None)
            st.heap[r.a[0]] = c.but(d=d)
        elif c is not None and c.kind == 'dict' and c.cls is None:
            self.dict_drop(r, c, self.pure(k.t, st), st, node, True)
        elif c is not None:
            self.note('del on symbolic container', node)
            st.heap[r.a[0]] = c.but(t=opaque('delitem', (self.pure(b.t, st), self.pure(k.t, st)), b.t.ty), d=None if c.kind == 'dict' else c.d)

    def dict_drop(self, r, c, kt, st, node, strict):
        """Remove key kt from a dictionary with symbolic entries."""
        c = self.symdict(c)
        ents = self.pure(c.t, st)
        if strict:
            miss = self.simp(neg(tm.haskey(ents, kt)), st)
            if miss is TRUE:
                self.raise_('KeyError', st, node)
                return
            if miss is not FALSE:
                B = st.copy()
                B.live = conj(st.live, miss)
                self.raise_('KeyError', B, node)
                st.exits += B.exits
                st.live = conj(st.live, neg(miss))
        self.refresh(r, st, (kt,))
        st.heap[r.a[0]] = c.but(t=mapseq(c.t, lambda e: e, lambda e: neg(eq(at(e, ZERO), kt))))

    def s_Assign(self, s, st, sc, mod):
        v = self.expr(s.value, st, sc, mod)
        for t in s.targets:
            self.assign(t, v, st, sc, mod)

    def s_AnnAssign(self, s, st, sc, mod):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st, sc, mod), st, sc, mod)

    def s_AugAssign(self, s, st, sc, mod):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, st, sc, t)
            r, c = self.single_ref(old, st)
            rhs = self.expr(s.value, st, sc, mod)
            if c is not None and c.kind == 'dataset' and isinstance(s.op, ast.Add):
                m = self.class_method(c.cls, '__iadd__')
                if m is not None:
                    v = self.call(m, [old, rhs], {}, st, s)
                    if st.live is not FALSE:
                        self.setname(t.id, v, st, sc)
                    return
            if c is not None and c.kind in ('list', 'set', 'dataset'):
                self.aug_inplace(old, s.op, rhs, st, s)
                return
            if c is None and old.p is not None and isinstance(s.op, ast.Add) and old.t.ty[0] == 'seq' and 'list' in old.k.b | frozenset(['any']) \
                    and self.map_root(old.p, st):
                x = self.pure(self.iterterm(rhs, st), st)
                self.path_update(old.p, st, s, lambda y: concat([y, x]))
                return
            if c is None and old.t.ty[0] in ('seq', 'set') and any(x in old.k.b for x in ('list', 'set')):
                self.mutation(old, st, s, 'augmented assignment')
            v = self.binop(s.op, old, rhs, st, s)
            self.setname(t.id, v, st, sc)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, st, sc, mod)
            k = self.expr(t.slice, st, sc, mod)
            if self.is_cm_row(b):
                rhs = self.expr(s.value, st, sc, mod)
                self.cm_add(b, k, rhs, s.op, st, s)
                return
            r, c = self.single_ref(b, st)
            old = None
            if c is not None and c.kind == 'dict':
                old = self.getitem(b, k, st, t, store=True)
                rr, cc = self.single_ref(old, st)
                rhs = self.expr(s.value, st, sc, mod)
                if cc is not None and cc.kind in ('list', 'set'):
                    self.aug_inplace(old, s.op, rhs, st, s)
                    return
            else:
                old = self.getitem(b, k, st, t)
                rhs = self.expr(s.value, st, sc, mod)
            v = self.binop(s.op, old, rhs, st, s)
            self.setitem(b, k, v, st, s)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st, sc, mod)
            old = self.getattr(b, t.attr, st, t)
            rhs = self.expr(s.value, st, sc, mod)
            r, c = self.single_ref(old, st)
            if c is not None and c.kind in ('list', 'set'):
                self.aug_inplace(old, s.op, rhs, st, s)
                return
            self.setattr(b, t.attr, self.binop(s.op, old, rhs, st, s), st, s)

    def map_root(self, p, st):
        c = st.heap.get(p[0].a[0])
        return c is not None and c.kind == 'dataset'

    def class_named(self, name):
        for o in self.reg.values():
            if isinstance(o, UserClass) and o.name == name:
                return o
        return None

    def class_method(self, cls, name):
        """The function a class of the package defines under this name."""
        o = self.class_named(cls) if cls is not None else None
        if o is not None and name in o.attrs and isinstance(self.reg.get(o.attrs[name].t), UserFn):
            return o.attrs[name]
        return None

    def aug_inplace(self, old, op, rhs, st, node):
        r, c = self.single_ref(old, st)
        self.mutation(old, st, node, 'augmented assignment')
        if c.kind == 'list' and isinstance(op, ast.Add):
            st.heap[r.a[0]] = c.but(t=concat([c.t, self.iterterm(rhs, st)]), k=kd.join(c.k, kd.elem(rhs.k, None)))
        elif c.kind == 'set' and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            f = {ast.BitOr: union, ast.BitAnd: inter, ast.Sub: diff, ast.BitXor: symdiff}[type(op)]
            st.heap[r.a[0]] = c.but(t=f(c.t, self.seqof(rhs, st)), k=kd.join(c.k, kd.elem(rhs.k, None)))
        else:
            self.note('augmented assignment', node)
            st.heap[r.a[0]] = c.but(t=opaque('aug', (self.pure(old.t, st), self.pure(rhs.t, st)), old.t.ty))

    def assign(self, tgt, v, st, sc, mod):
        if isinstance(tgt, ast.Name):
            self.setname(tgt.id, v, st, sc)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            self.unpackable(v, n, tgt, st)
            if st.live is FALSE:
                return
            if any(isinstance(e, ast.Starred) for e in tgt.elts):
                i = [isinstance(e, ast.Starred) for e in tgt.elts].index(True)
                vs = []
                for j in range(i):
                    vs.append(self.index(v, num(j), st, tgt))
                s = self.seqof(v, st)
                L = length(s)
                rest = n - i - 1
                vs.append(self.newlist(st, self.slice_seq(s, num(i), sub(L, num(rest)), st), kd.elem(v.k)))
                for j in range(rest):
                    vs.append(self.index(v, num(j - rest), st, tgt))
            else:
                vs = [self.index(v, num(j), st, tgt) for j in range(n)]
            for e, x in zip(tgt.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, sc, mod)
        elif isinstance(tgt, ast.Subscript):
            b = self.expr(tgt.value, st, sc, mod)
            if self.is_cm_row(b):
                k = self.expr(tgt.slice, st, sc, mod)
                self.cm_set(b, k, v, st, tgt)
                return
            if isinstance(tgt.slice, ast.Slice):
                self.mutation(b, st, tgt, 'slice assignment')
                self.note('slice assignment', tgt)
                r, c = self.single_ref(b, st)
                if c is not None:
                    st.heap[r.a[0]] = c.but(t=opaque('sliceassign', (self.pure(b.t, st), self.pure(v.t, st)), b.t.ty))
                return
            k = self.expr(tgt.slice, st, sc, mod)
            if self.path_setitem(tgt, b, k, v, st, sc, mod):
                return
            self.setitem(b, k, v, st, tgt)
        elif isinstance(tgt, ast.Attribute):
            b = self.expr(tgt.value, st, sc, mod)
            self.setattr(b, tgt.attr, v, st, tgt)
        else:
            self.note('assignment target', tgt)

    def unpackable(self, v, n, tgt, st):
        """Unpacking a number, a truth value or None raises."""
        bad = lift(lambda t: TRUE if t.ty[0] in ('int', 'num', 'bool', 'none') and t.op not in ('bot', 'undef', 'opaque') else FALSE, v.t)
        if bad is not FALSE:
            self.branch(st, bad, lambda A: self.raise_('TypeError', A, tgt), lambda B: None)

    def path_setitem(self, tgt, b, k, v, st, sc, mod):
        return False

    def setname(self, n, v, st, sc):
        fr = st.frames[sc[0]]
        if '$global:' + n in fr:
            f = [x for x in sc if isinstance(x, str)]
            if f:
                self.event('globalwrite', st, None, name=n)
                st.frames[f[0]][n] = v
                return
        if '$nonlocal:' + n in fr:
            for f in sc[1:]:
                if n in st.frames.get(f, {}):
                    st.frames[f][n] = v
                    return
        if v.t.op == 'ite' and v.t.ty[0] == 'int' and v.t.size > 30 and not any(x.op in ('bot', 'undef', 'exc') for x in leaves(v.t)) \
                and any(x.op == 'num' for x in leaves(v.t)) and any(x.size > 6 for x in leaves(v.t)):
            v = V(tm.box(v.t), v.k)
        fr[n] = v

    def s_If(self, s, st, sc, mod):
        if self.is_ensure(s, st, sc, mod):
            return
        c = self.cond(s.test, st, sc, mod)
        if st.live is FALSE:
            return
        self.branch(st, c,
                    lambda A: self.block(s.body, A, sc, mod),
                    lambda B: self.block(s.orelse, B, sc, mod))

    # "if k not in d: d[k] = list()": the multimap idiom
    def is_ensure(self, s, st, sc, mod):
        if s.orelse or not s.body:
            return False
        t = s.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Compare) and \
                isinstance(t.operand.ops[0], ast.In):
            t2 = t.operand
        elif isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.NotIn):
            t2 = t
        else:
            return False
        a = s.body[0]
        if len(s.body) != 1 or not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Subscript)):
            return False
        tg = a.targets[0]
        if ast.dump(tg.value) != ast.dump(t2.comparators[0]) or ast.dump(tg.slice) != ast.dump(t2.left):
            return False
        v = a.value
        empty = (isinstance(v, ast.List) and not v.elts) or (
            isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'list' and not v.args)
        if not empty or not isinstance(tg.value, ast.Name):
            return False
        d = self.name(tg.value.id, st, sc, tg)
        r, c = self.single_ref(d, st)
        if c is None or c.kind != 'dict':
            return False
        if c.t is None and c.d:
            return False
        k = self.expr(t2.left, st, sc, mod)
        if tm.isconst(k.t) and not c.cls:
            return False
        if c.cls != 'mm' and c.t is not None and c.t is not EMPTY and r.a[0] not in self.mms:
            return False
        self.mms.add(r.a[0])
        self.opened(r.a[0], k.t, st, node=s)
        st.heap[r.a[0]] = c.but(t=c.t if c.t is not None else EMPTY, d=None, cls='mm')
        return True

    def opened(self, a, kt, st, node):
        """A key was given an empty list; its group is only known once something is appended."""
        self.pending[(a, self.pure(kt, st))] = (st.live, node)

    def appended(self, a, kt, st):
        p = self.pending.get((a, kt))
        if p is not None and p[0] is st.live:
            del self.pending[(a, kt)]

    def s_With(self, s, st, sc, mod):
        for it in s.items:
            v = self.expr(it.context_expr, st, sc, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, sc, mod)
        self.block(s.body, st, sc, mod)

    def s_Try(self, s, st, sc, mod):
        n0 = len(st.exits)
        pre = st.copy()
        self.block(s.body, st, sc, mod)
        if s.handlers:
            raised = [e for e in st.exits[n0:] if e.kind == 'raise']
            if self.try_modelled(s, raised):
                self.handle(s, pre, raised, st, n0, sc, mod)
                raised = None
        if s.handlers and raised is not None:
            st.exits = st.exits[:n0] + [e for e in st.exits[n0:] if e.kind != 'raise']
            # handlers: entered when the body raises (implicit or explicit)
            exc = atomise(mk('truth', (opaque('raises', (const(self.where[-1][0]), const(s.lineno))),), BOOL))
            H = pre
            H.exits = []
            H.live = conj(pre.live, exc)
            for h in s.handlers:
                H2 = H.copy()
                if h.name:
                    H2.frames[sc[0]][h.name] = V(opaque('exception', ()), ANYK)
                self.block(h.body, H2, sc, mod)
                st.exits += H2.exits
                if H2.live is not FALSE:
                    live = st.live
                    R = self.merge(exc, H2, st)
                    ex = st.exits
                    st.take(R)
                    st.exits = ex
                    st.live = disj(conj(live, neg(exc)), H2.live)
                else:
                    st.live = conj(st.live, neg(exc))
            for e in st.exits[n0:]:
                pass
            self.note('try/except', s)
        self.block(s.orelse, st, sc, mod)
        if s.finalbody:
            if st.live is FALSE:
                A = pre.copy()
                self.block(s.finalbody, A, sc, mod)
            else:
                self.block(s.finalbody, st, sc, mod)

    def try_modelled(self, s, raised):
        """Every way in which the body can fail is a recorded exit."""
        from . import io_model
        if s.orelse or not all(isinstance(e.v.t, T) and e.v.t.op == 'exc' for e in raised):
            return False
        for h in s.handlers:
            if self.caught(h) is None:
                return False
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call):
                    f = n.func
                    nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
                    if nm not in ('open', 'load', 'loads', 'read', 'close', 'reader'):
                        return False
                elif isinstance(n, (ast.Subscript, ast.BinOp, ast.For, ast.While, ast.Raise, ast.Delete)):
                    return False
        return True

    def caught(self, h):
        """Names of the exception classes a handler catches."""
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
            if nm is None:
                return None
            out.append(nm)
        return out

    def handle(self, s, pre, raised, st, n0, sc, mod):
        other = [e for e in st.exits[n0:] if e.kind != 'raise']
        st.exits = st.exits[:n0] + other
        left = raised
        for h in s.handlers:
            names = self.caught(h)
            mine = [e for e in left if any(n in EXC_BASES.get(e.v.t.a[0], ()) or n == e.v.t.a[0] or n in ('Exception', 'BaseException') for n in names)]
            left = [e for e in left if e not in mine]
            for e in mine:
                H = pre.copy()
                H.exits = []
                H.live = e.cond
                if h.name:
                    H.frames[sc[0]][h.name] = V(opaque('exception', ()), ANYK)
                self.block(h.body, H, sc, mod)
                st.exits += H.exits
                if H.live is not FALSE:
                    self.rejoin(st, [Exit('handled', H.live, None, H, s)])
        st.exits += left

    def s_Break(self, s, st, sc, mod):
        st.exits.append(Exit('break', st.live, None, st.snap(), s))
        st.live = FALSE

    def s_Continue(self, s, st, sc, mod):
        st.exits.append(Exit('continue', st.live, None, st.snap(), s))
        st.live = FALSE

    # ------------------------------------------------------------- loops
    def by_key(self, s, st, sc, mod):
        """for k, x in d.items() as a loop over the keys of d, if its body changes x itself."""
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'list' and len(it.args) == 1 and not it.keywords:
            it = it.args[0]
        if not isinstance(it, ast.Call) or it.args or it.keywords or not isinstance(it.func, ast.Attribute) or \
                it.func.attr not in ('items', 'values') or not isinstance(it.func.value, (ast.Name, ast.Attribute, ast.Subscript)):
            return s
        if it.func.attr == 'values' and isinstance(s.target, ast.Name):
            k, x = '$key%d' % s.lineno, s.target.id
        elif it.func.attr == 'items' and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and \
                all(isinstance(e, ast.Name) for e in s.target.elts):
            k, x = s.target.elts[0].id, s.target.elts[1].id
        else:
            return s
        if id(s) in self.bykey:
            r, names = self.bykey[id(s)]
        else:
            base = it.func.value
            names = set(n.id for n in ast.walk(base) if isinstance(n, ast.Name))
            r = None
            for n in (n for b in s.body for n in ast.walk(b)):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in names | {k, x}:
                    r = None
                    break
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == x or \
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.value.id == x and n.func.attr in MUTATORS:
                    r = base
            if r is not None:
                get = ast.Assign(targets=[ast.Name(x, ast.Store())], value=ast.Subscript(value=base, slice=ast.Name(k, ast.Load()), ctx=ast.Load()), lineno=s.lineno)
                r = ast.For(target=ast.Name(k, ast.Store()), iter=base, body=[get] + s.body, orelse=s.orelse, lineno=s.lineno)
                for n in (get, r, r.target):
                    ast.copy_location(n, s)
                ast.fix_missing_locations(r)
            self.bykey[id(s)] = r, names
        if r is None:
            return s
        b = self.expr(it.func.value, st, sc, mod)
        return r if self.map_place(b, st) is not None else s

    def s_For(self, s, st, sc, mod):
        s = self.by_key(s, st, sc, mod)
        itv = self.expr(s.iter, st, sc, mod)
        if st.live is FALSE:
            return
        n = self.fixed(itv, st) if itv.p is not None else None
        gens = self.gens(itv, st, s) if n is None else [([], TRUE, self.index(itv, num(j), st, s)) for j in range(n)]
        if gens is None:
            self.note('iteration over unsupported value', s)
            self.havoc_loop(s, st, sc, mod, itv)
            return
        r, c = self.single_ref(itv, st)
        if c is not None and c.kind == 'list' and c.cls == 'iter':
            if any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b)):
                self.note('iterator left before its end', s)
            st.heap[r.a[0]] = c.but(t=EMPTY)
        live = r.a[0] if c is not None and c.kind in ('list', 'set') and c.cls != 'iter' else None
        # exits already pending belong to an enclosing loop
        outer, st.exits = st.exits, []
        for levels, guard, ev in gens:
            if live is not None and st.heap.get(live) is not None and st.heap[live].t is not c.t:
                self.note('changed while iterated over', s)
            if st.live is FALSE:
                break
            if not levels:
                def body(A, ev=ev):
                    if ev.p is not None:
                        t = self.path_read(ev.p, A)
                        ev = ev if t is None else V(t, ev.k, ev.p)
                    self.assign(s.target, ev, A, sc, mod)
                    self.block(s.body, A, sc, mod)
                    self.join_exits(A, 'continue')
                if guard is TRUE:
                    n0 = len(st.exits)
                    body(st)
                else:
                    n0 = len(st.exits)
                    self.branch(st, guard, body, lambda B: None)
            else:
                n0 = len(st.exits)
                self.summarise(s, levels, guard, ev, st, sc, mod)
                if live is not None and st.heap.get(live) is not None and st.heap[live].t is not c.t:
                    self.note('changed while iterated over', s)
        # breaks leave the loop: they rejoin after the else clause
        brks = [e for e in st.exits if e.kind == 'break']
        st.exits = [e for e in st.exits if e.kind != 'break']
        if s.orelse:
            self.block(s.orelse, st, sc, mod)
        self.rejoin(st, brks)
        st.exits = outer + st.exits

    def fixed(self, v, st):
        """The number of elements, where it is the same in every case."""
        ns = set()
        for t in leaves(self.iterterm(v, st)):
            if t.op in ('bot', 'undef'):
                continue
            es = ones(t) if t.ty[0] == 'seq' else None
            ns.add(len(es) if es is not None else None)
        return ns.pop() if len(ns) == 1 and None not in ns else None

    def rejoin(self, st, brks):
        for e in brks:
            if e.cond is FALSE:
                continue
            if st.live is FALSE:
                ex = st.exits
                st.take(e.snap)
                st.exits = ex
                st.live = e.cond
            else:
                live = st.live
                R = self.merge(e.cond, e.snap, st)
                ex = st.exits
                st.take(R)
                st.exits = ex
                st.live = disj(live, e.cond)

    def join_exits(self, st, kind):
        es = [e for e in st.exits if e.kind == kind]
        st.exits = [e for e in st.exits if e.kind != kind]
        self.rejoin(st, es)

    def havoc_loop(self, s, st, sc, mod, itv):
        """Loop over something unknown: run the body once for effects, forget results."""
        A = st.copy()
        A.live = st.live
        self.assign(s.target, V(opaque('elem', (self.pure(itv.t, st),)), kd.elem(itv.k)), A, sc, mod)
        self.block(s.body, A, sc, mod)
        changed = self.changes(st, A)
        for loc in changed:
            self.setloc(st, loc, V(opaque('loop', (const(self.where[-1][0]), const(s.lineno), const(str(loc)), self.pure(itv.t, st))), ANYK))
        for e in A.exits:
            if e.kind in ('raise', 'return'):
                c = atomise(mk('truth', (opaque('exit', (const(self.where[-1][0]), const(s.lineno))),), BOOL))
                st.exits.append(Exit(e.kind, conj(st.live, c), V(opaque('exitval', ())), st.snap(), e.node) if e.kind == 'return' else
                                Exit('raise', conj(st.live, c), e.v, None, e.node))
                st.live = conj(st.live, neg(c))

    # locations: ('var', fid, name) / ('cell', addr) / ('entry', addr, key)
    def changes(self, S0, S1):
        out = []
        for f, d in S1.frames.items():
            d0 = S0.frames.get(f)
            if d0 is None:
                continue
            for n, v in d.items():
                v0 = d0.get(n)
                if v0 is not None and v0.p is not None and v0.p == v.p and self.map_root(v.p, S1):
                    continue
                if v0 is None or v0.t is not v.t:
                    out.append(('var', f, n))
        for a, c in S1.heap.items():
            c0 = S0.heap.get(a)
            if c0 is None or c0 is c:
                continue
            if c.kind == 'dict' and c.t is None and c0.t is None:
                for kt in set(c.d) | set(c0.d):
                    p, v = c.d.get(kt, (FALSE, BOTV))
                    p0, v0 = c0.d.get(kt, (FALSE, BOTV))
                    if p is not p0 or v.t is not v0.t:
                        out.append(('entry', a, kt))
            elif c.kind == 'inst':
                for n in set(c.d) | set(c0.d):
                    if n not in c0.d or n not in c.d or c.d[n].t is not c0.d[n].t:
                        out.append(('attr', a, n))
            elif c.kind == 'dataset':
                if c.t is not c0.t:
                    out.append(('cell', a))
                for n in set(c.d) | set(c0.d):
                    if n not in c0.d or n not in c.d or c.d[n].t is not c0.d[n].t:
                        out.append(('attr', a, n))
            elif c.kind == 'fwd' or c0.kind == 'fwd':
                if c.kind != c0.kind or c.cls != c0.cls:
                    self.note('container handed over inside a loop')
            elif c.t is not c0.t or c.kind == 'dict':
                out.append(('cell', a))
        return out

    def getloc(self, st, loc):
        if loc[0] == 'var':
            return st.frames[loc[1]].get(loc[2], BOTV)
        if loc[0] == 'cell':
            c = st.heap[loc[1]]
            if c.kind == 'dict' and c.t is None:
                c = self.symdict(c)
            return V(c.t, K(c.kind, c.k))
        if loc[0] == 'entry':
            c = st.heap[loc[1]]
            if c.t is not None:
                return V(opaque('entry', ()))
            return c.d.get(loc[2], (FALSE, BOTV))[1]
        if loc[0] == 'attr':
            c = st.heap[loc[1]]
            return (c.d or {}).get(loc[2], BOTV)
        if loc[0] == 'path':
            t = self.path_read((mk('ref', (loc[1],), self.refty(st, loc[1])), loc[2]), st)
            return V(t, kd.of_ty(t.ty)) if t is not None else BOTV

    def refty(self, st, a):
        return {'dataset': ('dataset', ANY, ANY), 'dict': ('dict', ANY, ANY), 'list': ('seq', ANY)}[st.heap[a].kind]

    def setloc(self, st, loc, v):
        if loc[0] == 'var':
            st.frames[loc[1]][loc[2]] = v
        elif loc[0] == 'cell':
            c = st.heap[loc[1]]
            st.heap[loc[1]] = c.but(t=v.t, k=kd.elem(v.k, None), d=None if c.kind == 'dict' else c.d,
                                      cls='mm' if loc[1] in self.mms else c.cls)
            if c.kind == 'dataset':
                self.refresh(mk('ref', (loc[1],), self.refty(st, loc[1])), st)
        elif loc[0] == 'entry':
            c = st.heap[loc[1]]
            if c.t is None:
                d = dict(c.d)
                d[loc[2]] = (TRUE, v)
                st.heap[loc[1]] = c.but(d=d)
        elif loc[0] == 'attr':
            c = st.heap[loc[1]]
            d = dict(c.d or {})
            d[loc[2]] = v
            st.heap[loc[1]] = c.but(d=d)
        elif loc[0] == 'path':
            self.path_update((mk('ref', (loc[1],), self.refty(st, loc[1])), loc[2]), st, None, lambda t: v.t)

    def locname(self, loc):
        if loc[0] == 'var':
            return 'v:%s' % loc[2]
        if loc[0] == 'cell':
            return 'c:%s' % loc[1]
        return '%s:%s:%s' % (loc[0], loc[1], show(loc[2]) if isinstance(loc[2], T) else loc[2])

    def localise(self, ch, wlog, ins, st, lvids):
        """Replace a changed mapping by the one place inside it that the loop changes."""
        out = []
        for l in ch:
            if l[0] == 'cell' and st.heap[l[1]].kind == 'dataset':
                ws = [k for a, k in wlog if a == l[1]]
                done = [x[2] for x in ins if x[0] == 'path' and x[1] == l[1]]
                if done:
                    if any(not any(k[:len(d)] == d for d in done) for k in ws):
                        self.note('mapping changed in several places')
                    continue
                if ws:
                    pre = ws[0]
                    for k in ws[1:]:
                        n = 0
                        while n < min(len(pre), len(k)) and pre[n] is k[n]:
                            n += 1
                        pre = pre[:n]
                    n = 0
                    while n < len(pre) and not (lvids & pre[n].fv) and not any(x.op == 'var' and str(x.a[0]).startswith('in') and
                                                                               x.a[0] in [v.t.a[0] for v in ins.values()] for x in subterms(pre[n])):
                        n += 1
                    pre = pre[:n]
                    # only a place that is there before the loop (whether it is there afterwards
                    # would otherwise depend on the loop)
                    ref = mk('ref', (l[1],), self.refty(st, l[1]))
                    for n in range(len(pre)):
                        if self.simp(contains(self.map_term((ref, pre[:n]), st), pre[n]), st) is not TRUE:
                            pre = pre[:n]
                            break
                    here = all(not (lvids & y.fv) for y in pre)
                    if pre and here:
                        out.append(('path', l[1], pre))
                        continue
            out.append(l)
        return out

    def inval(self, loc, v0, depth, idx, oty=None):
        """Placeholder for the value of a location at the start of an iteration."""
        t = v0.t
        ty = t.ty
        if loc[0] in ('cell', 'path') and (ty[0] in ('dict', 'dataset') or oty is not None and oty[0] == 'dict'):
            if ty[0] in ('dict', 'dataset') and oty is not None and oty[0] in ('dict', 'dataset'):
                ty = tm.join_ty(('dict',) + tuple(ty[1:]), ('dict',) + tuple(oty[1:]))
            elif oty is not None and ty[0] not in ('dict', 'dataset'):
                ty = oty
        elif loc[0] == 'path' and ty[0] == 'seq':
            ty = tm.join_ty(ty, oty) if oty is not None and ty[1] != ('none!',) else (oty or ty)
        elif loc[0] == 'cell':
            ty = t.ty if t.ty[0] in ('seq', 'set') else ('seq', ANY)
            if ty[0] == 'seq' and ty[1] == ('none!',):
                ty = ('seq', ANY)
        elif ty[0] in ('int', 'num', 'bool'):
            if ty[0] == 'int':
                ty = INT
        if t.op == 'bot':
            ty = ANY
        if t.op == 'const' and t.a[0] in ('none',):
            ty = ANY
        name = 'in%d.%d' % (depth, idx)
        return V(var(name, ty), v0.k)

    def summarise(self, s, levels, guard, ev, st, sc, mod):
        self.cur_loopdepth += 1
        depth = self.cur_loopdepth
        try:
            if depth > 6:
                raise TooBig('loop nesting')
            if len(levels) != 1 or levels[0][1][0] != 'range' or guard is not TRUE:
                self._summarise(s, levels, guard, ev, st, sc, mod, depth)
                return
            save = st.copy()
            save.exits = list(st.exits)
            notes, events, nw = dict(self.notes), dict((k, dict(e)) for k, e in self.events.items()), len(self.wlog)
            mms, pending, seen = set(self.mms), dict(self.pending), self.seen
            self.seen = set()
            big = None
            try:
                self._summarise(s, levels, guard, ev, st, sc, mod, depth)
            except TooBig as e:
                big = e
            first = self.first_only(levels[0][0]) or self.flips(s, save)
            self.seen = seen | self.seen if seen is not None else None
            if (big is not None or self.folded or len(self.notes) > len(notes)) and first:
                st.take(save)
                st.exits = save.exits
                self.notes, self.events = notes, events
                self.mms, self.pending = mms, pending
                del self.wlog[nw:]
                self.peel(s, levels[0], ev, st, sc, mod, depth)
            elif big is not None:
                raise big
        finally:
            self.cur_loopdepth -= 1

    def first_only(self, v):
        """Some branch of the loop body is taken in the first iteration or in all but the first."""
        w = lv(('int', 1), 'w')
        for c in self.seen:
            if v in subterms(c) and tm.isboolleaf(subst(c, v, ZERO)) and tm.isboolleaf(subst(c, v, w)):
                return True
        return False

    def flips(self, s, st):
        """Some variable that the loop reads holds one constant before the loop and is set to another in it."""
        read = set(n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load))
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
                    for x in n.targets:
                        v = next((fr[x.id] for fr in st.frames.values() if x.id in fr), None) if isinstance(x, ast.Name) and x.id in read else None
                        if isinstance(v, V) and tm.isconst(v.t) and v.t is not lift_const(n.value.value):
                            return True
        return False

    def peel(self, s, level, ev, st, sc, mod, depth):
        """The first iteration, then the others."""
        v, (_, n) = level

        def body(A):
            self.assign(s.target, V(subst(ev.t, v, ZERO), ev.k), A, sc, mod)
            self.block(s.body, A, sc, mod)
            self.join_exits(A, 'continue')
            # breaking out of the first iteration skips the others
            brks = [e for e in A.exits if e.kind == 'break']
            A.exits = [e for e in A.exits if e.kind != 'break']
            w = lv(('int', 0), 'i')
            if A.live is not FALSE:
                self._summarise(s, [(w, ('range', sub(n, ONE)))], TRUE, V(subst(ev.t, v, add(w, ONE)), ev.k), A, sc, mod, depth)
            A.exits = A.exits + brks
        outer, st.exits = st.exits, []
        self.branch(st, lt(ZERO, n), body, lambda B: None)
        st.exits = outer + st.exits

    def _summarise(self, s, levels, guard, ev, st, sc, mod, depth):
        ctx_cons = []
        for v, dom in levels:
            if dom[0] == 'range':
                ctx_cons += range_cons(v, dom[1])
        setg = TRUE
        for v, dom in levels:
            if dom[0] == 'set':
                setg = conj(setg, dom[1])

        def run(S, ins, kinds):
            A = S.copy()
            A.cons = S.cons + tuple(ctx_cons)
            A.enter(guard, setg)
            if conj(S.live, guard, setg) is FALSE:
                A.live = FALSE
            w1 = len(self.wlog)
            for loc, v in ins.items():
                self.setloc(A, loc, V(v.t, kinds.get(loc, v.k)))
            del self.wlog[w1:]
            if A.live is FALSE:
                return A
            self.assign(s.target, ev, A, sc, mod)
            self.block(s.body, A, sc, mod)
            self.join_exits(A, 'continue')
            return A
        # 1. which locations does the body modify, and which kinds do they take?
        ins = {}
        kinds = {}
        order = []
        lvids = set(tm.lvid(v) for v, _ in levels)
        for _ in range(6):
            w0 = len(self.wlog)
            A = run(st, ins, kinds)
            wlog = self.wlog[w0:]
            ch = self.changes_vs(st, A, ins)
            ch = self.localise(ch, wlog, ins, st, lvids)
            new = [l for l in ch if l not in ins]
            kch = False
            for l in list(ins):
                k1 = kd.join(kinds[l], self.getloc(A, l).k)
                if k1 != kinds[l]:
                    kinds[l] = k1
                    kch = True
            # breaks/returns may modify too
            for e in A.exits:
                if e.snap is not None:
                    for l in self.changes_vs(st, e.snap, ins):
                        if l not in ins and l not in new:
                            new.append(l)
            if not new and not kch:
                break
            for l in new:
                order.append(l)
                v0 = self.getloc(st, l)
                ins[l] = self.inval(l, v0, depth, len(order), self.getloc(A, l).t.ty)
                kinds[l] = kd.join(v0.k, self.getloc(A, l).k) if v0.t.op != 'bot' else self.getloc(A, l).k
        inner_live = TRUE
        exits = [e for e in A.exits]
        self.adds = {}
        keyed = self.keyed_maps(order, ins, wlog, A, exits, levels, guard, setg, st)
        early = FALSE      # condition (on the element) to leave the loop
        for e in exits:
            early = disj(early, self.strip(e.cond, inner_live))
        inset = {v.t: l for l, v in ins.items()}
        unsure = self.mentions(early, inset)
        # 2. outputs
        outs = {}
        for l in order:
            o = self.getloc(A, l)
            t = o.t
            if early is not FALSE:
                t = constrain(t, neg(early)) if not unsure else t
            t = self.freeze(t, A, st)
            outs[l] = V(constrain(t, conj(guard, setg)) if False else t, o.k)
        if keyed:
            # an entry is written in one iteration only: before it, it holds its initial value
            for l in order:
                if l in keyed:
                    continue
                t = outs[l].t
                for ml in keyed:
                    t = subst(t, ins[ml].t, self.getloc(st, ml).t)
                outs[l] = V(t, outs[l].k)
        raw = dict(outs)
        self.keyed = keyed
        res = self.solve(order, ins, outs, levels, guard, st, s, depth, self.simp_early(early))
        todo = self.unsolved
        self.folded = False
        simple = not unsure and self.exits_simple(exits, order, ins, inset, levels, A, st)
        if todo or not simple:
            self.folded = True
            r2 = self.fold(order, ins, outs if simple else raw, kinds, levels, guard, st, A, [] if simple else exits, inner_live, res, todo)
            if not simple:
                n0 = r2.pop('$exits')
                for l in order:
                    self.setloc(st, l, r2[l])
                self.fold_exits(exits, n0, r2, st)
                return
            res.update(r2)
        # 3. exits
        if exits:
            self.loop_exits(exits, early, unsure, levels, guard, st, s, res, ins, order, inner_live, A)
        for l in order:
            if l in res:
                self.setloc(st, l, res[l])

    def exits_simple(self, exits, order, ins, inset, levels, A, st):
        """Exits whose effect has a closed form (see loop_exits)."""
        lvids = set(tm.lvid(v) for v, _ in levels)
        nret = [e for e in exits if e.kind != 'raise']
        for e in exits:
            if self.mentions(e.cond, inset):
                return False
            if e.kind == 'return':
                if len(exits) > 1 and len(set(z.v.t for z in nret if z.v is not None)) != 1:
                    return False
                t = e.v.t
                if (lvids & t.fv) or self.mentions(t, inset) or any(x.op == 'ref' and x.a[0] not in st.heap for x in subterms(t)):
                    return False
            elif e.kind == 'break':
                if len(nret) > 1:
                    return False
                for l in order:
                    ov = self.getloc(e.snap, l)
                    i = ins[l].t
                    if ov.t is i:
                        if self.getloc(st, l).t.op == 'bot':
                            continue
                        return False
                    if (lvids & ov.t.fv) or self.mentions(ov.t, inset):
                        return False
        return True

    def fold(self, order, ins, outs, kinds, levels, guard, st, A, exits, inner_live, res, todo):
        """State after the loop as folds of the body's transition function."""
        slots = list(order)
        iv = {}
        for l in slots:
            iv[l] = lv(self.fold_ty(ins[l].t.ty, outs[l].t.ty), 'st')
        inits = [self.pure(self.getloc(st, l).t, st) for l in slots]
        ov = [outs[l].t for l in slots]
        kk = [kd.join(kinds.get(l, ins[l].k), outs[l].k) for l in slots]
        m = {ins[l].t: iv[l] for l in slots}
        ivars = [iv[l] for l in slots]
        code = None
        rets = {}
        if exits:
            code = lv(NAT, 'code')
            conds = [self.strip(e.cond, inner_live) for e in exits]
            nc = ZERO
            for n in reversed(range(len(exits))):
                nc = ite(conds[n], num(n + 1), nc)
            live0 = eq(code, ZERO)
            new = []
            for q, l in enumerate(slots):
                t = ov[q]
                for c, e in zip(conds, exits):
                    if e.snap is not None:
                        x = self.freeze(self.getloc(e.snap, l).t, e.snap, st)
                    else:
                        x = ins[l].t
                    t = ite(c, x, t)
                new.append(ite(live0, t, ins[l].t))
            ov = new
            slots.append('$code')
            ivars.append(code)
            inits.append(ZERO)
            kk.append(INTK)
            ov.append(ite(live0, nc, code))
            for n, e in enumerate(exits):
                if e.kind == 'return':
                    x = e.v.t
                    x = self.freeze(self.pure(x, e.snap) if any(z.op == 'ref' and z.a[0] not in st.heap for z in subterms(x)) else x, e.snap, st)
                    r = lv(x.ty if x.ty[0] not in ('ref',) else ANY, 'ret')
                    slots.append(('$ret', n))
                    ivars.append(r)
                    inits.append(BOT)
                    kk.append(e.v.k)
                    ov.append(ite(conj(live0, conds[n]), x, r))
        ov = [substm(self.pure(t, A) if any(z.op == 'ref' and z.a[0] not in st.heap for z in subterms(t)) else t, m) for t in ov]
        out = {}
        qs = [q for q, l in enumerate(slots) if exits or l not in order or l in todo]
        for q, t in zip(qs, tm.mkfolds(levels, guard, ivars, inits, ov, qs)):
            out[slots[q]] = V(t, kk[q])
        if exits:
            out['$exits'] = out['$code']
        return out

    def fold_ty(self, a, b):
        if a[0] in ('int', 'num', 'bool') and b[0] in ('int', 'num', 'bool'):
            return INT if a[0] == 'int' and b[0] == 'int' else NUM
        if a[0] == b[0] and a[0] == 'seq':
            return ('seq', ANY)
        if a[0] == b[0] and a[0] == 'set':
            return ('set', ANY)
        return ANY if a != b else a

    def fold_exits(self, exits, code, r2, st):
        live = st.live
        for n, e in enumerate(exits):
            cc = conj(live, eq(code.t, num(n + 1)))
            if e.kind == 'raise':
                st.exits.append(Exit('raise', cc, e.v, None, e.node))
            elif e.kind == 'return':
                st.exits.append(Exit('return', cc, V(r2[('$ret', n)].t, e.v.k), st.snap(), e.node))
            else:
                S = st.snap()
                S.live = cc
                st.exits.append(Exit('break', cc, None, S, e.node))
        st.live = conj(live, eq(code.t, ZERO))

    def simp_early(self, e):
        return e

    def strip(self, cond, live):
        """Element-level condition of an exit: cond given the live condition."""
        return constrain(cond, live)

    def mentions(self, t, inset):
        if not inset:
            return False
        s = subterms(t)
        return any(x in s for x in inset)

    def changes_vs(self, S0, S1, ins):
        out = []
        for l in self.changes(S0, S1):
            if l in ins:
                continue
            out.append(l)
        return out

    def freeze(self, t, A, st):
        """Replace refs to objects born inside the loop body by their contents."""
        refs = [x for x in subterms(t) if x.op == 'ref' and x.a[0] not in st.heap]
        if not refs:
            return t
        m = {r: self.pure(r, A) for r in refs}
        if t in m:
            return m[t]
        return substm(t, m)

    def over(self, levels, guard, term):
        """Sum of term over the loop's iterations."""
        r = ite(guard, term, ZERO)
        for v, dom in reversed(levels):
            r = SumD(v, dom, r)
        return r

    def seqover(self, levels, guard, term):
        r = ite(guard, term, EMPTY)
        for v, dom in reversed(levels):
            r = comp(v, dom, r)
        return r

    def existsover(self, levels, guard, c):
        return neg(eq(self.over(levels, guard, ite(c, ONE, ZERO)), ZERO))

    def nonempty(self, levels, guard):
        if len(levels) == 1 and guard is TRUE:
            v, dom = levels[0]
            if dom[0] == 'range':
                return lt(ZERO, dom[1])
        return self.existsover(levels, guard, TRUE)

    def solve(self, order, ins, outs, levels, guard, st, s, depth, early):
        res = {}
        inset = {v.t: l for l, v in ins.items()}
        lvids = set(tm.lvid(v) for v, _ in levels)
        todo = list(order)
        single = len(levels) == 1 and levels[0][1][0] == 'range' and guard is TRUE
        for _ in range(len(order) + 2):
            progress = False
            for l in list(todo):
                i = ins[l].t
                o = outs[l].t
                v0 = self.getloc(st, l)
                kind = kd.join(v0.k, outs[l].k) if v0.t.op != 'bot' else outs[l].k
                others = dict((x, y) for x, y in inset.items() if x is not i)
                if o is i:
                    res[l] = V(v0.t, kind)
                    closed = v0.t
                elif self.mentions(o, others):
                    continue
                else:
                    r = self.closed(l, i, o, v0, kind, levels, guard, lvids, single, st, s)
                    if r is None:
                        continue
                    res[l], closed = r
                todo.remove(l)
                progress = True
                # value at the start of an iteration, for the other locations
                if closed is not None:
                    for m2 in todo:
                        if i in subterms(outs[m2].t):
                            outs[m2] = V(subst(outs[m2].t, i, closed), outs[m2].k)
                    for m2 in list(inset):
                        pass
                    del inset[i]
                elif not any(i in subterms(outs[m2].t) for m2 in todo):
                    del inset[i]
            if not progress:
                break
        self.unsolved = todo
        return res

    def closed(self, l, i, o, v0, kind, levels, guard, lvids, single, st, s):
        """(result V, value at start of iteration or None) for one location, or None."""
        has = i in subterms(o)
        lv0 = levels[0][0]

        def prefix(delta):
            if not single:
                return None
            j = lv(('int', 0), 'j')
            return SumD(j, ('range', lv0), subst(delta, lv0, j))
        if not has:
            # assigned afresh each iteration
            ne = self.nonempty(levels, guard)
            inv = not (lvids & o.fv) and not any(a.fv & lvids for a in atoms_of(o))
            if inv:
                r = ite(ne, o, v0.t) if v0.t.op != 'bot' else o
                return V(r, kind), (ite(lt(ZERO, lv0), o, v0.t) if single and v0.t.op != 'bot' else None)
            if single:
                n = levels[0][1][1]
                last = subst(o, lv0, sub(n, ONE))
                r = ite(lt(ZERO, n), last, v0.t) if v0.t.op != 'bot' else last
                cl = ite(lt(ZERO, lv0), subst(o, lv0, sub(lv0, ONE)), v0.t) if v0.t.op != 'bot' else None
                return V(r, kind), cl
            key = substm(o, {v: var('$l%d' % n, v.ty) for n, (v, d) in enumerate(levels)})
            return V(opaque('last', (key,), o.ty), kind), None
        nty = v0.t.ty[0]
        if l[0] != 'cell' and nty in ('int', 'num', 'bool') and not any(x.op in ('seq', 'setc') for x in leaves(o)):
            d = sub(o, i)
            if i not in subterms(d):
                if d.ty[0] in ('int', 'num', 'bool'):
                    tot = self.over(levels, guard, d)
                    p = prefix(d)
                    return V(add(v0.t, tot), kind), (add(v0.t, p) if p is not None else None)
            # boolean flags
            if nty == 'bool':
                f1, f0 = subst(o, i, ONE), subst(o, i, ZERO)
                f1, f0 = (TRUE if numval(f1) == 1 else f1), (FALSE if numval(f0) == 0 else f0)
                try:
                    o1, o0 = truth(subst(o, i, TRUE)), truth(subst(o, i, FALSE))
                    if o1 is TRUE:
                        return V(disj(truth(v0.t), self.existsover(levels, guard, o0)), kind), None
                    if o0 is FALSE:
                        return V(conj(truth(v0.t), neg(self.existsover(levels, guard, neg(o1)))), kind), None
                except ValueError:
                    pass
        if l in self.keyed:
            r = self.closed_map(l, i, o, v0, levels, guard, st)
            if r is not None:
                return V(r, kind), None
            return None
        if l[0] == 'cell':
            c = st.heap[l[1]]
            if c.kind in ('list', 'cm') or (c.kind == 'dict'):
                r = self.closed_list(i, o, v0, kind, levels, guard, single, st, l)
                if r is not None:
                    return r
            if c.kind == 'set':
                x = lv(tm.elemty(o) if tm.elemty(o) != ANY else ANY, 'x')
                q = self.set_growth(contains(o, x), i, x)
                if q is not None and i not in subterms(q):
                    p = self.existsover(levels, guard, q)
                    return V(mkset(x, disj(contains(v0.t, x), p)), kind), None
            return None
        if l[0] in ('var', 'entry', 'attr', 'path') and nty == 'seq' and v0.t.op != 'ref':
            r = self.closed_list(i, o, v0, kind, levels, guard, single, st, l)
            if r is not None:
                return r
        # guarded constant assignment: found = x
        ls = leaves(o)
        rest = [x for x in ls if x is not i]
        if len(rest) == 1 and i not in subterms(rest[0]) and not (lvids & rest[0].fv):
            g = lift_eq(o, rest[0])
            if g is not None and i not in subterms(g):
                return V(ite(self.existsover(levels, guard, g), rest[0], v0.t), kind), None
        return None

    # --- mappings written under a key of their own in every iteration
    def keyed_maps(self, order, ins, wlog, A, exits, levels, guard, setg, st):
        """{location: key} of the mappings the loop writes under one key per iteration,
        and reads under that key only.  Rewrites the exit conditions accordingly."""
        out = {}
        for l in order:
            if l[0] not in ('cell', 'path') or st.heap[l[1]].kind != 'dataset':
                continue
            pre = l[2] if l[0] == 'path' else ()
            i = ins[l].t
            v0 = self.getloc(st, l)
            if i.ty[0] not in ('dict', 'dataset'):
                continue
            ks = set(k[len(pre)] if len(k) > len(pre) else None for a, k in wlog if a == l[1] and k[:len(pre)] == pre)
            if len(ks) != 1 or None in ks:
                continue
            K = ks.pop()
            others = [v.t for x, v in ins.items() if x != l]
            if any(y in subterms(K) for y in others + [i]):
                continue
            o = self.freeze(self.getloc(A, l).t, A, st)
            x = lv(tm.keyty(i, K), 'x')
            parts = [contains(o, x), at(o, x)]
            parts += [self.freeze(self.getloc(A, m).t, A, st) for m in order if m != l]
            parts += [e.cond for e in exits] + [e.v.t for e in exits if e.v is not None]
            if not all(self.reads_only(t, i, (K, x)) for t in parts):
                continue
            inj = self.injective(K, levels)
            if not inj:
                # every later iteration with the same key leaves the loop
                early = FALSE
                for e in exits:
                    early = disj(early, e.cond)
                seen = contains(i, K)
                if len(levels) != 1 or levels[0][1][0] != 'range' or any(e.kind != 'raise' for e in exits):
                    continue
                # when the key is there already the iteration changes nothing
                again = conj(guard, setg, seen, neg(early))
                e0 = eq(x, K)

                def unchanged(a, b):
                    a = constrain(a, again)
                    return a is b or constrain(subst(a, x, K), again) is constrain(subst(b, x, K), again) and \
                        tm.assume(a, e0.a[0] if e0.op == 'ite' else e0, False) is b
                if again is not FALSE and not (unchanged(contains(o, x), contains(i, x)) and unchanged(at(o, x), at(i, x))):
                    continue
                # condition under which an iteration adds its key
                first = conj(guard, setg, neg(seen), neg(early))
                adds = constrain(contains(o, K), first)
                if i in subterms(adds):
                    continue
                self.adds[l] = adds
                v = levels[0][0]
                j = lv(('int', 0), 'j')
                w = conj(subst(conj(guard, adds), v, j), eq(subst(K, v, j), K))
                before = tm.exists(j, ('range', v), w)
                for e in exits:
                    c0 = subst(e.cond, i, v0.t)
                    a = [y for y in atoms_of(e.cond) if y.op == 'in' and y.a[0] is K and y.a[1].op == 'app' and y.a[1].a[1] is i]
                    if a:
                        e.cond = ite(disj(contains(v0.t, K), before), subst(drop(e.cond, a[0], True), i, v0.t), subst(drop(e.cond, a[0], False), i, v0.t))
                    else:
                        e.cond = c0
            else:
                for e in exits:
                    e.cond = subst(e.cond, i, v0.t)
            out[l] = K
        return out

    def reads_only(self, t, i, keys):
        """Every use of the mapping i in t is a look-up of one of the keys."""
        if i not in subterms(t):
            return True
        def look(u):
            if u.op == 'at':
                return u.a[0] is i and u.a[1] in keys
            return u.op == 'in' and u.a[0] in keys and u.a[1].op == 'app' and u.a[1].a[0] == 'keys' and u.a[1].a[1] is i
        seen = set()
        stack = [t]
        while stack:
            u = stack.pop()
            if id(u) in seen or look(u):
                continue
            seen.add(id(u))
            if u is i:
                return False
            stack.extend(kids(u))
        return True

    def injective(self, K, levels):
        """Different iterations have different keys."""
        if len(levels) != 1:
            return False
        v, dom = levels[0]
        vid = tm.lvid(v)

        def inj(t):
            if t is v:
                return True
            if t.op == 'seq':
                ps = [s for s in t.a if any(vid in y.fv for y in s[1:] if isinstance(y, T))]
                return len(ps) == 1 and ps[0][0] == 'one' and inj(ps[0][1])
            if t.op == 'app' and t.a[0] in ('str', 'strcat', 'join', 'tuple'):
                ps = [y for y in t.a[1:] if isinstance(y, T) and vid in y.fv]
                return len(ps) == 1 and inj(ps[0])
            if t.op == 'at' and t.a[1] is v and vid not in t.a[0].fv:
                s = t.a[0]
                return s.op == 'app' and (s.a[0] in ('sorted', 'list') and s.a[1].ty[0] == 'set' or
                                          s.a[0] == 'ext' and s.a[1] is const('os.listdir'))
            return False
        return inj(K)

    def closed_map(self, l, i, o, v0, levels, guard, st):
        K = self.keyed[l]
        m0 = v0.t
        x = lv(tm.keyty(i, K), 'x')
        pres = subst(contains(o, K), i, m0)
        val = subst(at(o, K), i, m0)
        if len(levels) == 1 and levels[0][1][0] == 'set' and K is levels[0][0]:
            v, dom = levels[0]
            hit = subst(conj(dom[1], guard), v, x)
            p, w = subst(pres, v, x), subst(val, v, x)
        elif l in self.adds:
            # some iterations add their key, and no two of these the same
            c = conj(self.adds[l], eq(K, x))
            hit = self.existsover(levels, guard, c)
            p = TRUE
            w = at(self.seqover(levels, conj(guard, c), one(val)), ZERO)
        else:
            same = conj(guard, eq(K, x))
            hit = self.existsover(levels, guard, eq(K, x))
            p = TRUE if pres is TRUE else self.existsover(levels, guard, conj(eq(K, x), pres))
            w = at(self.seqover(levels, same, one(val)), ZERO)
        return tm.mkmap(x, ite(hit, p, contains(m0, x)), ite(hit, w, at(m0, x)))

    def set_growth(self, pred, i, x):
        """q(x) such that pred(x) == (x in i) or q(x), or None."""
        ia = [a for a in atoms_of(pred) if a.op == 'in' and a.a[1] is i]
        me = [a for a in ia if a.a[0] is x]
        if len(me) > 1 or len(ia) > 4:
            return None
        if not me:
            return None
        yes = drop(pred, me[0], True)
        no = drop(pred, me[0], False)
        for a in ia:
            if a is me[0]:
                continue
            e = eq(x, a.a[0])
            if not self.always(constrain(drop(yes, a, True), e)):
                return None
            ne = neg(e)
            if not self.always(constrain(drop(yes, a, True), ne)) or not self.always(constrain(drop(yes, a, False), ne)):
                return None
            q1 = constrain(drop(no, a, False), e)
            q0, q2 = constrain(drop(no, a, False), ne), constrain(drop(no, a, True), ne)
            if q0 is not q2:
                return None
            yes = TRUE
            no = ite(e, q1, q0)
        return no if yes is TRUE else None

    def always(self, c):
        return c is TRUE

    def closed_list(self, i, o, v0, kind, levels, guard, single, st, l):
        def delta(leaf):
            segs = tm.segs_of(leaf)
            if segs and segs[0][0] == 'spl' and segs[0][1] is i:
                r = tm.mkseq(segs[1:])
                return r
            return None
        ok = True
        for x in leaves(o):
            d = delta(x)
            if d is None or (i in subterms(d)):
                ok = False
        if ok:
            d = lift(delta, o)
            if i not in subterms(d):
                tot = self.seqover(levels, guard, d)
                cl = None
                if single:
                    j = lv(('int', 0), 'j')
                    cl = concat([v0.t, comp(j, ('range', levels[0][0]), subst(d, levels[0][0], j))])
                return V(concat([v0.t, tot]), kind), cl
        # indexed set additions: s[idx].add(x)
        n0 = length(v0.t)
        m = {mk('len', (i,), NAT): n0}
        o2 = substm(o, m)
        ups = []

        def walk(x, g):
            if x is i:
                return True
            if x.op == 'app' and x.a[0] == 'setadd':
                ups.append((g, x.a[2], x.a[3]))
                return walk(x.a[1], g)
            return False
        good = True
        for lits, leaf in tm.leaf_paths(o2):
            g = TRUE
            for a, b in lits:
                g = conj(g, atomise(a) if b else neg(atomise(a)))
            if not walk(leaf, g):
                good = False
        if good and ups and not any(i in subterms(y) for u in ups for y in u):
            k = lv(('int', 0), 'k')
            base = at(v0.t, k)
            x = lv(ups[0][2].ty if ups[0][2].ty[0] != 'int' else INT, 'x')
            p = contains(base, x)
            for g, idx, val in ups:
                hit = conj(g, eq(idx, k), eq(val, x))
                p = disj(p, self.existsover(levels, guard, hit))
            new = comp(k, ('range', n0), one(mkset(x, p)))
            return V(new, kind), None
        return None

    def loop_exits(self, exits, early, unsure, levels, guard, st, s, res, ins, order, inner_live, A):
        lvids = set(tm.lvid(v) for v, _ in levels)
        inset = {v.t: l for l, v in ins.items()}
        if unsure or any(self.mentions(e.cond, inset) for e in exits):
            # depends on loop state: unknown exit condition
            key = (const(self.where[-1][0]), const(s.lineno))
            cs = []
            for n, e in enumerate(exits):
                closed = substm(e.cond, {v: var('$x%d' % q, v.ty) for q, (v, d) in enumerate(levels)})
                cs.append((e, atomise(mk('truth', (opaque('exit', (const(n), closed)),), BOOL))))
        else:
            cs = [(e, self.existsover(levels, guard, self.strip(e.cond, inner_live))) for e in exits]
        body_live = st.live
        anyexit = FALSE
        for e, c in cs:
            if c is FALSE:
                continue
            cc = conj(body_live, neg(anyexit), c)
            if e.kind == 'raise':
                st.exits.append(Exit('raise', cc, e.v, None, e.node))
            elif e.kind == 'return':
                t = e.v.t
                tt = self.freeze(self.pure(t, e.snap) if any(x.op == 'ref' and x.a[0] not in st.heap for x in subterms(t)) else t, A, st)
                if (lvids & tt.fv) or self.mentions(tt, inset) or len(cs) > 1:
                    if len(set(z.v.t for z, _ in cs if z.v is not None)) == 1 and not (lvids & tt.fv) and not self.mentions(tt, inset):
                        val = V(tt, e.v.k)
                    else:
                        cl = substm(tt, {v: var('$x%d' % q, v.ty) for q, (v, d) in enumerate(levels)})
                        cl2 = substm(e.cond, {v: var('$x%d' % q, v.ty) for q, (v, d) in enumerate(levels)})
                        val = V(opaque('first', (cl, cl2), tt.ty), e.v.k)
                else:
                    val = V(tt, e.v.k)
                st.exits.append(Exit('return', cc, val, st.snap(), e.node))
            else:   # break
                S = st.snap()
                for l in order:
                    ov = self.getloc(e.snap, l)
                    i = ins[l].t
                    if ov.t is i:
                        # unchanged on the break path: value accumulated so far
                        if l in res and res[l].t is self.getloc(st, l).t:
                            continue
                        w = V(opaque('atbreak', (const(self.locname(l)), const(s.lineno), self.pure(self.getloc(st, l).t, st))), ov.k)
                        self.setloc(S, l, w)
                    elif not (lvids & ov.t.fv) and not self.mentions(ov.t, inset):
                        self.setloc(S, l, ov)
                    else:
                        cl = substm(ov.t, {v: var('$x%d' % q, v.ty) for q, (v, d) in enumerate(levels)})
                        self.setloc(S, l, V(opaque('atbreak', (cl,)), ov.k))
                S.live = cc
                st.exits.append(Exit('break', cc, None, S, e.node))
            anyexit = disj(anyexit, c)
        st.live = conj(body_live, neg(anyexit))

    def s_While(self, s, st, sc, mod):
        if self.counter_while(s, st, sc, mod):
            return
        self.note('while loop', s)
        A = st.copy()
        self.expr(s.test, A, sc, mod)
        self.block(s.body, A, sc, mod)
        key = []
        for l in self.changes(st, A):
            key.append(l)
        B = st.copy()
        for n, l in enumerate(key):
            self.setloc(B, l, V(var('w%d.%d' % (self.cur_loopdepth, n), ANY), ANYK))
        c = self.cond(s.test, B, sc, mod)
        self.block(s.body, B, sc, mod)
        flat = [self.pure(self.getloc(st, l).t, st) for l in key] + [self.freeze(self.getloc(B, l).t, B, st) for l in key]
        for n, l in enumerate(key):
            self.setloc(st, l, V(opaque('while', (const(n), c) + tuple(flat)), ANYK))
        for e in A.exits:
            if e.kind in ('raise', 'return'):
                x = atomise(mk('truth', (opaque('exit', (const(self.where[-1][0]), const(s.lineno))),), BOOL))
                st.exits.append(Exit(e.kind, conj(st.live, x), V(opaque('exitval', ())) if e.kind == 'return' else e.v, st.snap() if e.kind == 'return' else None, e.node))
                st.live = conj(st.live, neg(x))

    def counter_while(self, s, st, sc, mod):
        """while i < N: ...; i += c   -> for loop over a range."""
        t = s.test
        if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return False
        if isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)) and isinstance(t.left, ast.Name):
            nm, bound, ty = t.left.id, t.comparators[0], type(t.ops[0])
        elif isinstance(t.ops[0], (ast.Gt, ast.GtE)) and isinstance(t.comparators[0], ast.Name):
            nm, bound, ty = t.comparators[0].id, t.left, ast.Lt if isinstance(t.ops[0], ast.Gt) else ast.LtE
        else:
            return False
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and
                last.target.id == nm and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return False
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id == nm and isinstance(n.ctx, ast.Store):
                    return False
                if isinstance(n, ast.Continue):
                    return False
        stored = set(n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
        for n in ast.walk(bound):
            if isinstance(n, ast.Name) and n.id in stored:
                return False
        v0 = self.name(nm, st, sc, s)
        if v0.t.ty[0] != 'int':
            return False
        hi = self.expr(bound, st, sc, mod)
        if hi.t.ty[0] not in ('int', 'num'):
            return False
        n = sub(hi.t, v0.t)
        if ty is ast.LtE:
            n = add(n, ONE)
        i = lv(('int', 0), 'i')
        f = ast.For(target=ast.Name(id=nm, ctx=ast.Store()), iter=bound, body=s.body[:-1] or [ast.Pass()], orelse=[])
        ast.copy_location(f, s)
        ast.fix_missing_locations(f)
        outer, st.exits = st.exits, []
        self.summarise(f, [(i, ('range', n))], TRUE, V(add(v0.t, i), INTK), st, sc, mod)
        brks = [e for e in st.exits if e.kind == 'break']
        st.exits = [e for e in st.exits if e.kind != 'break']
        if st.live is not FALSE:
            self.setname(nm, V(ite(lt(ZERO, n), hi.t if ty is not ast.LtE else add(hi.t, ONE), v0.t), INTK), st, sc)
        self.rejoin(st, brks)
        st.exits = outer + st.exits
        return True

    # ------------------------------------------------------------- iteration
    def iterterm(self, v, st):
        """Sequence term enumerated by iterating over v."""
        def f(t):
            if t.op == 'ref':
                c = st.heap.get(t.a[0])
                if c is None:
                    return opaque('dangling', (), ('seq', ANY))
                if c.kind == 'list':
                    return f2(c.t)
                if c.kind == 'set':
                    return setseq(c.t)
                if c.kind == 'dict':
                    if c.t is not None:
                        return self.mm_keys(c)
                    return concat([ite(p, one(kt), EMPTY) for kt, (p, _) in c.d.items()]) if c.d else EMPTY
                if c.kind == 'dataset':
                    return f2(self.content(t, st))
                return opaque('iter', (self.content(t, st),), ('seq', ANY))
            return f2(t)

        def f2(t):
            if t.op == 'ite' or t.op == 'ref':
                return lift(f, t)
            if t.op == 'const' and t.a[0] == 'str':
                return concat([one(const(ch)) for ch in t.a[1]])
            k = t.ty[0]
            if k == 'set':
                return setseq(t)
            if k in ('dict', 'dataset', 'cm'):
                if t.op == 'dictv':
                    if t.a[0] == 'known':
                        return concat([ite(p, one(kt), EMPTY) for kt, p, _ in t.a[1:]])
                    return opaque('iterdict', (t,), ('seq', ANY))
                return setseq(tm.keys_of(t))
            if k in ('seq', 'str', 'any', 'tup'):
                return t
            return opaque('iter', (t,), ('seq', ANY))
        return lift(f, v.t)

    def mm_groups(self, c):
        from . import builtins_model as bm
        return bm.mmgroups(self, c)

    def mm_keys(self, c):
        def key(p):
            return at(p, ZERO)
        return mapseq(c.t, lambda e: key(e))

    def gens(self, v, st, node):
        """[(levels, guard, elem V)] for iteration over v, or None."""
        s = self.iterterm(v, st)
        ek = kd.elem(v.k)
        if v.k.b & frozenset(['dict', 'Dataset', 'ConfusionMatrix']):
            ek = STRK if 'Dataset' in v.k.b else ANYK
        out = []
        if s.op == 'bot':
            return []
        if s.op == 'ite':
            s = self.empties(s)
        ls = leaves(s)
        if s.op == 'ite' and all(self.indexable(x) for x in ls) and not any(x is EMPTY for x in ls):
            i = lv(('int', 0), 'i')
            return [([(i, ('range', length(s)))], TRUE, V(at(s, i), ek))]
        for lits, leaf in tm.leaf_paths(s, 40):
            g = TRUE
            for a, b in lits:
                if leaf.op != 'seq' and leaf.op != 'bot' and leaf.ty[0] == 'seq':
                    # a longer sequence than the empty one tells
                    m = intval(tm.assume(length(leaf), a, not b))
                    if m is not None and m <= 0:
                        continue
                g = conj(g, atomise(a) if b else neg(atomise(a)))
            r = self.gens_leaf(leaf, ek, v)
            if r is None:
                return None
            for levels, gg, e in r:
                out.append((levels, conj(g, gg), e))
        if len(out) > 40:
            return None
        return out

    def empties(self, s):
        """Leaves that are empty where they apply, as such."""
        def go(t):
            if t.op == 'ite':
                hi, lo = go(t.a[1]), go(t.a[2])
                if hi.op not in ('ite', 'seq', 'bot') and hi.ty[0] == 'seq' and tm.assume(length(hi), t.a[0], True) is ZERO:
                    hi = EMPTY
                if lo.op not in ('ite', 'seq', 'bot') and lo.ty[0] == 'seq' and tm.assume(length(lo), t.a[0], False) is ZERO:
                    lo = EMPTY
                return t if hi is t.a[1] and lo is t.a[2] else tm.mkite(t.a[0], hi, lo)
            return t
        return go(s)

    def indexable(self, t):
        if t.op == 'seq':
            return len(t.a) == 1 and t.a[0][0] == 'comp' and t.a[0][1] == 'range' and \
                t.a[0][3].op == 'seq' and len(t.a[0][3].a) == 1 and t.a[0][3].a[0][0] == 'one'
        return t.ty[0] in ('seq', 'str', 'any', 'tup') and t.op not in ('const', 'bot')

    def pick(self, es, j):
        """The j-th of the elements, for j in range."""
        if not es:
            return BOT
        t = es[-1]
        for n in range(len(es) - 2, -1, -1):
            t = ite(eq(j, tm.num(n)), es[n], t)
        return t

    def gens_leaf(self, t, ek, v=None):
        if t.op == 'bot' or t.op == 'undef':
            return []
        if t.op != 'seq':
            if t.op == 'const':
                return None
            es = tm.ones(t)
            if es is not None:
                its = v.k.items if v is not None and v.k.items is not None and len(v.k.items) == len(es) else None
                return [([], TRUE, V(x, its[n] if its else ek)) for n, x in enumerate(es)]
            i = lv(('int', 0), 'i')
            if t.op == 'app' and t.a[0] == 'list' and t.a[1].ty[0] == 'set':
                pass
            return [([(i, ('range', length(t)))], TRUE, V(at(t, i), ek))]
        out = []
        items = v.k.items if v is not None and v.k.items is not None and len(v.k.items) == len(t.a) else None
        for n, sg in enumerate(t.a):
            if sg[0] == 'one':
                out.append(([], TRUE, V(sg[1], items[n] if items else ek)))
            elif sg[0] == 'spl':
                r = self.gens_leaf(sg[1], ek)
                if r is None:
                    return None
                out += r
            else:
                x, dom, body = tm.open_seg(t, sg)
                r = self.gens_body([(x, dom)], body, ek)
                if r is None:
                    return None
                out += r
        return out

    def gens_body(self, levels, body, ek):
        ls = leaves(body)
        if body.op == 'ite' and all(y.op == 'seq' and (not y.a or (len(y.a) == 1 and y.a[0][0] == 'one')) for y in ls):
            g = lift(lambda y: FALSE if not y.a else TRUE, body)
            e = lift(lambda y: BOT if not y.a else y.a[0][1], body)
            return [(levels, g, V(e, ek))]
        if body.op == 'ite' and all(tm.ones(y) is not None for y in ls):
            top = max(len(tm.ones(y)) for y in ls)
            j = lv(('int', 0), 'j')
            e = lift(lambda y: self.pick(tm.ones(y), j), body)
            return [(levels + [(j, ('range', tm.num(top)))], tm.lt(j, length(body)), V(e, ek))]
        if body.op == 'ite':
            # alternatives that run over the same elements
            first, by = None, {}
            for y in ls:
                if y is EMPTY:
                    by[y] = y
                    continue
                if y.op != 'seq' or len(y.a) != 1 or y.a[0][0] != 'comp':
                    return None
                x, dom, b = tm.open_seg(y, y.a[0])
                if first is None:
                    first = (x, dom)
                elif (dom[0], tm.subst(dom[1], x, first[0])) != first[1]:
                    return None
                by[y] = tm.subst(b, x, first[0])
            return self.gens_body(levels + [first], lift(lambda y: by[y], body), ek)
        if body.op == 'seq' and len(body.a) > 1:
            if any(y[0] != 'one' for y in body.a):
                return None
            j = lv(('int', 0), 'j')
            return [(levels + [(j, ('range', tm.num(len(body.a))))], TRUE, V(at(body, j), ek))]
        r = self.gens_leaf(body, ek)
        if r is None:
            return None
        return [(levels + more, gg, e) for more, gg, e in r]

    # ------------------------------------------------------------- expressions
    def expr(self, e, st, sc, mod):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note('expression ' + type(e).__name__, e)
            return V(opaque('expr', (const(type(e).__name__), const(self.where[-1][0]), const(e.lineno))), ANYK)
        v = m(e, st, sc, mod)
        if v.t.op == 'ref':
            v = self.place(v, st)
        if not self.trial and v.t.op not in ('const', 'num', 'fn', 'ref', 'var'):
            self.origin.setdefault(v.t, self.loc(e))
        return v

    def e_Constant(self, e, st, sc, mod):
        v = e.value
        if isinstance(v, float):
            return V(const(v), FLOATK)
        if isinstance(v, complex):
            return V(opaque('complex', ()), ANYK)
        t = const(v)
        return V(t, K('bytes') if isinstance(v, bytes) else kd.of_ty(t.ty))

    def place(self, v, st):
        """A value that was put into a mapping is from then on that mapping's entry."""
        if v.t.op == 'ref':
            c = st.heap.get(v.t.a[0])
            if c is not None and c.kind == 'fwd':
                t = self.path_read(c.cls, st)
                return V(t if t is not None else opaque('dangling', (), v.t.ty), v.k, c.cls)
        return v

    def e_Name(self, e, st, sc, mod):
        return self.name(e.id, st, sc, e)

    def lookup(self, n, st, sc):
        for f in sc:
            fr = st.frames.get(f)
            if fr is None:
                fr = self.state0.frames.get(f, {})
            v = fr.get(n)
            if v is not None:
                return v
        return None

    def name(self, n, st, sc, node):
        v = self.lookup(n, st, sc)
        if v is not None:
            v = self.resolve(v)
            return self.place(v, st)
        if n in BUILTINS:
            return self.builtin(n)
        if n in EXCEPTIONS:
            return self.ext(n)
        self.note('unbound name ' + n, node)
        return V(opaque('unbound', (const(n),)), ANYK)

    def e_Tuple(self, e, st, sc, mod):
        return self.mklit(e, st, sc, mod, 'tuple')

    def e_List(self, e, st, sc, mod):
        v = self.mklit(e, st, sc, mod, 'list')
        r = self.newlist(st, v.t, v.k.e)
        r.k = K('list', v.k.e, v.k.items)
        return r

    def mklit(self, e, st, sc, mod, kind):
        parts, ks = [], []
        star = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, st, sc, mod)
                parts.append(self.iterterm(v, st))
                ks.append(kd.elem(v.k))
                star = True
            else:
                v = self.expr(x, st, sc, mod)
                parts.append(one(v.t))
                ks.append(v.k)
        ek = None
        for k in ks:
            ek = kd.join(ek, k)
        return V(concat(parts), K(kind, ek, None if star else tuple(ks)))

    def e_Set(self, e, st, sc, mod):
        vs = [self.expr(x, st, sc, mod) for x in e.elts]
        ek = None
        for v in vs:
            ek = kd.join(ek, v.k)
        return self.newset(st, setlit([self.pure(v.t, st) for v in vs]), ek)

    def e_Dict(self, e, st, sc, mod):
        d = self.newdict(st)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.expr(v, st, sc, mod), st, e)
                continue
            kv = self.expr(k, st, sc, mod)
            self.setitem(d, kv, self.expr(v, st, sc, mod), st, e)
        return d

    def newdict(self, st):
        r = self.alloc(st, 'dict', d={}, k=None)
        return V(r, K('dict', None))

    def e_JoinedStr(self, e, st, sc, mod):
        parts = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                parts.append(self.pure(self.expr(x.value, st, sc, mod).t, st))
            else:
                parts.append(self.expr(x, st, sc, mod).t)
        return V(fmt(parts), STRK)

    def e_FormattedValue(self, e, st, sc, mod):
        return self.expr(e.value, st, sc, mod)

    def e_Starred(self, e, st, sc, mod):
        return self.expr(e.value, st, sc, mod)

    def e_NamedExpr(self, e, st, sc, mod):
        v = self.expr(e.value, st, sc, mod)
        self.assign(e.target, v, st, sc, mod)
        return v

    def e_Lambda(self, e, st, sc, mod):
        return self.mkfn(e, '<lambda>', st, sc, mod)

    def e_IfExp(self, e, st, sc, mod):
        c = self.cond(e.test, st, sc, mod)
        return self.branch(st, c, lambda A: self.expr(e.body, A, sc, mod),
                           lambda B: self.expr(e.orelse, B, sc, mod))

    def cond(self, e, st, sc, mod):
        """Evaluate e as a condition: BDD."""
        if isinstance(e, ast.BoolOp):
            v = self.boolop(e, st, sc, mod, True)
            return v
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return neg(self.cond(e.operand, st, sc, mod))
        v = self.expr(e, st, sc, mod)
        return self.simp(self.truthv(v, st), st)

    def truthv(self, v, st):
        def f(t):
            if t.op == 'ref':
                c = st.heap.get(t.a[0])
                if c is None:
                    return TRUE
                if c.kind == 'dict' and c.t is None:
                    return disj(*[p for p, _ in c.d.values()])
                if c.kind in ('list', 'set'):
                    return neg(eq(length(c.t), ZERO))
                if c.kind == 'dict':
                    return neg(eq(length(c.t), ZERO))
                if c.kind == 'inst':
                    return TRUE
                return atomise(mk('truth', (self.content(t, st),), BOOL))
            return truth(t)
        return lift(f, v.t)

    def boolop(self, e, st, sc, mod, ascond):
        isand = isinstance(e.op, ast.And)
        if ascond:
            def go(i, S):
                c = self.cond(e.values[i], S, sc, mod)
                if i == len(e.values) - 1 or S.live is FALSE:
                    return c
                if isand:
                    if c is FALSE:
                        return FALSE
                    r = self.branch(S, c, lambda A: V(go(i + 1, A), BOOLK), lambda B: V(FALSE, BOOLK))
                else:
                    if c is TRUE:
                        return TRUE
                    r = self.branch(S, c, lambda A: V(TRUE, BOOLK), lambda B: V(go(i + 1, B), BOOLK))
                return r.t
            return go(0, st)

        def gov(i, S):
            v = self.expr(e.values[i], S, sc, mod)
            if i == len(e.values) - 1:
                return v
            c = self.truthv(v, S)
            if isand:
                return self.branch(S, c, lambda A: gov(i + 1, A), lambda B: v)
            return self.branch(S, c, lambda A: v, lambda B: gov(i + 1, B))
        return gov(0, st)

    def e_BoolOp(self, e, st, sc, mod):
        return self.boolop(e, st, sc, mod, False)

    def e_UnaryOp(self, e, st, sc, mod):
        if isinstance(e.op, ast.Not):
            return V(neg(self.cond(e.operand, st, sc, mod)), BOOLK)
        v = self.expr(e.operand, st, sc, mod)
        if isinstance(e.op, ast.USub):
            return V(tm.negn(v.t), v.k)
        if isinstance(e.op, ast.UAdd):
            return v
        return V(opaque('invert', (self.pure(v.t, st),)), ANYK)

    def e_Compare(self, e, st, sc, mod):
        left = self.expr(e.left, st, sc, mod)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.expr(c, st, sc, mod)
            b = self.compare(op, left, right, st, e)
            r = conj(r, b)
            left = right
        return V(r, BOOLK)

    def numeric(self, v):
        return all(x.ty[0] in ('int', 'num', 'bool') or x.op in ('undef', 'bot') for x in leaves(v.t))

    def asnum(self, v, st):
        """Numeric reading of a value term (any-typed values become numbers)."""
        def f(t):
            if t.ty[0] in ('int', 'num', 'bool') or t.op in ('undef', 'bot'):
                return t
            if t.ty[0] == 'any':
                return mk('app', ('num', t), NUM)
            return opaque('notnum', (self.pure(t, st),), NUM)
        return lift(f, v.t)

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            if isinstance(op, (ast.Is, ast.IsNot)):
                self.event('identity', st, node, left=a, right=b)
                if a.t.op == 'ref' == b.t.op and st.heap.get(a.t.a[0]) is not None and st.heap.get(b.t.a[0]) is not None:
                    c = TRUE if a.t is b.t else FALSE
                    return c if isinstance(op, ast.Is) else neg(c)
            ta, tb = self.pure(a.t, st), self.pure(b.t, st)
            c = eq(ta, tb)
            return c if isinstance(op, (ast.Eq, ast.Is)) else neg(c)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.containsv(b, a, st)
            return c if isinstance(op, ast.In) else neg(c)
        sa, sb = self.seqof(a, st), self.seqof(b, st)
        if any(x.ty[0] == 'set' for x in leaves(sa)) and any(x.ty[0] == 'set' for x in leaves(sb)):
            # subset tests
            if isinstance(op, (ast.LtE, ast.GtE)):
                x, y = (sa, sb) if isinstance(op, ast.LtE) else (sb, sa)
                return eq(length(diff(x, y)), ZERO)
            return atomise(mk('truth', (opaque('setcmp', (sa, sb)),), BOOL))
        x, y = self.asnum(a, st), self.asnum(b, st)
        if isinstance(op, ast.Lt):
            return lt(x, y)
        if isinstance(op, ast.LtE):
            return le(x, y)
        if isinstance(op, ast.Gt):
            return lt(y, x)
        return le(y, x)

    def containsv(self, c, x, st):
        xt = self.pure(x.t, st)

        def f(t):
            if t.op == 'ref':
                cell = st.heap.get(t.a[0])
                if cell is None:
                    return atomise(mk('truth', (opaque('in', ()),), BOOL))
                if cell.kind == 'dict':
                    if cell.t is None:
                        r = FALSE
                        for kt, (p, _) in cell.d.items():
                            r = disj(r, conj(eq(kt, xt), p))
                        return r
                    if cell.cls == 'mm':
                        return contains(self.mm_keys(cell), xt)
                    return tm.haskey(self.pure(cell.t, st), xt)
                if cell.kind in ('list', 'set', 'dataset'):
                    return contains(self.pure(cell.t, st), xt)
                return atomise(mk('in', (xt, self.content(t, st)), BOOL))
            if t.op == 'dictv' and t.a[0] == 'known':
                r = FALSE
                for kt, p, _ in t.a[1:]:
                    r = disj(r, conj(eq(kt, xt), p))
                return r
            return contains(t, xt)
        return lift(f, c.t)

    def e_BinOp(self, e, st, sc, mod):
        a = self.expr(e.left, st, sc, mod)
        b = self.expr(e.right, st, sc, mod)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        n = type(op).__name__
        r, c = self.single_ref(a, st)
        if c is not None and c.kind == 'dataset':
            m = self.class_method(c.cls, {'Add': '__add__', 'BitOr': '__or__', 'Sub': '__sub__'}.get(n, ''))
            if m is not None:
                return self.call(m, [a, b], {}, st, node)
        sa, sb = self.seqof(a, st), self.seqof(b, st)
        ka = set(x.ty[0] for x in leaves(sa))
        kb = set(x.ty[0] for x in leaves(sb))
        if n == 'Mod' and 'str' in ka:
            return V(app('strformat', (self.pure(a.t, st), self.pure(b.t, st)), STR), STRK)
        if n in ('BitOr', 'BitAnd', 'BitXor', 'Sub') and ('set' in ka or 'set' in kb):
            f = {'BitOr': union, 'BitAnd': inter, 'BitXor': symdiff, 'Sub': diff}[n]
            kind = 'set' if 'set' in a.k.b else 'frozenset'
            return self.own(V(f(self.pure(sa, st), self.pure(sb, st)), K(a.k.b & frozenset(['set', 'frozenset']) or kind, kd.join(kd.elem(a.k, None), kd.elem(b.k, None)))), st)
        if n in ('BitOr', 'BitAnd', 'BitXor') and ka == kb == set(['bool']):
            ta, tb = truth(a.t), truth(b.t)
            f = {'BitOr': disj, 'BitAnd': conj, 'BitXor': lambda p, q: ite(p, neg(q), q)}[n]
            return V(f(ta, tb), BOOLK)
        if n == 'Add' and ('seq' in ka or 'seq' in kb):
            kind = a.k.b & b.k.b & frozenset(['tuple', 'list']) or ('tuple' if 'tuple' in a.k.b else 'list')
            return self.own(V(concat([sa, sb]), K(kind, kd.join(kd.elem(a.k, None), kd.elem(b.k, None)))), st)
        if n == 'Add' and ('str' in ka or 'str' in kb):
            return V(fmt([self.pure(a.t, st), self.pure(b.t, st)]), STRK)
        if n == 'Mult' and ('seq' in ka or 'seq' in kb):
            s, c, sk = (sa, b, a.k) if 'seq' in ka else (sb, a, b.k)
            i = lv(('int', 0), 'i')
            return self.own(V(comp(i, ('range', self.asnum(c, st)), s), K(sk.b, kd.elem(sk, None))), st)
        if n == 'Mult' and ('str' in ka or 'str' in kb):
            return V(app('strmul', (self.pure(a.t, st), self.pure(b.t, st)), STR), STRK)
        x, y = self.asnum(a, st), self.asnum(b, st)
        ar = {'Div': 'div'}.get(n, 'x')
        k, prob = kd.arith(ar, a.k, b.k)
        for p in prob:
            self.event('mixed', st, node, left=repr(a.k), right=repr(b.k))
        if n == 'Add':
            return V(add(x, y), k)
        if n == 'Sub':
            return V(sub(x, y), k)
        if n == 'Mult':
            return V(mul(x, y), k)
        if n == 'Div':
            self.event('div', st, node, num=x, den=y, res=repr(k))
            self.divzero(y, st, node)
            return V(div(x, y), k)
        if n == 'Pow':
            p = intval(y)
            if p is not None and 0 <= p <= 6:
                return V(power(x, p), k)
            if numval(y) == Fraction(1, 2):
                return V(app('sqrt', (x,), NUM), k)
            return V(app('pow', (x, y), NUM), k)
        if n == 'FloorDiv':
            self.event('div', st, node, num=x, den=y, res=repr(k))
            self.divzero(y, st, node)
            return V(app('floordiv', (x, y), INT if tm.isint(x) and tm.isint(y) else NUM), k)
        if n == 'Mod':
            self.event('div', st, node, num=x, den=y, res=repr(k))
            self.divzero(y, st, node)
            return V(app('mod', (x, y), INT if tm.isint(x) and tm.isint(y) else NUM), k)
        return V(opaque('binop', (const(n), x, y)), ANYK)

    # --- comprehensions
    def e_ListComp(self, e, st, sc, mod):
        t, k = self.comprehend(e.generators, e.elt, st, sc, mod)
        return self.newlist(st, t, k)

    def e_GeneratorExp(self, e, st, sc, mod):
        t, k = self.comprehend(e.generators, e.elt, st, sc, mod)
        return V(t, K('iter', k))

    def e_SetComp(self, e, st, sc, mod):
        t, k = self.comprehend(e.generators, e.elt, st, sc, mod)
        return self.newset(st, to_set(self.pure(t, st)), k)

    def e_DictComp(self, e, st, sc, mod):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(pair, e)
        t, k = self.comprehend(e.generators, pair, st, sc, mod)
        vk = k.items[1] if k is not None and k.items and len(k.items) == 2 else ANYK
        d = self.newdict(st)
        r, c = self.single_ref(d, st)
        es = ones(t)
        if es is not None and all(ones(x) and tm.isconst(ones(x)[0]) for x in es):
            st.heap[r.a[0]] = c.but(d={ones(x)[0]: (TRUE, V(ones(x)[1], vk)) for x in es}, k=vk)
        else:
            st.heap[r.a[0]] = c.but(t=t, d=None, k=vk)
        return V(r, K('dict', vk))

    def comprehend(self, generators, elt, st, sc, mod):
        fid = self.newframe(st)
        sc2 = (fid,) + tuple(sc)
        ek = [None]

        def go(gi, S):
            if gi == len(generators):
                v = self.expr(elt, S, sc2, mod)
                ek[0] = kd.join(ek[0], v.k)
                return one(self.freeze(v.t, S, st) if True else v.t)
            g = generators[gi]
            itv = self.expr(g.iter, S, sc2, mod)
            gens = self.gens(itv, S, g.iter)
            if gens is None:
                self.note('comprehension over unsupported value', g.iter)
                return opaque('comp', (self.pure(itv.t, S), const(self.where[-1][0]), const(elt.lineno)), ('seq', ANY))
            parts = []
            for levels, guard, ev in gens:
                A = S.copy()
                A.live = conj(S.live, guard)
                for v, dom in levels:
                    if dom[0] == 'range':
                        A.cons = A.cons + tuple(range_cons(v, dom[1]))
                    else:
                        A.live = conj(A.live, dom[1])
                self.assign(g.target, ev, A, sc2, mod)
                c = TRUE
                for cnd in g.ifs:
                    c1 = self.cond(cnd, A, sc2, mod)
                    c = conj(c, c1)
                    A.live = conj(A.live, c1)
                inner = go(gi + 1, A) if A.live is not FALSE else EMPTY
                st.exits += [x for x in A.exits if x.kind == 'raise' and not (x.cond.fv)]
                # heap effects of a comprehension body on outer objects are lost
                for ch in self.changes(S, A):
                    if ch[0] == 'cell' or ch[0] == 'entry':
                        self.note('effect inside comprehension', elt)
                for a, cell in A.heap.items():
                    st.heap.setdefault(a, cell)
                    S.heap.setdefault(a, cell)
                term = ite(conj(guard, c), inner, EMPTY)
                for v, dom in reversed(levels):
                    term = comp(v, dom, term)
                parts.append(term)
            return concat(parts)
        t = go(0, st)
        st.frames.pop(fid, None)
        return t, ek[0]

    # --- subscripts
    def e_Subscript(self, e, st, sc, mod):
        b = self.expr(e.value, st, sc, mod)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo = self.expr(s.lower, st, sc, mod) if s.lower is not None else None
            hi = self.expr(s.upper, st, sc, mod) if s.upper is not None else None
            step = self.expr(s.step, st, sc, mod) if s.step is not None else None
            base = self.iterterm(b, st)
            kind = K(b.k.b, kd.elem(b.k), None)
            if step is not None and intval(step.t) != 1:
                if intval(step.t) == -1 and all(x is None or x.t is NONE_T for x in (lo, hi)) and all(x.ty[0] == 'seq' for x in leaves(base)):
                    from . import builtins_model as bm
                    return V(bm.b_reversed(self, [V(base, b.k)], {}, st, e).t, kind)
                return V(app('stepslice', [base] + [x.t if x else NONE_T for x in (lo, hi, step)], base.ty), kind)
            L = length(base)
            r = self.slice_seq(base, lo.t if lo is not None and lo.t is not NONE_T else ZERO,
                               hi.t if hi is not None and hi.t is not NONE_T else L, st)
            if b.k.items is not None:
                a0, b0 = intval(lo.t) if lo is not None else 0, intval(hi.t) if hi is not None else len(b.k.items)
                if a0 is not None and b0 is not None:
                    kind = K(b.k.b, kd.elem(b.k), tuple(b.k.items[a0:b0]))
            return self.own(V(r, kind), st)
        k = self.expr(e.slice, st, sc, mod)
        return self.getitem(b, k, st, e)

    def own(self, v, st):
        """The value of an operator that makes a new list or set."""
        if v.k.b and v.k.b <= frozenset(['tuple', 'str', 'frozenset']) or v.t.op in ('ref', 'bot', 'opaque'):
            return v
        ty = set(t.ty[0] for t in leaves(v.t))
        if ty == set(['seq']):
            r = self.newlist(st, v.t, kd.elem(v.k, None))
        elif ty == set(['set']):
            r = self.newset(st, v.t, kd.elem(v.k, None))
        else:
            return v
        r.k = v.k
        return r

    def slice_seq(self, s, lo, hi, st):
        """Python slice semantics, clipped."""
        def f(S, base, lo, hi):
            return self.liftp(lambda S2, L: g(base, lo, hi, L, S2), S, length(base))

        def g(base, lo, hi, L, st=st):
            def clip(x):
                v = intval(x)
                if v is not None and v < 0:
                    y = add(L, x)
                    c = self.simp(le(ZERO, y), st)
                    return ite(c, y, ZERO)
                c0 = self.simp(le(ZERO, x), st)
                if c0 is not TRUE:
                    if tm.nonneg(x):
                        pass
                    else:
                        return None
                c = self.simp(le(x, L), st)
                return ite(c, x, L)
            a, b = clip(lo), clip(hi)
            if a is None or b is None:
                return opaque('slice', (base, lo, hi), base.ty if base.ty[0] in ('seq', 'str') else ('seq', ANY))
            c = self.simp(le(a, b), st)
            b2 = ite(c, b, a)
            return tm.slice_(base, a, b2)
        return self.liftp(f, st, s, lo, hi)

    def liftp(self, f, st, *args):
        """lift, telling f the path conditions of the branch it works on."""
        if not any(x.op == 'ite' for x in args):
            return f(st, *args)
        if sum(tm.nodes_of(x) for x in args) > 30:
            return lift(lambda *xs: f(st, *xs), *args)

        def go(known, args):
            if any(x.op == 'bot' for x in args):
                return BOT
            tops = [x.a[0] for x in args if x.op == 'ite']
            if not tops:
                return f(PathState(st, known), *args)
            a = min(tops, key=tm.order)
            c = self.simp(atomise(a), PathState(st, known))
            if c is TRUE or c is FALSE:
                return go(known, [tm.cof(x, a, c is TRUE) for x in args])
            hi = go(known + (atomise(a),), [tm.cof(x, a, True) for x in args])
            lo = go(known + (tm.neg(atomise(a)),), [tm.cof(x, a, False) for x in args])
            return tm.mkite(a, hi, lo)
        return go(st.known, list(args))

    def index(self, v, i, st, node):
        items = v.k.items
        n = intval(i)
        k = items[n] if items is not None and n is not None and -len(items) <= n < len(items) else kd.elem(v.k)
        s = self.iterterm(v, st)
        return V(at(s, i), k, self.subpath(v, i))

    def subpath(self, b, i):
        if b.t.op == 'ref':
            return (b.t, (i,))
        if b.p is not None and len(b.p[1]) < 4:
            return (b.p[0], b.p[1] + (i,))
        return None

    def path_read(self, p, st):
        """Current content at a place, or None."""
        ref, keys = p
        c = st.heap.get(ref.a[0])
        if c is None:
            return None
        t = None
        for n, k in enumerate(keys):
            if n == 0:
                if c.kind == 'dict':
                    t = tm.dictget(self.symdict(c).t, k)
                elif c.kind in ('list', 'dataset'):
                    t = at(c.t, k)
                else:
                    return None
            elif t.ty[0] in ('seq', 'tup', 'any', 'dict', 'dataset') or t.op == 'bot':
                t = at(t, k)
            else:
                return None
        if t is None and c.kind == 'dataset':
            return c.t
        return t

    def path_update(self, p, st, node, f):
        """Replace the content at a place by f(content) (containers held by
        containers have value semantics here)."""
        ref, keys = p
        c = st.heap.get(ref.a[0])
        if c is None or c.kind not in ('list', 'dict', 'dataset') or c.cls == 'mm':
            return False
        if c.kind == 'dict' and c.t is None:
            c = self.symdict(c)

        def upd(t, ks, isdict):
            if not ks:
                return f(t)
            if isdict:
                return tm.dset(t, ks[0], upd(tm.dictget(t, ks[0]), ks[1:], False))
            if t.ty[0] in ('dict', 'dataset') or any(x.op == 'mapc' for x in leaves(t)):
                return tm.mapset(t, ks[0], upd(at(t, ks[0]), ks[1:], False))
            return lift(lambda x: tm.lset(x, ks[0], upd(at(x, ks[0]), ks[1:], False)), t)
        nt = upd(self.pure(c.t, st), keys, c.kind == 'dict')
        st.heap[ref.a[0]] = c.but(t=nt)
        if c.kind == 'dataset':
            self.wlog.append((ref.a[0], keys))
        self.refresh(ref, st)
        return True

    def refresh(self, ref, st, gone=None):
        """Variables that denote a part of the object show its new content."""
        for fr in st.frames.values():
            for n, v in fr.items():
                if isinstance(v, V) and v.p is not None and v.p[0] is ref:
                    if gone is not None and v.p[1][:len(gone)] == gone:
                        fr[n] = V(v.t, v.k)
                        continue
                    t2 = self.path_read(v.p, st)
                    if t2 is not None and t2 is not v.t:
                        fr[n] = V(t2, v.k, v.p)

    # --- mappings (datasets and the dictionaries inside them)
    def mapof(self, v, st):
        """A dictionary value as a mapping term."""
        old, self.asmaps = self.asmaps, True
        try:
            t = self.pure(v.t, st)
        finally:
            self.asmaps = old
        return tm.unshallow(lift(self.tomap, t))

    def tomap(self, t):
        if t.op == 'dictv' and t.a[0] == 'sym':
            return tm.asmap(t.a[1])
        if t.op == 'dictv' and t.a[0] == 'known':
            m = tm.emptymap(STR)
            for kt, p, v in t.a[1:]:
                m2 = tm.mapset(m, kt, lift(self.tomap, v))
                m = m2 if p is TRUE else ite(p, m2, m)
            return m
        return t

    def map_place(self, b, st):
        """(root ref, keys) if b is a dataset or an entry of one."""
        if b.t.op == 'ref':
            c = st.heap.get(b.t.a[0])
            if c is not None and c.kind == 'dataset':
                return (b.t, ())
            return None
        if b.p is not None and (b.t.ty[0] == 'dict' or b.t.op == 'mapc' or b.k.b == frozenset(['dict'])):
            c = st.heap.get(b.p[0].a[0])
            if c is not None and c.kind == 'dataset':
                return b.p
        return None

    def map_term(self, p, st):
        t = self.path_read(p, st)
        return self.pure(t, st)

    def map_get(self, p, kt, k, st, node, default=None):
        m = self.map_term(p, st)
        miss = self.simp(neg(contains(m, kt)), st)
        if default is not None:
            if miss is TRUE:
                return default
            v = at(m, kt)
            if miss is FALSE:
                return V(v, kd.of_ty(v.ty), (p[0], p[1] + (kt,)))
            return self.mergeV(miss, default, V(v, kd.of_ty(v.ty), (p[0], p[1] + (kt,))))
        if miss is not FALSE:
            if not p[1] and st.heap[p[0].a[0]].kind == 'dataset' and st.heap[p[0].a[0]].cls != 'plain':
                # defaultdict(dict)
                old = m
                val = ite(miss, tm.emptymap(STR), at(m, kt)) if miss is not TRUE else tm.emptymap(STR)
                self.map_write((p[0], p[1] + (kt,)), val, st, node)
                own = st.heap[p[0].a[0]].owner
                if own is not None and not isinstance(own, tuple):
                    self.event('autoinsert', st, node, what='dataset')
            elif miss is TRUE:
                self.raise_('KeyError', st, node)
                return BOTV
            else:
                B = st.copy()
                B.live = conj(st.live, miss)
                self.raise_('KeyError', B, node)
                st.exits += B.exits
                st.live = conj(st.live, neg(miss))
        q = (p[0], p[1] + (kt,))
        v = self.path_read(q, st)
        return V(v, kd.of_ty(v.ty), q)

    def site(self, node):
        f, l = self.loc(node)
        return const('%s:%s in %s' % (f, l, self.stack[-1] if self.stack else '<module>'))

    def check_shared(self, ref, keys, st, node):
        """The container at keys is changed: is it also held by another container?"""
        c = st.heap[ref.a[0]]
        t = c.t
        for n, k in enumerate(keys):
            t = at(t, k)
            for x in leaves(t):
                if x.op == 'app' and x.a[0] == 'shallow':
                    g = lift_eq(t, x)
                    B = st.copy()
                    B.live = conj(st.live, g if g is not None else TRUE)
                    self.event('shared', B, node, site=x.a[2].a[1])

    def map_write(self, q, val, st, node):
        self.check_shared(q[0], q[1][:-1], st, node)
        c = st.heap[q[0].a[0]]
        if c.owner is not None and not isinstance(c.owner, tuple) and self.stack:
            self.event('mutation', st, node, root=c.owner, what='item assignment')
        self.path_update(q, st, node, lambda t: val)

    def map_set(self, p, kt, v, st, node):
        """d[k] = v for a dataset or a dictionary inside one."""
        q = (p[0], p[1] + (kt,))
        r2, c2 = self.single_ref(v, st)
        if c2 is not None and c2.kind in ('dict', 'list', 'set', 'dataset'):
            val = self.mapof(v, st)
        else:
            val = self.pure(v.t, st)
            if any(x.op == 'dictv' for x in leaves(val)):
                val = self.mapof(v, st)
            if any(self.root(x) is not None or v.p is not None for x in leaves(val)):
                val = tm.shallow(val, self.site(node))
        self.map_write(q, val, st, node)
        plain = c2 is not None and c2.kind == 'dataset' and c2.cls == 'plain'
        if c2 is not None and (c2.kind in ('dict', 'list', 'set') or plain) and r2 is not q[0]:
            st.heap[r2.a[0]] = Cell('fwd', cls=q)
            for fr in st.frames.values():
                for n, w in fr.items():
                    if isinstance(w, V) and w.t is r2:
                        fr[n] = self.place(w, st)
        elif c2 is not None and c2.kind == 'dataset':
            self.note('dataset inside a dataset', node)

    def map_del(self, p, kt, st, node, strict=True):
        m = self.map_term(p, st)
        if strict:
            miss = self.simp(neg(contains(m, kt)), st)
            if miss is TRUE:
                self.raise_('KeyError', st, node)
                return
            if miss is not FALSE:
                B = st.copy()
                B.live = conj(st.live, miss)
                self.raise_('KeyError', B, node)
                st.exits += B.exits
                st.live = conj(st.live, neg(miss))
        self.refresh(p[0], st, p[1] + (kt,))
        self.map_replace(p, tm.mapdel(m, kt), st, node, p[1] + (kt,))

    def map_replace(self, p, m, st, node, keys=None):
        """The whole mapping at p becomes m."""
        c = st.heap[p[0].a[0]]
        if c.owner is not None and not isinstance(c.owner, tuple) and self.stack:
            self.event('mutation', st, node, root=c.owner, what='update')
        self.check_shared(p[0], p[1], st, node)
        if p[1]:
            self.path_update(p, st, node, lambda t: m)
        else:
            st.heap[p[0].a[0]] = c.but(t=m)
            self.refresh(p[0], st)
        self.wlog.append((p[0].a[0], keys if keys is not None else p[1]))

    def getitem(self, b, k, st, node, store=False):
        """b[k]"""
        if b.t.op == 'ite' and any(x is NONE_T for x in leaves(b.t)):
            b = V(self.simp(b.t, st), b.k, b.p)
        o = self.reg.get(b.t)
        if b.t.op == 'ite' and any(x.op in ('ref',) for x in leaves(b.t)):
            return self.leafwise(b, st, lambda x, S: self.getitem(x, k, S, node, store))
        mp = self.map_place(b, st)
        if mp is not None:
            kt = self.pure(k.t, st)
            if kt.op == 'ite' and kt.ty[0] != 'str':
                return self.leafwise(V(kt, k.k), st, lambda x, S: self.map_get(mp, x.t, x, S, node))
            return self.map_get(mp, kt, k, st, node)
        r, c = self.single_ref(b, st)
        if c is not None and c.kind == 'dict':
            return self.dict_get(r, c, k, st, node, None, store)
        if c is not None and c.kind == 'cm':
            return V(mk('cmrow', (r, k.t), ('cmrow',)), K('cmrow'))
        t = b.t
        if t.op == 'cmrow' or t.ty[0] == 'cmrow':
            # M[p][a]
            if t.op == 'cmrow' and t.a[0].op != 'ref':
                if store or self.simp(contains(t, k.t), st) is not TRUE:
                    self.event('autoinsert', st, node, what='confusion matrix')
                return V(app('cmget', (t.a[0], t.a[1], k.t), NAT), K('num'))
            rr = t.a[0]
            cell = st.heap.get(rr.a[0])
            return V(app('cmget', (cell.t, t.a[1], k.t), NUM), K(['int', 'dec']))
        if t.op not in ('ref',) and t.ty[0] == 'cm':
            if store or self.simp(contains(t, k.t), st) is not TRUE:
                self.event('autoinsert', st, node, what='confusion matrix row')
            return V(mk('cmrow', (t, k.t), ('cmrow',)), K('cmrow'))
        if t.op not in ('ref',) and t.ty[0] in ('dict', 'dataset'):
            if t.op == 'dictv' and t.a[0] == 'known':
                r = BOT
                for kt, p, vv in t.a[1:]:
                    r = ite(conj(eq(kt, k.t), p), vv, r)
                return V(r, kd.elem(b.k))
            kk = self.pure(k.t, st)
            if t.ty[0] == 'dataset':
                inn = self.simp(contains(t, kk), st)
                if inn is not TRUE:
                    self.event('dsread', st, node, base=t, key=kk, present=inn)
            return V(at(t, kk), kd.of_ty(tm.valty(t)))
        if c is not None and c.kind == 'inst':
            return V(opaque('getitem', (self.content(r, st), self.pure(k.t, st))), ANYK)
        if isinstance(o, (UserClass, Ext)):
            return V(opaque('getitem', (b.t, k.t)), ANYK)
        return self.index(b, self.asidx(k, st), st, node)

    def asidx(self, k, st):
        def f(t):
            if t.ty[0] in ('int', 'num', 'bool'):
                return t
            return mk('app', ('num', self.pure(t, st)), INT)
        return lift(f, k.t)

    def leafwise(self, v, st, f):
        """Apply f to every alternative of a conditional value."""
        if v.t.op != 'ite':
            return f(v, st)
        a, h, l = v.t.a
        return self.branch(st, atomise(a), lambda A: self.leafwise(V(h, v.k), A, f),
                           lambda B: self.leafwise(V(l, v.k), B, f))

    def dict_get(self, r, c, k, st, node, default=None, store=False):
        kt = self.pure(k.t, st)
        if c.t is None:
            if kt.op == 'ite' and kt.ty[0] != 'str':
                return self.leafwise(V(kt, k.k), st, lambda x, S: self.dict_get(r, S.heap[r.a[0]], x, S, node, default, store))
            if c.cls == 'defaultdict' and default is None and kt not in c.d and tm.isconst(kt):
                v = self.call(V(c.owner[1], FNK) if isinstance(c.owner, tuple) else NONEV, [], {}, st, node)
                d = dict(c.d)
                d[kt] = (TRUE, v)
                st.heap[r.a[0]] = c.but(d=d)
                return v
            hit = FALSE
            res = None
            if kt in c.d:
                p, v = c.d[kt]
                miss = self.simp(neg(p), st)
                if miss is FALSE:
                    return v
                if default is not None:
                    return self.mergeV(p, v, default)
                B = st.copy()
                B.live = conj(st.live, miss)
                self.raise_('KeyError', B, node)
                st.exits += B.exits
                st.live = conj(st.live, neg(miss))
                return v
            if tm.isconst(kt) and all(tm.isconst(x) for x in c.d):
                if default is not None:
                    return default
                self.raise_('KeyError', st, node)
                return BOTV
            v = default
            for q, (p, w) in c.d.items():
                cc = conj(eq(q, kt), p)
                v = w if v is None else self.mergeV(cc, w, v)
            if v is None:
                if c.cls == 'defaultdict':
                    return V(opaque('defaultdict', (kt,)), ANYK)
                self.raise_('KeyError', st, node)
                return BOTV
            return v
        # symbolic dictionary: entries sequence (and multimaps)
        if c.cls == 'mm':
            body = mapseq(c.t, lambda e: at(e, ONE), lambda e: eq(at(e, ZERO), kt))
            return V(body, K('list', c.k))
        ents = c.t
        # all entries written under one literal key shape: pick by key equality
        es = ones(ents)
        if es is not None:
            v = default.t if default is not None else None
            for x in es:
                cc = eq(at(x, ZERO), kt)
                val = at(x, ONE)
                v = val if v is None else ite(cc, val, v)
            return V(v, c.k or ANYK)
        pe = self.pure(ents, st)
        if default is None:
            miss = self.simp(neg(tm.haskey(pe, kt)), st)
            if miss is TRUE:
                self.raise_('KeyError', st, node)
                return BOTV
        return V(tm.dictget(pe, kt, default.t if default is not None else None), c.k or ANYK, (r, (kt,)))

    def setitem(self, b, k, v, st, node):
        if b.t.op == 'ite' and any(x.op in ('ref',) for x in leaves(b.t)):
            self.leafwise(b, st, lambda x, S: self.setitem(x, k, v, S, node))
            return NONEV
        mp = self.map_place(b, st)
        if mp is not None:
            kt = self.pure(k.t, st)
            if kt.op == 'ite':
                self.leafwise(V(kt, k.k), st, lambda x, S: self.map_set(mp, x.t, v, S, node) or NONEV)
            else:
                self.map_set(mp, kt, v, st, node)
            return NONEV
        if b.p is not None and b.t.op != 'ref' and b.t.ty[0] == 'seq' and st.heap.get(b.p[0].a[0]) is not None and \
                st.heap[b.p[0].a[0]].kind == 'dataset':
            kt = self.pure(k.t, st)
            self.path_update((b.p[0], b.p[1] + (kt,)), st, node, lambda t: self.pure(v.t, st))
            return NONEV
        r, c = self.single_ref(b, st)
        self.mutation(b, st, node, 'item assignment')
        kt = self.pure(k.t, st)
        if c is not None and c.kind == 'dict':
            if c.t is None and kt.op == 'ite':
                self.leafwise(V(kt, k.k), st, lambda x, S: self.setitem(b, x, v, S, node))
                return NONEV
            if c.t is None and tm.isconst(kt) and all(tm.isconst(x) for x in c.d):
                d = dict(c.d)
                d[kt] = (TRUE, v)
                st.heap[r.a[0]] = c.but(d=d, k=kd.join(c.k, v.k))
            else:
                c2 = self.symdict(c)
                # overwriting the same key replaces
                t = c2.t
                last = None
                if t.op == 'seq' and t.a and t.a[-1][0] == 'one' and ones(t.a[-1][1]) and ones(t.a[-1][1])[0] is kt:
                    t = tm.mkseq(list(t.a[:-1]))
                st.heap[r.a[0]] = c2.but(t=concat([t, one(concat([one(kt), one(v.t)]))]), k=kd.join(c2.k, v.k))
            return NONEV
        if c is not None and c.kind == 'list':
            es = ones(c.t)
            n = intval(k.t)
            if es is not None and n is not None and -len(es) <= n < len(es):
                es = list(es)
                es[n] = v.t
                st.heap[r.a[0]] = c.but(t=concat([one(x) for x in es]), k=kd.join(c.k, v.k))
            else:
                st.heap[r.a[0]] = c.but(t=tm.lset(c.t, kt, v.t), k=kd.join(c.k, v.k))
            return NONEV
        if c is not None:
            if c.kind == 'cm':
                st.heap[r.a[0]] = c.but(t=concat([c.t, one(concat([one(kt), one(self.pure(v.t, st))]))]))
            else:
                self.note('item assignment on instance', node)
            return NONEV
        return NONEV

    # --- confusion matrices built in the code under analysis
    def is_cm_row(self, b):
        return b.t.op == 'cmrow'

    def cm_add(self, b, k, rhs, op, st, node):
        r = b.t.a[0]
        if r.op != 'ref':
            self.mutation(V(r, K('ConfusionMatrix')), st, node, 'confusion matrix update')
            return
        c = st.heap[r.a[0]]
        w = rhs.t if isinstance(op, ast.Add) else (tm.negn(rhs.t) if isinstance(op, ast.Sub) else opaque('cmop', (rhs.t,), NUM))
        e = concat([one(b.t.a[1]), one(k.t), one(w)])
        st.heap[r.a[0]] = c.but(t=concat([c.t, one(e)]))

    def cm_set(self, b, k, v, st, node):
        r = b.t.a[0]
        if r.op != 'ref':
            self.mutation(V(r, K('ConfusionMatrix')), st, node, 'confusion matrix update')
            return
        c = st.heap[r.a[0]]
        # m[p][a] = m[p][a] + w
        old = app('cmget', (c.t, b.t.a[1], k.t), NUM)
        w = sub(v.t, old) if v.t.ty[0] in ('int', 'num', 'bool') else opaque('cmset', (), NUM)
        if old in subterms(w):
            w = opaque('cmset', (w,), NUM)
        elif old not in subterms(v.t):
            w = opaque('cmset', (v.t,), NUM)
        e = concat([one(b.t.a[1]), one(k.t), one(w)])
        st.heap[r.a[0]] = c.but(t=concat([c.t, one(e)]))

    # --- effects
    def mutation(self, v, st, node, what):
        for t in leaves(v.t):
            if t.op == 'ref':
                c = st.heap.get(t.a[0])
                if c is not None and c.owner is not None and not isinstance(c.owner, tuple) and self.stack:
                    self.event('mutation', st, node, root=c.owner, what=what)
            else:
                root = self.root(t)
                if root is not None:
                    self.event('mutation', st, node, root=root, what=what)
                elif t.op not in ('bot', 'undef'):
                    self.event('puremut', st, node, what=what)
                    self.note('mutation of an untracked object', node)

    def root(self, t):
        """Name of the input a pure term is a part of (aliasing it)."""
        while True:
            if t.op == 'var':
                return 'argument ' + str(t.a[0]) if not str(t.a[0]).startswith('in') else None
            if t.op == 'at':
                t = t.a[0]
                continue
            if t.op == 'app' and t.a[0] in ('attr', 'cmrow'):
                t = t.a[1]
                continue
            if t.op == 'cmrow':
                t = t.a[0]
                continue
            return None

    # --- attributes
    def e_Attribute(self, e, st, sc, mod):
        b = self.expr(e.value, st, sc, mod)
        v = self.getattr(b, e.attr, st, e)
        o = self.reg.get(v.t)
        if isinstance(o, Bound) and isinstance(e.value, ast.Subscript) and not isinstance(e.value.slice, ast.Slice) and e.attr in MUTATORS:
            base = self.expr(e.value.value, st, sc, mod)
            k = self.expr(e.value.slice, st, sc, mod)
            o.path = (base, k)
        return v

    def getattr(self, b, name, st, node):
        o = self.reg.get(b.t)
        if isinstance(o, Module):
            v = self.globalv(o.name, name)
            if v is None and o.name + '.' + name in self.prog.modules:
                self.load(o.name + '.' + name)
                return self.modval(o.name + '.' + name)
            return v if v is not None else V(opaque('attr', (b.t, const(name))), ANYK)
        if isinstance(o, Ext):
            return self.ext(o.name + '.' + name)
        if isinstance(o, UserClass):
            v = o.attrs.get(name)
            if v is not None:
                return v
            if name == '__name__':
                return V(const(o.name), STRK)
            return V(opaque('attr', (b.t, const(name))), ANYK)
        if isinstance(o, Builtin):
            return self.fnval(Bound(name, b, o), 'bm', o.name, name)
        if b.t.op == 'ite':
            if name in METHODS:
                return self.bound(name, b)
            return self.leafwise(b, st, lambda x, S: self.getattr(x, name, S, node))
        r, c = self.single_ref(b, st)
        if c is not None and c.kind == 'inst':
            if name in c.d:
                return c.d[name]
            cls = self.reg.get(c.cls_t) if False else None
            if c.cls in ENUMS:
                pass
            return self.bound(name, b)
        if c is not None and c.kind == 'dataset':
            if c.d and name in c.d:
                return c.d[name]
            return self.bound(name, b)
        if b.t.op == 'super':
            return self.bound(name, b)
        nt = b.k.nt
        if nt is not None:
            fs = self.nts.get(nt)
            if fs and name in fs:
                return self.index(b, num(fs.index(name)), st, node)
        if b.t.ty[0] == 'dataset' and name not in METHODS:
            v = DS_ATTRS.get(name)
            self.event('dsattr', st, node, name=name)
            t = mk('app', ('attr', b.t, const(name)), v or ANY)
            return V(t)
        if name in METHODS or b.t.ty[0] in ('seq', 'set', 'dict', 'str', 'cm', 'dataset') or c is not None:
            return self.bound(name, b)
        if b.t.ty[0] in ('int', 'num', 'bool'):
            return self.bound(name, b)
        t = mk('app', ('attr', self.pure(b.t, st), const(name)), ANY)
        return V(t, ANYK)

    def bound(self, name, b):
        return self.fnval(Bound(name, b), 'bound', name, b.t)

    def setattr(self, b, name, v, st, node):
        r, c = self.single_ref(b, st)
        o = self.reg.get(b.t)
        if c is not None and c.kind in ('inst', 'dataset', 'cm'):
            if c.owner is not None and self.stack:
                self.event('mutation', st, node, root=c.owner, what='attribute ' + name)
            d = dict(c.d or {})
            d[name] = v
            st.heap[r.a[0]] = c.but(d=d)
            return
        if isinstance(o, (UserClass, Module, Ext)):
            self.event('mutation', st, node, root='class/module %s' % getattr(o, 'name', '?'), what='attribute ' + name)
            return
        self.mutation(b, st, node, 'attribute ' + name)

    # ------------------------------------------------------------- calls
    def e_Call(self, e, st, sc, mod):
        f = self.expr(e.func, st, sc, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st, sc, mod)
                s = self.iterterm(v, st)
                es = ones(s)
                n = self.fixed(v, st) if es is None else None
                if n is not None:
                    args += [self.index(v, num(j), st, e) for j in range(n)]
                elif es is None:
                    args.append(('star', v))
                else:
                    items = v.k.items if v.k.items is not None and len(v.k.items) == len(es) else None
                    for n, x in enumerate(es):
                        args.append(V(x, items[n] if items else kd.elem(v.k)))
            else:
                args.append(self.expr(a, st, sc, mod))
        kwargs = {}
        for k in e.keywords:
            v = self.expr(k.value, st, sc, mod)
            if k.arg is not None:
                kwargs[k.arg] = (TRUE, v)
            else:
                r, c = self.single_ref(v, st)
                if c is not None and c.kind == 'dict' and c.t is None and all(x.op == 'const' and x.a[0] == 'str' for x in c.d):
                    for kt, (p, w) in c.d.items():
                        if p is not FALSE:
                            kwargs[kt.a[1]] = (p, w)
                elif v.t.op == 'dictv' and v.t.a[0] == 'known':
                    for kt, p, w in v.t.a[1:]:
                        kwargs[kt.a[1]] = (p, V(w, ANYK))
                else:
                    kwargs['**'] = (TRUE, v)
        if st.live is FALSE:
            return BOTV
        return self.call(f, args, kwargs, st, e)

    def call(self, f, args, kwargs, st, node):
        self.calls += 1
        if f.t.op == 'ite':
            return self.leafwise(f, st, lambda x, S: self.call(x, args, kwargs, S, node))
        o = self.reg.get(f.t)
        if isinstance(o, Partial):
            kw = dict(o.kwargs)
            kw.update(kwargs)
            return self.call(o.fn, list(o.args) + list(args), kw, st, node)
        if isinstance(o, UserFn):
            if any(isinstance(a, tuple) for a in args) or '**' in kwargs:
                self.note('unresolved star arguments', node)
                return self.opaque_call(f, args, kwargs, st, node)
            h = self.hooks.get(o.qual)
            if h is not None:
                return h(self, o, args, kwargs, st, node)
            return self.call_user(o, args, kwargs, st, node)
        if isinstance(o, Builtin):
            from . import builtins_model as bm
            return bm.call_builtin(self, o.name, args, kwargs, st, node)
        if isinstance(o, Bound):
            from . import builtins_model as bm
            return bm.call_method(self, o, args, kwargs, st, node)
        if isinstance(o, Ext):
            from . import builtins_model as bm
            return bm.call_ext(self, o.name, args, kwargs, st, node)
        if isinstance(o, NamedTuple):
            vals = list(args)
            for fl in o.fields[len(vals):]:
                if fl in kwargs:
                    vals.append(kwargs[fl][1])
            ek = None
            for v in vals:
                ek = kd.join(ek, v.k)
            return V(concat([one(v.t) for v in vals]), K('tuple', ek, tuple(v.k for v in vals), o.name))
        if isinstance(o, UserClass):
            return self.instantiate(o, f, args, kwargs, st, node)
        if f.t.ty[0] == 'fn' or f.t.op in ('var',) or f.t.op == 'app' or f.t.op == 'at':
            return self.call_symbolic(f, args, kwargs, st, node)
        self.note('call of unknown value', node)
        return self.opaque_call(f, args, kwargs, st, node)

    def call_symbolic(self, f, args, kwargs, st, node):
        if any(isinstance(a, tuple) for a in args) or '**' in kwargs:
            return self.opaque_call(f, args, kwargs, st, node)
        self.event('callback', st, node, fn=show(f.t))
        flat = [self.pure(a.t, st) for a in args]
        flat.append(const('|'))
        for n in sorted(kwargs):
            p, v = kwargs[n]
            flat.append(const(n))
            flat.append(ite(p, self.pure(v.t, st), const('$absent')))
        return V(app('call', [f.t] + flat, self.ret_ty(f.t)), self.ret_kind(f.t))

    def ret_ty(self, f):
        return f.ty[1] if f.ty[0] == 'fn' and len(f.ty) > 1 else ANY

    def ret_kind(self, f):
        if f.ty[0] == 'fn' and len(f.ty) > 2:
            return K(f.ty[2])
        return kd.of_ty(self.ret_ty(f))

    def opaque_call(self, f, args, kwargs, st, node, name=None, ty=ANY):
        flat = [const(name) if name else self.pure(f.t, st)]
        for a in args:
            if isinstance(a, tuple):
                a = a[1]
            flat.append(self.pure(a.t, st))
        for n in sorted(kwargs):
            flat.append(const(n))
            flat.append(self.pure(kwargs[n][1].t, st))
        res = opaque('call', flat, ty)
        # the callee may mutate what it receives
        for a in list(args) + [v for _, v in kwargs.values()]:
            if isinstance(a, tuple):
                a = a[1]
            r, c = self.single_ref(a, st)
            if c is not None and c.kind in ('list', 'set', 'dict') and name not in PURE_EXT:
                nt = opaque('escaped', (res,), {'list': ('seq', ANY), 'set': ('set', ANY), 'dict': ('dict', ANY, ANY)}[c.kind])
                if c.kind == 'dict':
                    continue
                st.heap[r.a[0]] = c.but(t=nt)
        return V(res, ANYK)

    def bind(self, fn, args, kwargs, st, node):
        """Parameter binding; returns dict or None (TypeError)."""
        a = fn.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        out = {}
        args = list(args)
        if len(args) > len(names) and a.vararg is None:
            return None
        for n, v in zip(names, args):
            out[n] = v
        extra = args[len(names):]
        if a.vararg is not None:
            ek = None
            for v in extra:
                ek = kd.join(ek, v.k)
            out[a.vararg.arg] = V(concat([one(v.t) for v in extra]), K('tuple', ek, tuple(v.k for v in extra)))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for n, (p, v) in kwargs.items():
            if n in names or n in kwonly:
                if n in out:
                    return None
                out[n] = (p, v)
            else:
                rest[n] = (p, v)
        if rest and a.kwarg is None:
            for n, (p, v) in rest.items():
                if p is TRUE:
                    return None
            # conditionally unexpected keyword
            for n, (p, v) in rest.items():
                B = st.copy()
                B.live = conj(st.live, p)
                self.raise_('TypeError', B, node)
                st.exits += B.exits
                st.live = conj(st.live, neg(p))
        nd = len(fn.defaults)
        defaults = dict(zip(names[len(names) - nd:], fn.defaults)) if nd else {}
        defaults.update(fn.kwdefaults)
        for n in names + kwonly:
            v = out.get(n)
            if v is None:
                if n in defaults:
                    out[n] = defaults[n]
                else:
                    return None
            elif isinstance(v, tuple):
                p, w = v
                if p is TRUE:
                    out[n] = w
                elif n in defaults:
                    out[n] = self.mergeV(p, w, defaults[n])
                else:
                    B = st.copy()
                    B.live = conj(st.live, neg(p))
                    self.raise_('TypeError', B, node)
                    st.exits += B.exits
                    st.live = conj(st.live, p)
                    out[n] = w
        if a.kwarg is not None:
            d = self.newdict(st)
            r, c = self.single_ref(d, st)
            ek = None
            for n, (p, v) in rest.items():
                ek = kd.join(ek, v.k)
            st.heap[r.a[0]] = c.but(d={const(n): (p, v) for n, (p, v) in rest.items()}, k=ek)
            out[a.kwarg.arg] = d
        return out

    def call_user(self, fn, args, kwargs, st, node):
        if self.stack.count(fn.qual) >= 4:
            self.note('recursion', node)
            return self.opaque_call(V(mk('fn', (fn.qual,), ('fn',)), FNK), args, kwargs, st, node)
        if len(self.stack) > 40:
            raise TooBig('call depth')
        b = self.bind(fn, args, kwargs, st, node)
        if b is None:
            self.raise_('TypeError', st, node)
            return BOTV
        if st.live is FALSE:
            return BOTV
        fid = self.newframe(st)
        st.frames[fid].update(b)
        for f in fn.scopes:
            if f not in st.frames and f in self.state0.frames:
                st.frames[f] = dict(self.state0.frames[f])
        saved = st.exits
        st.exits = []
        entry_live = st.live
        entry_known = st.known
        st.enter()
        path = self.prog.modules[fn.mod][0]
        self.entered.add(fn.qual)
        self.where.append((self.prog.rel(path), fn.node.lineno))
        self.stack.append(fn.qual)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.expr(fn.node.body, st, (fid,) + tuple(fn.scopes), fn.mod)
                if st.live is not FALSE:
                    st.exits.append(Exit('return', st.live, v, st.snap()))
                    st.live = FALSE
            else:
                self.block(fn.node.body, st, (fid,) + tuple(fn.scopes), fn.mod)
        finally:
            self.where.pop()
            self.stack.pop()
        isgen = getattr(fn.node, '$gen', None)
        if isgen is None:
            isgen = not isinstance(fn.node, ast.Lambda) and has_yield(fn.node)
            setattr(fn.node, '$gen', isgen)
        rets = [e for e in st.exits if e.kind == 'return']
        raises = [Exit(e.kind, conj(entry_live, e.cond), e.v, e.snap, e.node) for e in st.exits if e.kind == 'raise']
        if isgen:
            if st.live is not FALSE:
                y = st.frames[fid].get('$yield', V(EMPTY, K('list')))
                rets.append(Exit('return', st.live, V(y.t, K('iter', y.k.e)), st.snap()))
                st.live = FALSE
            rets = [Exit('return', e.cond, V(e.snap.frames[fid].get('$yield', V(EMPTY, K('list'))).t,
                                             K('iter', e.snap.frames[fid].get('$yield', V(EMPTY, K('list'))).k.e)), e.snap) for e in rets]
        elif st.live is not FALSE:
            rets.append(Exit('return', st.live, NONEV, st.snap()))
        st.exits = saved + raises
        st.known = entry_known
        if not rets:
            st.live = FALSE
            st.frames.pop(fid, None)
            return BOTV
        val = rets[-1].v
        S = rets[-1].snap
        live = rets[-1].cond
        for e in reversed(rets[:-1]):
            c = e.cond
            val = self.mergeV(c, e.v, val)
            S = self.merge(c, e.snap, S)
            live = disj(live, e.cond)
        cons = st.cons
        st.frames, st.heap = S.frames, S.heap
        st.cons = cons
        st.live = entry_live if not raises else conj(entry_live, live)
        # keep the frame only if a closure created in it survives
        return val

    def instantiate(self, cls, f, args, kwargs, st, node):
        if cls.name == 'ConfusionMatrix':
            r = self.alloc(st, 'cm', t=EMPTY, k=None)
            return V(r, K('ConfusionMatrix'))
        init = cls.attrs.get('__init__')
        if cls.name == 'Dataset' or any(isinstance(self.reg.get(b.t), Ext) and self.reg[b.t].name == 'collections.defaultdict' for b in cls.bases):
            return self.new_dataset(cls, args, kwargs, st, node)
        o = self.reg.get(init.t) if init is not None else None
        r = self.alloc(st, 'inst', d={}, cls=cls.name)
        v = V(r, K('obj:' + cls.name))
        if o is not None and isinstance(o, UserFn) and not any(isinstance(a, tuple) for a in args):
            self.call_user(o, [v] + list(args), kwargs, st, node)
        return v

    def new_dataset(self, cls, args, kwargs, st, node):
        r = self.alloc(st, 'dataset', t=tm.emptymap(STR), d={}, cls=cls.name)
        v = V(r, K('Dataset'))
        init = cls.attrs.get('__init__')
        if init is not None:
            self.call(init, [v] + list(args), kwargs, st, node)
        return v

    def own_dataset(self, v, st):
        """A dataset object of its own with the content of the given one."""
        t = v.t
        r = self.alloc(st, 'dataset', t=mk('var', t.a, ('dict',) + t.ty[1:]) if False else t, d={}, cls='Dataset')
        d = {}
        for n, ty in DS_ATTRS.items():
            x = mk('app', ('attr', t, const(n)), ty)
            if ty[0] == 'set':
                d[n] = self.newset(st, x, STRK if ty[1] == STR else INTK)
            elif ty[0] == 'dict':
                d[n] = self.newdict(st)
                self.dict_update(d[n], V(x, kd.of_ty(ty)), st, None)
            else:
                d[n] = V(x, kd.of_ty(ty))
        st.heap[r.a[0]] = st.heap[r.a[0]].but(d=d)
        return V(r, K('Dataset'))

    def dict_update(self, d, v, st, node):
        from . import builtins_model as bm
        bm.dict_update(self, d, v, st, node)

    def freeze_all(self, t, st):
        return self.pure(t, st)

    # ------------------------------------------------------------- entry
    def run(self, mod, name, args, kwargs=None, cons=(), live=TRUE):
        """Analyse mod.name(*args, **kwargs); returns (result term, state)."""
        f = self.globalv(mod, name)
        if f is None:
            raise LookupError('%s.%s' % (mod, name))
        tm.LIMIT[0] = tm._created[0] + self.budget
        self.mms, self.pending = set(), {}
        st = self.start()
        st.cons = tuple(cons)
        st.live = live
        kw = {}
        for n, v in (kwargs or {}).items():
            kw[n] = v if isinstance(v, tuple) else (TRUE, v)
        self.where.append(('<entry>', 0))
        self.stack.append('<entry>')
        try:
            v = self.call(f, list(args), kw, st, None)
            for live, node in self.pending.values():
                self.note('group that may stay empty', node)
        finally:
            self.where.pop()
            self.stack.pop()
        return self.result(v, st)

    def result(self, v, st):
        t = self.pure(v.t, st)
        for e in st.exits:
            if e.kind == 'raise':
                t = ite(e.cond, e.v.t, t)
        return Result(t, v.k, st, self)


class Result(object):
    def __init__(self, t, k, st, ip):
        self.t, self.k, self.st, self.ip = t, k, st, ip


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def setseq(t):
    """Enumeration of a set term."""
    def f(x):
        if x.op in ('bot', 'undef'):
            return EMPTY
        v = lv(tm.elemty(x), 'x')
        return comp(v, ('set', contains(x, v)), one(v))
    return lift(f, t)


def lift_eq(o, leaf):
    """BDD: o's leaf is `leaf`."""
    def go(t):
        if t.op == 'ite':
            return tm.mkite(t.a[0], go(t.a[1]), go(t.a[2]))
        return TRUE if t is leaf else FALSE
    return go(o)


def kids(u):
    """Direct subterms, conditions of a choice included."""
    def go(x):
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                for z in go(y):
                    yield z
    return list(go(u.a))


def mapseq(s, f, cond=None):
    """[f(e) for e in s if cond(e)] on a sequence term."""
    def leaf(t):
        if t.op == 'bot':
            return EMPTY
        if t.op != 'seq':
            i = lv(('int', 0), 'i')
            e = at(t, i)
            return comp(i, ('range', length(t)), body(e))
        parts = []
        for sg in t.a:
            if sg[0] == 'one':
                parts.append(body(sg[1]))
            elif sg[0] == 'spl':
                parts.append(leaf(sg[1]))
            else:
                v, dom, b = tm.open_seg(t, sg)
                parts.append(comp(v, dom, lift(leaf, b)))
        return concat(parts)

    def body(e):
        r = one(f(e))
        if cond is not None:
            r = ite(cond(e), r, EMPTY)
        return r
    return lift(leaf, s)


def fmt(parts):
    """String concatenation, flattened."""
    out = []
    for p in parts:
        if p.op == 'app' and p.a[0] == 'strcat':
            out.extend(p.a[1:])
        elif p.op == 'const' and p.a[0] == 'str' and out and out[-1].op == 'const' and out[-1].a[0] == 'str':
            out[-1] = const(out[-1].a[1] + p.a[1])
        elif p.op == 'const' and p.a == ('str', ''):
            continue
        else:
            out.append(p)
    if not out:
        return const('')
    if len(out) == 1 and out[0].ty[0] == 'str':
        return out[0]
    return app('strcat', out, STR)


tm.APP_REBUILD['strcat'] = lambda *xs: fmt(list(xs))

BUILTINS = frozenset('''len range enumerate zip sum min max abs sorted set frozenset list tuple dict str int float bool
isinstance hasattr getattr setattr any all map filter round type print iter next reversed object repr hash id open callable
super divmod pow vars dir globals locals input xrange issubclass staticmethod classmethod property slice ord chr __import__
bytes exec eval compile format __fresh__ __text__ __jsontext__ __isjson__ __loaded__'''.split())
EXCEPTIONS = frozenset('''Exception ValueError TypeError KeyError IndexError AttributeError RuntimeError ZeroDivisionError
AssertionError NotImplementedError StopIteration OverflowError ArithmeticError LookupError OSError IOError BaseException
UnicodeDecodeError NameError ImportError NotImplemented'''.split())
EXC_BASES = {'JSONDecodeError': ('ValueError',), 'FileNotFoundError': ('OSError', 'IOError'), 'IOError': ('OSError',), 'OSError': ('IOError',),
             'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'ZeroDivisionError': ('ArithmeticError',)}
MUTATORS = frozenset('append extend add update discard remove insert pop clear sort reverse setdefault popitem'.split())
METHODS = MUTATORS | frozenset('''keys values items get copy intersection union difference symmetric_difference issubset
issuperset isdisjoint count index split join format strip lower upper startswith endswith replace sqrt quantize classes
as_tuple most_common total elements splitlines rstrip lstrip title encode decode zfill isdigit partition rsplit
to_integral_value is_nan is_zero read write close readline readlines'''.split())
DS_ATTRS = {'boundary_format': STR, 'coders': ('set', STR), 'boundary_types': ('set', ('int', 1)), 'properties': ('dict', STR, ANY)}
PURE_EXT = frozenset(['str', 'repr', 'format', 'print', 'hash', 'id', 'type', 'decimal.Decimal', 'copy.deepcopy'])
ENUMS = frozenset()
