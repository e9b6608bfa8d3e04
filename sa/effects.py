"""May-mutate analysis.

Flow-sensitive variables over a flow-insensitive heap of allocation sites,
argument objects and module-level objects, with calls analysed per call chain.
Reported: every store or mutating call whose receiver may be (part of) an
argument of a public function, or an object that outlives the call (module or
class level, default arguments).  Calls that cannot be resolved are taken to be
pure and to return nothing tracked, so the analysis only accuses constructs
that it fully follows.
"""
import ast

MUT = {'append', 'add', 'extend', 'insert', 'update', 'remove', 'discard', 'pop', 'popitem', 'clear', 'sort', 'reverse',
       'setdefault', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__setitem__',
       '__delitem__', 'appendleft', 'extendleft', 'popleft', 'subtract', '__ior__', '__iand__', '__isub__', '__ixor__',
       '__setattr__', '__delattr__'}
ADDERS = {'append', 'add', 'insert', 'appendleft'}
EXTENDERS = {'extend', 'update', 'extendleft', '__ior__'}
ELEMS = {'pop', 'popitem', 'popleft', 'get', 'setdefault', '__getitem__', 'values', 'next', '__next__'}
IMPURE = {'time.time', 'time.clock', 'time.monotonic', 'random.random', 'random.randint', 'random.choice', 'random.shuffle',
          'random.sample', 'random.uniform', 'os.getpid', 'os.urandom', 'uuid.uuid4', 'datetime.now', 'datetime.datetime.now',
          'datetime.utcnow', 'time.perf_counter', 'os.getenv', 'os.environ.get', 'locale.getlocale'}
STATEFUL = {'decimal.setcontext': 'the decimal context', 'random.seed': 'the random generator',
            'sys.setrecursionlimit': 'interpreter settings', 'os.chdir': 'the working directory',
            'os.putenv': 'the environment', 'locale.setlocale': 'the locale'}
IMMCALLS = {'int', 'float', 'str', 'bool', 'len', 'abs', 'sum', 'round', 'Decimal', 'isinstance', 'hasattr', 'range',
            'repr', 'hash', 'id', 'ord', 'chr', 'type', 'any', 'all', 'callable', 'divmod', 'pow', 'print', 'format'}


class O(object):
    """Abstract object."""
    __slots__ = ('kind', 'tag', 'depth', 'data', 'glob', 'cls')

    def __init__(self, kind, tag, depth=0, data=None, glob=None, cls=None):
        self.kind, self.tag, self.depth, self.data, self.glob, self.cls = kind, tag, depth, data, glob, cls

    def __repr__(self):
        return '%s:%s%s' % (self.kind, self.tag, '.' * self.depth)


NOTHING = frozenset()
CONTAINERS = ('list', 'dict', 'set', 'inst')


class Effects(object):
    def __init__(self, prog):
        self.prog = prog
        self.objs = {}
        self.fields = {}       # obj -> {field: set}
        self.mods = {}         # module -> env
        self.loading = set()
        self.found = {}        # (kind, root, file, func, construct) -> event
        self.changed = False
        self.glob = None       # module being loaded
        self.stack = []
        self.cache = {}
        self.entered = set()
        self.sites = 0
        self.done_mods = set()

    # ---------------------------------------------------------- objects
    def obj(self, kind, key, **kw):
        o = self.objs.get(key)
        if o is None:
            if self.glob is not None and not self.stack and 'glob' not in kw:
                kw['glob'] = self.glob
            o = self.objs[key] = O(kind, key[0] if isinstance(key, tuple) else key, **kw)
        return o

    def alloc(self, kind, node, extra='', cls=None):
        ctx = tuple(id(x[0]) for x in self.stack[-3:]) + tuple(x[1] for x in self.stack[-2:])
        glob = self.glob if not self.stack else None
        return self.obj(kind, (kind, id(node), extra, ctx, glob), cls=cls, glob=glob)

    def child(self, o):
        if o.kind == 'arg':
            return self.obj('arg', ('arg', o.tag if not isinstance(o.tag, tuple) else o.tag, o.data, min(o.depth + 1, 5)),
                            depth=min(o.depth + 1, 5), data=o.data)
        if o.kind == 'deep':
            return o
        return None

    def get(self, objs, field='*', attr=False):
        out = set()
        for o in objs:
            if o.kind in ('arg', 'deep'):
                out.add(self.child(o))
                f = self.fields.get(o)
                if f:
                    for v in f.values():
                        out |= v
                continue
            f = self.fields.get(o)
            if not f:
                continue
            if field == '*':
                for k, v in f.items():
                    if not k.startswith('.'):
                        out |= v
            elif attr:
                out |= f.get('.' + field, NOTHING)
            else:
                out |= f.get(field, NOTHING)
                out |= f.get('*', NOTHING)
        return frozenset(out)

    def put(self, objs, field, vals):
        if not vals:
            return
        for o in objs:
            f = self.fields.setdefault(o, {})
            old = f.get(field, NOTHING)
            new = old | vals
            if len(new) != len(old):
                f[field] = frozenset(new)
                self.changed = True

    def new(self, kind, node, elems=NOTHING, extra='', **fields):
        o = self.alloc(kind, node, extra)
        self.put([o], '*', elems)
        for k, v in fields.items():
            self.put([o], k[1:], v)
        return frozenset([o])

    # ---------------------------------------------------------- reports
    def where(self, node):
        fn = self.stack[-1][0] if self.stack else None
        return fn

    def report(self, kind, root, node, what):
        fn = self.stack[-1][0] if self.stack else None
        key = (kind, root, fn.qual if fn else self.glob, what)
        if key not in self.found:
            self.found[key] = {'kind': kind, 'root': root, 'func': fn.qual if fn else self.glob, 'what': what,
                               'file': self.prog.rel(self.prog.modules[fn.mod][0]) if fn else None,
                               'line': getattr(node, 'lineno', None),
                               'path': [x[0].qual for x in self.stack]}

    def mutate(self, objs, node, what):
        if not self.stack:
            return
        for o in objs:
            if o.kind == 'arg':
                self.report('argument', o.data, node, what)
            elif o.glob is not None and o.kind in CONTAINERS + ('class', 'module', 'fn'):
                self.report('shared', self.describe(o), node, what)

    def describe(self, o):
        if o.kind in ('class', 'fn', 'module'):
            return '%s %s' % (o.kind, o.data if isinstance(o.data, str) else getattr(o.data, 'qual', o.cls or o.tag))
        names = []
        for m, env in self.mods.items():
            for n, v in env.items():
                if o in v:
                    names.append('%s.%s' % (m, n))
        return names and sorted(names)[0] or 'object created when %s is imported' % o.glob

    # ---------------------------------------------------------- modules
    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name not in self.prog.modules:
            return None
        env = self.mods[name] = {}
        tree = self.prog.modules[name][1]
        og, os_ = self.glob, self.stack
        self.glob, self.stack = name, []
        A = Act(self, env, name, None, None)
        A.block(tree.body)
        self.glob, self.stack = og, os_
        return env

    def load_all(self):
        for _ in range(6):
            self.changed = False
            self.mods_prev = dict(self.mods)
            self.mods = {}
            for m in sorted(self.prog.modules):
                if m.startswith('specs.'):
                    continue
                self.load(m)
            if not self.changed:
                break

    # ---------------------------------------------------------- entries
    def entries(self):
        out = []
        for m in sorted(self.mods):
            if m.startswith('specs.') or m.endswith('.samples'):
                continue
            for s in self.prog.modules[m][1].body:
                if isinstance(s, ast.FunctionDef):
                    out.append((m, None, s))
                elif isinstance(s, ast.ClassDef):
                    for x in s.body:
                        if isinstance(x, ast.FunctionDef):
                            out.append((m, s.name, x))
        return out

    def arg(self, fn, name):
        return self.obj('arg', ('arg', fn, name, 0), depth=0, data=name, glob=None)

    def analyse(self, m, cls, node, skip=()):
        """Analyse one entry point with symbolic arguments."""
        env = self.mods[m]
        if cls is None:
            fs = [o for o in env.get(node.name, ()) if o.kind == 'fn']
        else:
            cs = [o for o in env.get(cls, ()) if o.kind == 'class']
            fs = [x for c in cs for x in self.get([c], node.name, attr=True) if x.kind == 'fn']
        res = NOTHING
        for o in fs:
            f = o.data
            if f.node is not node:
                continue
            for _ in range(8):
                self.changed = False
                self.cache = {}
                a = node.args
                args = {}
                for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs:
                    args[x.arg] = frozenset([self.arg(f.qual, x.arg)])
                if cls is not None and a.args:
                    args[a.args[0].arg] = frozenset([self.obj('arg', ('arg', f.qual, 'self', 0), data='self', cls=(m, cls), glob=None)])
                if a.vararg:
                    t = self.obj('tuple', ('tuple', f.qual, 'varargs'), glob=None)
                    self.put([t], '*', frozenset([self.arg(f.qual, a.vararg.arg)]))
                    args[a.vararg.arg] = frozenset([t])
                if a.kwarg:
                    t = self.obj('dict', ('dict', f.qual, 'kwargs'), glob=None)
                    self.put([t], '*', frozenset([self.arg(f.qual, a.kwarg.arg)]))
                    args[a.kwarg.arg] = frozenset([t])
                res |= self.invoke(f, args, node)
                if not self.changed:
                    break
        return res

    def reachable(self, objs, limit=4000):
        seen = set()
        todo = list(objs)
        while todo and len(seen) < limit:
            o = todo.pop()
            if o in seen or o.kind in ('arg', 'fn', 'class', 'module', 'ext'):
                continue
            seen.add(o)
            for v in self.fields.get(o, {}).values():
                todo.extend(v)
        return seen

    # ---------------------------------------------------------- calls
    def invoke(self, f, bound, node):
        """bound: parameter -> objects."""
        key = (f.qual, id(f.node), tuple(sorted((n, tuple(sorted(map(id, v)))) for n, v in bound.items())), id(f.env),
               tuple(id(x[0]) for x in self.stack[-2:]))
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        if len(self.stack) > 40 or sum(1 for x in self.stack if x[0] is f) >= 3:
            return NOTHING
        self.cache[key] = NOTHING
        self.entered.add(f.mod + ':' + f.qual)
        self.stack.append((f, getattr(node, 'lineno', 0)))
        env = dict(bound)
        A = Act(self, env, f.mod, f, f.env)
        if isinstance(f.node, ast.Lambda):
            r = A.expr(f.node.body)
        else:
            A.block(f.node.body)
            r = frozenset(A.ret)
            if A.gen is not None:
                r = self.new('list', f.node, frozenset(A.gen), 'gen')
        self.stack.pop()
        self.cache[key] = r
        return r


class Fn(object):
    def __init__(self, qual, node, mod, env, defaults, kwdefaults, cls=None):
        self.qual, self.node, self.mod, self.env = qual, node, mod, env
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls


class Act(object):
    """One activation."""

    def __init__(self, E, env, mod, fn, parent):
        self.E, self.env, self.mod, self.fn, self.parent = E, env, mod, fn, parent
        self.ever = dict(env)
        self.ret = set()
        self.gen = None
        self.globals_ = set()
        self.outer = set()

    # --- names
    def look(self, n):
        if n in self.globals_:
            return self.E.mods.get(self.mod, {}).get(n, NOTHING)
        if n in self.env:
            return self.env[n]
        a = self.parent
        while a is not None:
            if n in a.ever:
                return a.ever[n]
            a = a.parent
        m = self.E.mods.get(self.mod, {})
        if self.env is not m and n in m:
            return m[n]
        return frozenset([self.E.obj('ext', ('ext', n), data=n, glob=None)])

    def setname(self, n, v):
        if n in self.globals_:
            if self.E.stack:
                self.E.report('shared', '%s.%s' % (self.mod, n), None, 'rebinds a module-level name')
            return
        if n in self.outer:
            a = self.parent
            while a is not None:
                if n in a.ever:
                    a.ever[n] = a.ever[n] | v
                    a.env[n] = a.env.get(n, NOTHING) | v
                    return
                a = a.parent
            return
        self.env[n] = v
        old = self.ever.get(n, NOTHING)
        self.ever[n] = old | v

    # --- statements
    def block(self, body):
        for s in body:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is not None:
                m(s)
            else:
                self.generic(s)

    def generic(self, s):
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                self.expr(ch)
            elif isinstance(ch, ast.stmt):
                self.block([ch])

    def s_Global(self, s):
        self.globals_.update(s.names)

    def s_Nonlocal(self, s):
        self.outer.update(s.names)

    def s_Expr(self, s):
        self.expr(s.value)

    def s_Pass(self, s):
        pass

    def s_Return(self, s):
        if s.value is not None:
            self.ret |= self.expr(s.value)

    def s_FunctionDef(self, s):
        a = s.args
        E = self.E
        q = (self.fn.qual + '.' if self.fn else '') + s.name
        f = Fn(q, s, self.mod, self if self.fn is not None else None,
               [self.expr(x) for x in a.defaults], {x.arg: self.expr(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        if self.fn is None:
            # default values live as long as the module
            for v in f.defaults + list(f.kwdefaults.values()):
                for o in v:
                    if o.glob is None and o.kind in CONTAINERS:
                        o.glob = self.mod
        o = E.obj('fn', ('fn', id(s), id(f.env), self.mod), data=f, glob=E.glob if not E.stack else None)
        o.data = f
        decs = [ast.dump(d) for d in s.decorator_list]
        for d in s.decorator_list:
            self.expr(d)
        self.setname(s.name, frozenset([o]))

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        E = self.E
        bases = frozenset().union(*[self.expr(b) for b in s.bases]) if s.bases else NOTHING
        c = E.obj('class', ('class', id(s), self.mod), data=self.mod + '.' + s.name, glob=E.glob if not E.stack else None, cls=(bases, s))
        c.cls = (bases, s)
        sub = Act(E, {}, self.mod, None, self.parent)
        sub.clsname = s.name
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                a = x.args
                f = Fn(s.name + '.' + x.name, x, self.mod, self if self.fn is not None else None,
                       [self.expr(d) for d in a.defaults],
                       {y.arg: self.expr(d) for y, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, cls=c)
                for v in f.defaults + list(f.kwdefaults.values()):
                    for o in v:
                        if o.glob is None and o.kind in CONTAINERS:
                            o.glob = self.mod
                o = E.obj('fn', ('fn', id(x), id(f.env), self.mod), data=f, glob=self.mod)
                o.data = f
                o.cls = {d.id for d in x.decorator_list if isinstance(d, ast.Name)}
                sub.env[x.name] = frozenset([o])
            else:
                sub.block([x])
        for n, v in sub.env.items():
            E.put([c], '.' + n, v)
        self.setname(s.name, frozenset([c]))

    def s_Import(self, s):
        for a in s.names:
            self.E.load(a.name)
            if a.asname or '.' not in a.name:
                self.setname(a.asname or a.name, self.module(a.name))
            else:
                self.setname(a.name.split('.')[0], self.module(a.name.split('.')[0]))

    def module(self, name):
        E = self.E
        if name in E.prog.modules:
            return frozenset([E.obj('module', ('module', name), data=name, glob=name)])
        return frozenset([E.obj('ext', ('ext', name), data=name, glob=None)])

    def s_ImportFrom(self, s):
        base = s.module or ''
        if s.level:
            parts = self.mod.split('.')
            if not self.E.prog.is_pkg.get(self.mod):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        if base == '__future__':
            return
        env = self.E.load(base)
        for a in s.names:
            if a.name == '*':
                if env:
                    for n, v in list(env.items()):
                        if not n.startswith('_'):
                            self.setname(n, v)
                continue
            if env is not None:
                v = env.get(a.name)
                if v is None and base + '.' + a.name in self.E.prog.modules:
                    self.E.load(base + '.' + a.name)
                    v = self.module(base + '.' + a.name)
                if v is None:
                    v = getattr(self.E, 'mods_prev', {}).get(base, {}).get(a.name, NOTHING)
            else:
                v = frozenset([self.E.obj('ext', ('ext', base + '.' + a.name), data=base + '.' + a.name, glob=None)])
            self.setname(a.asname or a.name, v)

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v, s.value)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value), s.value)

    def s_AugAssign(self, s):
        E = self.E
        r = self.expr(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.look(t.id)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value)
            E.mutate(b, s, 'sets attribute .%s' % t.attr)
            old = self.attr(b, t.attr, t)
        else:
            b = self.expr(t.value)
            k = self.key(t.slice)
            self.expr(t.slice) if not isinstance(t.slice, ast.Slice) else None
            E.mutate(b, s, 'updates an item in place')
            old = E.get(b, k)
        op = type(s.op).__name__
        hit = set()
        cont = any(o.kind in ('list', 'set', 'tuple', 'dict', 'inst') for o in r)
        for o in old:
            if o.kind in ('list', 'set', 'dict'):
                hit.add(o)
            elif o.kind == 'inst':
                d = {'Add': '__iadd__', 'Sub': '__isub__', 'BitOr': '__ior__'}.get(op)
                for f in self.methods(o, d):
                    self.callfn(f, [frozenset([o]), r], {}, s)
            elif o.kind == 'arg':
                if cont or (op in ('BitOr', 'BitAnd', 'BitXor') and any(x.kind == 'arg' for x in r)):
                    hit.add(o)
        E.mutate(hit, s, 'augmented assignment in place')
        for o in hit:
            E.put([o], '*', E.get(r))
        if isinstance(t, ast.Name):
            new = frozenset(o for o in old if o in hit or o.kind in ('inst',))
            if op == 'Add' and not new:
                new = frozenset(o for o in old if o.kind == 'tuple')
            self.setname(t.id, new or NOTHING)

    def assign(self, t, v, src=None):
        E = self.E
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, E.new('list', x, E.get(v)))
                    continue
                w = E.get(v, str(i))
                self.assign(x, w)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value)
            if not isinstance(t.slice, ast.Slice):
                self.expr(t.slice)
                self.store(b, self.key(t.slice), v, t)
            else:
                E.mutate(b, t, 'assigns a slice')
                E.put(b, '*', E.get(v))
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value)
            E.mutate(b, t, 'sets attribute .%s' % t.attr)
            for o in b:
                if o.kind == 'module' and self.E.stack:
                    pass
            E.put(b, '.' + t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def store(self, b, k, v, node):
        E = self.E
        E.mutate(b, node, 'assigns an item')
        for o in b:
            fs = self.methods(o, '__setitem__')
            if fs:
                for f in fs:
                    self.callfn(f, [frozenset([o]), NOTHING, v], {}, node)
        E.put(b, k, v)

    def key(self, s):
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            return s.value
        if isinstance(s, ast.Constant) and isinstance(s.value, int) and s.value >= 0:
            return str(s.value)
        return '*'

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.expr(t.value)
                self.E.mutate(b, t, 'deletes an item')
            elif isinstance(t, ast.Attribute):
                self.E.mutate(self.expr(t.value), t, 'deletes attribute .%s' % t.attr)
            elif isinstance(t, ast.Name):
                self.env.pop(t.id, None)

    def join(self, a, b):
        out = dict(a)
        for n, v in b.items():
            out[n] = out.get(n, NOTHING) | v
        return out

    def s_If(self, s):
        self.expr(s.test)
        e0 = dict(self.env)
        self.block(s.body)
        e1 = self.env
        self._restore(e0)
        self.block(s.orelse)
        dead1 = self.ends(s.body)
        dead2 = self.ends(s.orelse)
        if dead1 and not dead2:
            return
        if dead2 and not dead1:
            self._restore(e1)
            return
        self._restore(self.join(e1, self.env))

    def _restore(self, e):
        if self.fn is None and self.env is self.E.mods.get(self.mod):
            e = dict(e)
            self.env.clear()
            self.env.update(e)
        else:
            self.env = dict(e)

    def ends(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def loop(self, once, orelse):
        for _ in range(3):
            e0 = dict(self.env)
            once()
            j = self.join(e0, self.env)
            self._restore(j)
            if j == e0:
                break
        self.block(orelse)

    def s_For(self, s):
        it = self.expr(s.iter)

        def once():
            self.assign(s.target, self.elems(it))
            self.block(s.body)
        self.loop(once, s.orelse)

    def s_While(self, s):
        def once():
            self.expr(s.test)
            self.block(s.body)
        self.loop(once, s.orelse)

    def s_With(self, s):
        for i in s.items:
            v = self.expr(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        e0 = dict(self.env)
        self.block(s.body)
        self.block(s.orelse)
        e1 = dict(self.env)
        outs = [] if self.ends(s.body) or self.ends(s.orelse) else [e1]
        for h in s.handlers:
            self._restore(self.join(e0, e1))
            if h.name:
                self.setname(h.name, NOTHING)
            self.block(h.body)
            if not self.ends(h.body):
                outs.append(dict(self.env))
        r = outs[0] if outs else e1
        for o in outs[1:]:
            r = self.join(r, o)
        self._restore(r)
        self.block(s.finalbody)

    def s_Raise(self, s):
        if s.exc is not None:
            self.expr(s.exc)

    def s_Assert(self, s):
        self.expr(s.test)

    # --- expressions
    def elems(self, objs):
        """What iterating over the objects yields."""
        E = self.E
        out = set()
        for o in objs:
            if o.kind == 'dict' or (o.kind == 'inst' and self.isdict(o)):
                continue
            out |= E.get([o])
        return frozenset(out)

    def isdict(self, o):
        return self.base(o) in ('dict', 'defaultdict', 'OrderedDict', 'Counter')

    def base(self, o):
        c = o.cls
        seen = 0
        while isinstance(c, O) and c.kind == 'class' and seen < 8:
            seen += 1
            nxt = None
            for b in c.cls[0]:
                if b.kind == 'ext':
                    return str(b.data).split('.')[-1]
                if b.kind == 'class':
                    nxt = b
            c = nxt
        return None

    def methods(self, o, name):
        """User-defined methods of an instance (or class)."""
        if name is None:
            return []
        if o.kind == 'arg' and isinstance(o.cls, tuple):
            m, c = o.cls
            cs = [x for x in self.E.mods.get(m, {}).get(c, ()) if x.kind == 'class']
        elif o.kind == 'inst':
            cs = [o.cls] if isinstance(o.cls, O) else []
        elif o.kind == 'class':
            cs = [o]
        else:
            return []
        n = 0
        while cs and n < 8:
            n += 1
            nxt = []
            for c in cs:
                fs = [x for x in self.E.fields.get(c, {}).get('.' + name, NOTHING) if x.kind == 'fn']
                if fs:
                    return fs
                nxt += [b for b in c.cls[0] if b.kind == 'class']
            cs = nxt
        return []

    def expr(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.expr(ch)
        return NOTHING

    def e_Constant(self, e):
        return NOTHING

    def e_Name(self, e):
        return self.look(e.id)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def seqlit(self, e, kind):
        E = self.E
        o = E.alloc(kind, e)
        star = False
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                star = True
                E.put([o], '*', self.elems(self.expr(x.value)))
            else:
                E.put([o], '*' if star or kind != 'tuple' else str(i), self.expr(x))
        return frozenset([o])

    def e_Tuple(self, e):
        return self.seqlit(e, 'tuple')

    def e_List(self, e):
        return self.seqlit(e, 'list')

    def e_Set(self, e):
        return self.seqlit(e, 'set')

    def e_Dict(self, e):
        o = self.E.alloc('dict', e)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.copyfields([o], self.expr(v))
            else:
                self.expr(k)
                self.E.put([o], self.key(k), self.expr(v))
        return frozenset([o])

    def copyfields(self, dst, src):
        for s in src:
            if s.kind in ('arg', 'deep'):
                self.E.put(dst, '*', frozenset([self.E.child(s)]))
            for k, v in list(self.E.fields.get(s, {}).items()):
                if not k.startswith('.'):
                    self.E.put(dst, k, v)

    def comp(self, e, kind, elts):
        saved = dict(self.env)
        for g in e.generators:
            it = self.expr(g.iter)
            self.assign(g.target, self.elems(it))
            for c in g.ifs:
                self.expr(c)
        o = self.E.alloc(kind, e)
        for x in elts:
            self.E.put([o], '*', self.expr(x))
        self._restore(saved)
        return frozenset([o])

    def e_ListComp(self, e):
        return self.comp(e, 'list', [e.elt])

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        return self.comp(e, 'set', [e.elt])

    def e_DictComp(self, e):
        return self.comp(e, 'dict', [e.value])

    def e_IfExp(self, e):
        self.expr(e.test)
        return self.expr(e.body) | self.expr(e.orelse)

    def e_BoolOp(self, e):
        r = NOTHING
        for x in e.values:
            r |= self.expr(x)
        return r

    def e_Compare(self, e):
        self.expr(e.left)
        for x in e.comparators:
            self.expr(x)
        return NOTHING

    def e_UnaryOp(self, e):
        self.expr(e.operand)
        return NOTHING

    def e_BinOp(self, e):
        a, b = self.expr(e.left), self.expr(e.right)
        E = self.E
        for o in a:
            d = {'Add': '__add__', 'Sub': '__sub__', 'BitOr': '__or__'}.get(type(e.op).__name__)
            for f in self.methods(o, d):
                return self.callfn(f, [frozenset([o]), b], {}, e)
        kinds = {o.kind for o in a | b}
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
            return NOTHING
        for k in ('list', 'set', 'tuple', 'dict'):
            if k in kinds:
                return E.new(k, e, self.elems(a) | self.elems(b))
        if 'arg' in kinds and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub, ast.Add)):
            return E.new('set', e, self.elems(a) | self.elems(b))
        return NOTHING

    def e_Subscript(self, e):
        b = self.expr(e.value)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.expr(x)
            return self.E.new('tuple' if all(o.kind == 'tuple' for o in b) else 'list', e, self.elems(b)) if b else NOTHING
        self.expr(e.slice)
        out = set()
        for o in b:
            out |= self.E.get([o], self.key(e.slice))
            if o.kind == 'inst' and self.base(o) == 'defaultdict':
                d = self.E.alloc('dict', e, 'default')
                self.E.put([o], '*', frozenset([d]))
                out.add(d)
            elif o.kind == 'inst' or o.kind == 'arg':
                for f in self.methods(o, '__getitem__'):
                    out |= self.callfn(f, [frozenset([o]), NOTHING], {}, e)
        return frozenset(out)

    def e_Attribute(self, e):
        return self.attr(self.expr(e.value), e.attr, e)

    def attr(self, b, name, node):
        E = self.E
        out = set()
        for o in b:
            if o.kind == 'module':
                env = E.mods.get(o.data, {})
                if name in env:
                    out |= env[name]
                elif o.data + '.' + name in E.prog.modules:
                    out |= self.module(o.data + '.' + name)
            elif o.kind == 'ext':
                out.add(E.obj('ext', ('ext', '%s.%s' % (o.data, name)), data='%s.%s' % (o.data, name), glob=None))
            else:
                ms = self.methods(o, name)
                for f in ms:
                    if 'property' in (f.cls or ()):
                        out |= self.callfn(f, [frozenset([o])], {}, node)
                    else:
                        out.add(E.obj('bound', ('bound', id(o), id(f)), data=(o, f, name), glob=None))
                if ms:
                    continue
                vs = E.fields.get(o, {}).get('.' + name, NOTHING)
                out |= vs
                if o.kind == 'tuple':
                    out |= E.get([o])
                if o.kind == 'arg' and name in ('coders', 'properties', 'boundary_types'):
                    out.add(E.child(o))
                if not vs or o.kind == 'arg':
                    out.add(E.obj('bound', ('bound', id(o), name), data=(o, None, name), glob=None))
                if o.kind == 'inst' and isinstance(o.cls, O):
                    out |= E.get([o.cls], name, attr=True) - frozenset(x for x in out if x.kind == 'fn')
        return frozenset(out)

    def e_Lambda(self, e):
        f = Fn('<lambda>', e, self.mod, self, [self.expr(x) for x in e.args.defaults], {})
        o = self.E.obj('fn', ('fn', id(e), id(self), self.mod), data=f, glob=None)
        o.data = f
        return frozenset([o])

    def e_Await(self, e):
        return self.expr(e.value)

    def e_Yield(self, e):
        self.gen = self.gen if self.gen is not None else set()
        if e.value is not None:
            self.gen |= self.expr(e.value)
        return NOTHING

    def e_YieldFrom(self, e):
        self.gen = self.gen if self.gen is not None else set()
        self.gen |= self.elems(self.expr(e.value))
        return NOTHING

    # --- calls
    def e_Call(self, e):
        f = self.expr(e.func)
        args, kw = [], {}
        star = NOTHING
        for x in e.args:
            if isinstance(x, ast.Starred):
                s = self.expr(x.value)
                n = 0
                fixed = [o for o in s if o.kind == 'tuple' and set(self.E.fields.get(o, {})) - {'*'}]
                if fixed and len(s) == 1:
                    o = fixed[0]
                    ks = sorted(int(k) for k in self.E.fields[o] if k.isdigit())
                    for i in range((ks[-1] + 1) if ks else 0):
                        args.append(self.E.get([o], str(i)))
                star |= self.E.fields_star(s) if hasattr(self.E, 'fields_star') else self.elems(s)
            else:
                args.append(self.expr(x))
        dstar = []
        for k in e.keywords:
            v = self.expr(k.value)
            if k.arg is None:
                dstar.append(v)
            else:
                kw[k.arg] = v
        out = set()
        for o in f:
            out |= self.callobj(o, args, kw, star, dstar, e)
        return frozenset(out)

    def callobj(self, o, args, kw, star, dstar, node):
        E = self.E
        if o.kind == 'fn':
            return self.callfn(o, args, kw, node, star, dstar)
        if o.kind == 'bound':
            r, f, name = o.data
            if f is not None:
                deco = f.cls or ()
                if 'staticmethod' in deco:
                    return self.callfn(f, args, kw, node, star, dstar)
                if r.kind == 'class' and 'classmethod' not in deco:
                    return self.callfn(f, args, kw, node, star, dstar)
                return self.callfn(f, [frozenset([r])] + args, kw, node, star, dstar)
            return self.builtin_method(r, name, args, kw, node, dstar)
        if o.kind == 'class':
            return self.instantiate(o, args, kw, node, star, dstar)
        if o.kind == 'ext':
            return self.ext(o.data, args, kw, node, star, dstar)
        if o.kind == 'partial':
            g, a0, k0 = o.data
            k = dict(k0)
            k.update(kw)
            return self.callobj(g, list(a0) + args, k, star, dstar, node)
        return NOTHING

    def callfn(self, o, args, kw, node, star=NOTHING, dstar=()):
        f = o.data
        E = self.E
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        b = {}
        for n, v in zip(names, args):
            b[n] = v
        extra = args[len(names):]
        if star:
            for n in names[len(args):]:
                b[n] = b.get(n, NOTHING) | star
        rest = {}
        for n, v in kw.items():
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                b[n] = b.get(n, NOTHING) | v
            else:
                rest[n] = v
        allnames = names + [x.arg for x in a.kwonlyargs]
        for d in dstar:
            for x in d:
                fs = E.fields.get(x, {})
                if x.kind in ('arg', 'deep'):
                    fs = {'*': frozenset([E.child(x)])}
                for k, v in list(fs.items()):
                    if k.startswith('.'):
                        continue
                    if k == '*':
                        for n in allnames[len(args):]:
                            if n not in kw:
                                b[n] = b.get(n, NOTHING) | v
                        rest['*'] = rest.get('*', NOTHING) | v
                    elif k in allnames:
                        b[k] = b.get(k, NOTHING) | v
                    else:
                        rest[k] = rest.get(k, NOTHING) | v
        nd = len(f.defaults)
        for n, v in zip(names[len(names) - nd:], f.defaults) if nd else []:
            if n not in b or dstar or star:
                b[n] = b.get(n, NOTHING) | v
        for n, v in f.kwdefaults.items():
            if n not in b or dstar:
                b[n] = b.get(n, NOTHING) | v
        for n in allnames:
            b.setdefault(n, NOTHING)
        if a.vararg:
            t = E.alloc('tuple', node, 'va' + f.qual)
            for i, v in enumerate(extra):
                E.put([t], str(i), v)
            E.put([t], '*', star)
            b[a.vararg.arg] = frozenset([t])
        if a.kwarg:
            t = E.alloc('dict', node, 'kw' + f.qual)
            for k, v in rest.items():
                E.put([t], k, v)
            b[a.kwarg.arg] = frozenset([t])
        return E.invoke(f, b, node)

    def instantiate(self, c, args, kw, node, star, dstar):
        E = self.E
        o = E.alloc('inst', node, 'inst' + str(c.data))
        o.cls = c
        fs = self.methods(c, '__init__')
        for f in fs:
            self.callfn(f, [frozenset([o])] + args, kw, node, star, dstar)
        if not fs and self.isdict(o) and args:
            self.copyfields([o], args[0])
        return frozenset([o])

    def builtin_method(self, r, name, args, kw, node, dstar=()):
        """A method of a built-in container (or of an argument)."""
        E = self.E
        if r.kind in ('fn', 'class', 'module', 'ext', 'bound'):
            return NOTHING
        R = frozenset([r])
        if name in MUT or name in ('__iadd__',):
            if r.kind in ('list', 'dict', 'set', 'inst', 'arg', 'deep'):
                E.mutate(R, node, 'calls .%s()' % name)
                if name in ADDERS and args:
                    E.put(R, '*', args[-1])
                elif name in EXTENDERS:
                    for a in args:
                        if name == 'update' and any(x.kind == 'dict' for x in a):
                            self.copyfields(R, a)
                        else:
                            E.put(R, '*', E.get(a))
                    for k, v in kw.items():
                        E.put(R, k, v)
                    for d in dstar:
                        self.copyfields(R, d)
                elif name in ('setdefault', '__setitem__') and len(args) > 1:
                    E.put(R, '*', args[1])
        out = set()
        if name in ('values',):
            return E.new('list', node, E.get(R), 'values%d' % id(r))
        if name == 'items':
            t = E.alloc('tuple', node, 'item%d' % id(r))
            E.put([t], '1', E.get(R))
            return E.new('list', node, frozenset([t]), 'items%d' % id(r))
        if name in ('get', 'setdefault', 'pop', '__getitem__'):
            k = '*'
            if isinstance(node, ast.Call) and node.args:
                k = self.key(node.args[0])
            if r.kind == 'list' or r.kind == 'set':
                k = '*'
            out |= E.get(R, k)
            if len(args) > 1:
                out |= args[1]
            return frozenset(out)
        if name in ('popitem', 'popleft', '__next__', 'next'):
            return E.get(R)
        if name == 'copy':
            k = r.kind if r.kind in ('list', 'dict', 'set') else 'dict'
            o = E.alloc(k, node, 'copy%d' % id(r))
            self.copyfields([o], R)
            return frozenset([o])
        if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
            el = E.get(R)
            for a in args:
                el |= self.elems(a)
            return E.new('set', node, el, name)
        return NOTHING

    def ext(self, name, args, kw, node, star, dstar):
        E = self.E
        short = name.split('.')[-1]
        if E.stack:
            if name in IMPURE or short in ('urandom', 'uuid4') or name.startswith('random.'):
                E.report('impure', name, node, 'calls %s' % name)
            if name in STATEFUL:
                E.report('shared', STATEFUL[name], node, 'calls %s' % name)
        # methods called on a class: dict.update(x, ...), set.add(x, ...)
        if '.' in name and name.split('.')[-2] in ('dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'Counter', 'object') and args:
            if short == '__init__':
                for a in args[1:]:
                    pass
                return NOTHING
            out = set()
            for o in args[0]:
                out |= self.builtin_method(o, short, args[1:], kw, ast.Pass(), dstar)
            return frozenset(out)
        if short in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'deque', 'islice', 'chain', 'from_iterable', 'cycle', 'filterfalse', 'takewhile', 'dropwhile'):
            kind = {'tuple': 'tuple', 'set': 'set', 'frozenset': 'tuple'}.get(short, 'list')
            el = set()
            for a in args if short != 'islice' else args[:1]:
                el |= self.elems(a)
                if short == 'from_iterable':
                    el |= self.elems(self.elems(a))
            el |= star if short == 'chain' else NOTHING
            o = E.alloc(kind, node, short)
            E.put([o], '*', frozenset(el))
            return frozenset([o])
        if short in ('dict', 'OrderedDict', 'Counter', 'ChainMap'):
            o = E.alloc('dict', node, short)
            for a in args:
                for x in a:
                    if x.kind in ('list', 'tuple') and x.kind != 'arg':
                        E.put([o], '*', E.get(E.get([x]), '1'))
                    else:
                        self.copyfields([o], [x])
            for k, v in kw.items():
                E.put([o], k, v)
            for d in dstar:
                self.copyfields([o], d)
            return frozenset([o])
        if short == 'defaultdict':
            o = E.alloc('inst', node, short)
            o.cls = E.obj('class', ('class', 'defaultdict'), data='defaultdict', cls=(frozenset([E.obj('ext', ('ext', 'defaultdict'), data='defaultdict', glob=None)]), None), glob=None)
            for a in args[1:]:
                self.copyfields([o], a)
            return frozenset([o])
        if short == 'zip' or short == 'zip_longest' or short == 'product':
            t = E.alloc('tuple', node, short + 't')
            for i, a in enumerate(args):
                E.put([t], str(i), self.elems(a))
            for s in [star]:
                E.put([t], '*', self.elems(s))
            return E.new('list', node, frozenset([t]), short)
        if short == 'enumerate':
            t = E.alloc('tuple', node, short + 't')
            if args:
                E.put([t], '1', self.elems(args[0]))
            return E.new('list', node, frozenset([t]), short)
        if short in ('combinations', 'permutations', 'combinations_with_replacement', 'pairwise', 'groupby'):
            t = E.alloc('tuple', node, short + 't')
            if args:
                el = self.elems(args[0])
                if short == 'groupby':
                    E.put([t], '1', E.new('list', node, el, 'grp'))
                else:
                    E.put([t], '*', el)
            return E.new('list', node, frozenset([t]), short)
        if short in ('map', 'filter', 'reduce', 'starmap'):
            el = set()
            its = [self.elems(a) for a in args[1:]]
            for g in args[0] if args else ():
                if short == 'starmap':
                    el |= self.callobj(g, [self.E.get(its[0])], {}, NOTHING, [], node)
                elif short == 'reduce':
                    el |= self.callobj(g, [its[0], its[0]], {}, NOTHING, [], node)
                else:
                    el |= self.callobj(g, its, {}, NOTHING, [], node)
            if short == 'filter':
                el = its[0] if its else NOTHING
            return E.new('list', node, frozenset(el), short)
        if short in ('max', 'min', 'next'):
            el = set()
            for a in args:
                el |= self.elems(a) if len(args) == 1 or short == 'next' else a
            return frozenset(o for o in el)
        if short == 'deepcopy':
            if not args or not args[0]:
                return NOTHING
            out = set()
            for o in args[0]:
                if o.kind == 'inst':
                    d = E.alloc('inst', node, 'deep%d' % id(o))
                    d.cls = o.cls
                    E.put([d], '*', frozenset([E.alloc('deep', node, 'd')]))
                    out.add(d)
                elif o.kind == 'arg':
                    out.add(E.alloc('deep', node, 'd'))
                elif o.kind in ('list', 'set', 'dict', 'tuple'):
                    d = E.alloc(o.kind, node, 'deep%d' % id(o))
                    E.put([d], '*', frozenset([E.alloc('deep', node, 'd')]))
                    out.add(d)
                elif o.kind in ('fn', 'class', 'ext', 'deep'):
                    out.add(o)
            return frozenset(out)
        if name in ('copy.copy', 'copy'):
            out = set()
            for o in args[0] if args else ():
                d = E.alloc(o.kind if o.kind in ('list', 'set', 'dict', 'tuple', 'inst') else 'dict', node, 'copy%d' % id(o))
                d.cls = o.cls
                self.copyfields([d], [o])
                out.add(d)
            return frozenset(out)
        if short == 'setattr' and args:
            E.mutate(args[0], node, 'calls setattr()')
            if len(args) > 2:
                E.put(args[0], '*', args[2])
            return NOTHING
        if short == 'delattr' and args:
            E.mutate(args[0], node, 'calls delattr()')
            return NOTHING
        if short == 'vars' and args:
            return args[0]
        if short == 'getattr' and args:
            n = node.args[1].value if len(node.args) > 1 and isinstance(node.args[1], ast.Constant) else None
            r = self.attr(args[0], n, node) if isinstance(n, str) else E.get(args[0])
            if len(args) > 2:
                r |= args[2]
            return r
        if short == 'globals':
            return frozenset([E.obj('inst', ('globals', self.mod), glob=self.mod, data='globals')])
        if short == 'partial' and args:
            out = set()
            for g in args[0]:
                out.add(E.obj('partial', ('partial', id(node), id(g)) + tuple(id(x[0]) for x in E.stack[-3:]),
                              data=(g, tuple(args[1:]), dict(kw)), glob=None))
            for o in out:
                o.data = (o.data[0], tuple(args[1:]), dict(kw))
            return frozenset(out)
        if short == 'namedtuple':
            flds = []
            if isinstance(node, ast.Call) and len(node.args) > 1:
                v = node.args[1]
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    flds = v.value.replace(',', ' ').split()
                elif isinstance(v, (ast.List, ast.Tuple)):
                    flds = [x.value for x in v.elts if isinstance(x, ast.Constant)]
            return frozenset([E.obj('ext', ('ntclass', id(node)), data='tupleclass', glob=None)])
        if short == 'tupleclass':
            t = E.alloc('tuple', node, 'nt')
            for i, a in enumerate(args):
                E.put([t], str(i), a)
            for k, v in kw.items():
                E.put([t], '*', v)
            return frozenset([t])
        if short == 'super':
            return NOTHING
        # Methods of unresolved external classes called with self: X.__init__(self, ...)
        return NOTHING
