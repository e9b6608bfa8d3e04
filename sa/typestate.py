"""Opened files, as a typestate: every path out of a function, by return, by
raising or by falling off its end, has closed what it opened or handed it over.

Structured data flow over the syntax tree.  A state is a set of open handles
and the names that denote each; a statement maps a set of states to sets of
states per kind of exit."""
import ast

MAX = 64
OPENERS = {'open', 'codecs.open', 'io.open', 'os.fdopen', 'gzip.open', 'bz2.open', 'lzma.open', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile'}
# what cannot fail in a way a caller could meet, or does not keep the file
SAFE = {'csv.reader', 'csv.writer', 'csv.DictReader', 'csv.DictWriter', 'list', 'dict', 'tuple', 'set', 'frozenset', 'enumerate', 'iter', 'len', 'str',
        'repr', 'isinstance', 'type', 'bool', 'id', 'callable', 'hasattr', 'object'}
READS = SAFE | {'json.load', 'json.dump', 'next', 'zip', 'map', 'filter', 'sorted', 'reversed', 'print', 'any', 'all', 'itertools.islice', 'itertools.chain',
                'shutil.copyfileobj', 'codecs.getreader', 'codecs.getwriter', 'enumerate'}


class Handle(object):
    def __init__(self, node, label):
        self.node, self.label = node, label

    @property
    def line(self):
        return self.node.lineno


class State(object):
    """open: handle -> names that denote it; gone: names known to denote a closed or no file."""

    def __init__(self, opened=(), names=()):
        self.open = frozenset(opened)
        self.names = frozenset(names)       # (name, handle)
        self.key = (self.open, self.names)

    def __eq__(self, o):
        return self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def of(self, n):
        return set(h for m, h in self.names if m == n)

    def close(self, hs):
        return State(self.open - frozenset(hs), self.names)

    def bind(self, n, hs):
        return State(self.open, [x for x in self.names if x[0] != n] + [(n, h) for h in hs])

    def add(self, h):
        return State(set(self.open) | set([h]), self.names)


class Flow(object):
    """Exits of a statement list: kind -> set of states."""

    def __init__(self):
        self.out = {}

    def put(self, kind, states):
        self.out.setdefault(kind, set()).update(states)
        return self

    def get(self, kind):
        return self.out.get(kind, set())


class Unclear(Exception):
    pass


def dotted(e, aliases):
    p = []
    while isinstance(e, ast.Attribute):
        p.append(e.attr)
        e = e.value
    if not isinstance(e, ast.Name):
        return None
    base = aliases.get(e.id, e.id)
    return '.'.join([base] + p[::-1])


def module_aliases(tree):
    out = {}
    for s in ast.walk(tree):
        if isinstance(s, ast.Import):
            for a in s.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(s, ast.ImportFrom) and s.module and not s.level:
            for a in s.names:
                out[a.asname or a.name] = s.module + '.' + a.name
    return out


class Function(object):
    def __init__(self, an, mod, qual, node):
        self.an, self.mod, self.qual, self.node = an, mod, qual, node
        self.aliases = an.aliases[mod]
        self.handles = {}
        self.escaped = set()
        self.returned = set()
        self.leaks = {}
        self.loop = 0

    # -------------------------------------------------------- expressions
    def opener(self, e):
        if not isinstance(e, ast.Call):
            return False
        d = dotted(e.func, self.aliases)
        if d in OPENERS:
            return True
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'open' and d is None:
            return True
        if d is None:
            return False
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'open' and d.split('.')[0] not in ('os', 'webbrowser'):
            return True
        return self.an.opens(self.mod, d)

    def handle(self, call):
        h = self.handles.get(call)
        if h is None:
            h = self.handles[call] = Handle(call, dotted(call.func, self.aliases) or 'open')
        return h

    def denoted(self, e, st):
        """Handles an expression evaluates to."""
        if isinstance(e, ast.Name):
            return st.of(e.id)
        if isinstance(e, ast.Call) and self.opener(e):
            return set([self.handle(e)])
        if isinstance(e, ast.IfExp):
            return self.denoted(e.body, st) | self.denoted(e.orelse, st)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.denoted(x, st) for x in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.denoted(e.value, st)
        return set()

    def releases(self, e, st):
        """Handles closed by evaluating e."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'close' and not e.args:
            return self.denoted(e.func.value, st)
        return set()

    def evaluate(self, e, st):
        """(state afterwards, states in which an exception may leave)."""
        if e is None:
            return st, set()
        if isinstance(e, (ast.Lambda,)):
            self.capture(e, st)
            return st, set()
        if isinstance(e, (ast.Name, ast.Constant)):
            return st, set()
        rs = self.releases(e, st)
        if rs:
            return st.close(rs), set()
        exc = set()
        raises = False
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for n in ast.walk(e):
                if isinstance(n, ast.Call) and self.opener(n):
                    raise Unclear('a file opened in a comprehension')
            return st, set([st])
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                st, x = self.evaluate(ch, st)
                exc |= x
            elif isinstance(ch, ast.keyword):
                st, x = self.evaluate(ch.value, st)
                exc |= x
        if isinstance(e, ast.Call):
            d = dotted(e.func, self.aliases)
            if self.opener(e):
                exc.add(st)
                return st.add(self.handle(e)), exc
            raises = d not in SAFE
            if d is not None and d.split('.')[-1] in self.an.classes and not e.args and not e.keywords:
                raises = False
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('append', 'items', 'keys', 'values', 'strip', 'format', 'join', 'add', 'lower'):
                raises = False
            for a in list(e.args) + [k.value for k in e.keywords]:
                hs = self.denoted(a.value if isinstance(a, ast.Starred) else a, st)
                if hs and d in ('contextlib.closing', 'closing'):
                    continue
                if hs and d not in READS:
                    self.escaped |= hs
        elif isinstance(e, (ast.Subscript, ast.BinOp, ast.Compare, ast.Await)):
            raises = not isinstance(e, ast.Compare) or any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in e.ops)
        elif isinstance(e, (ast.Yield, ast.YieldFrom)):
            raises = True
        elif isinstance(e, (ast.List, ast.Tuple, ast.Dict, ast.Set)):
            for x in ast.iter_child_nodes(e):
                self.escaped |= self.denoted(x, st) if isinstance(x, ast.expr) else set()
        if isinstance(e, ast.NamedExpr) and isinstance(e.target, ast.Name):
            st = st.bind(e.target.id, self.denoted(e.value, st))
        if raises:
            exc.add(st)
        return st, exc

    def capture(self, node, st):
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                self.escaped |= st.of(n.id)

    # --------------------------------------------------------- statements
    def block(self, body, states):
        f = Flow()
        cur = set(states)
        for s in body:
            if not cur:
                break
            nxt = set()
            for st in cur:
                r = self.stmt(s, st)
                for k, v in r.out.items():
                    if k == 'normal':
                        nxt |= v
                    else:
                        f.put(k, v)
            cur = nxt
            if len(cur) > MAX:
                raise Unclear('too many paths')
        return f.put('normal', cur)

    def expr_flow(self, e, st):
        st2, exc = self.evaluate(e, st)
        return st2, Flow().put('raise', exc)

    def assign(self, t, hs, st):
        if isinstance(t, ast.Name):
            if self.an.is_global(self.node, t.id):
                self.escaped |= hs
            return st.bind(t.id, hs)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.assign(x, set(), st)
            return st
        self.escaped |= hs
        return st

    def known(self, test, st):
        """Truth of a test about a handle, or None."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            r = self.known(test.operand, st)
            return None if r is None else not r
        if isinstance(test, ast.Name) and test.id in self.tracked:
            hs = st.of(test.id)
            return bool(hs) if hs or test.id in self.nones else None
        if isinstance(test, ast.Attribute) and test.attr == 'closed' and isinstance(test.value, ast.Name) and test.value.id in self.tracked:
            hs = st.of(test.value.id)
            return None if not hs else not (hs & st.open)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id in self.tracked and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            hs = st.of(test.left.id)
            if not hs and test.left.id not in self.nones:
                return None
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                return not hs
            if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                return bool(hs)
        if isinstance(test, ast.BoolOp):
            rs = [self.known(x, st) for x in test.values]
            if isinstance(test.op, ast.And):
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if isinstance(test, ast.Constant):
            return bool(test.value)
        return None

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is not None:
            return m(s, st)
        f = Flow()
        exc = set()
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                st, x = self.evaluate(ch, st)
                exc |= x
        return f.put('raise', exc).put('normal', [st])

    def s_FunctionDef(self, s, st):
        self.capture(s, st)
        return Flow().put('normal', [st])
    s_AsyncFunctionDef = s_ClassDef = s_FunctionDef

    def s_Import(self, s, st):
        return Flow().put('normal', [st])
    s_ImportFrom = s_Pass = s_Global = s_Nonlocal = s_Import

    def s_Expr(self, s, st):
        st, f = self.expr_flow(s.value, st)
        hs = self.denoted(s.value, st) if isinstance(s.value, ast.Call) else set()
        return f.put('normal', [st])

    def s_Assign(self, s, st):
        st, f = self.expr_flow(s.value, st)
        hs = self.denoted(s.value, st)
        for t in s.targets:
            if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                for x, y in zip(t.elts, s.value.elts):
                    y = self.denoted(y, st)
                    self.escaped -= y if isinstance(x, ast.Name) else set()
                    st = self.assign(x, y, st)
            else:
                st = self.assign(t, hs, st)
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    f.put('raise', [st])
        return f.put('normal', [st])

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return Flow().put('normal', [st])
        st, f = self.expr_flow(s.value, st)
        return f.put('normal', [self.assign(s.target, self.denoted(s.value, st), st)])

    def s_AugAssign(self, s, st):
        st, f = self.expr_flow(s.value, st)
        return f.put('raise', [st]).put('normal', [st])

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st = st.bind(t.id, [])
        return Flow().put('normal', [st])

    def s_Return(self, s, st):
        if s.value is None:
            return Flow().put('return', [st])
        st, f = self.expr_flow(s.value, st)
        hs = self.denoted(s.value, st)
        if isinstance(s.value, (ast.Tuple, ast.List)):
            for x in s.value.elts:
                hs = hs | self.denoted(x, st)
        self.returned |= hs
        return f.put('return', [st.close(hs)])

    def s_Raise(self, s, st):
        f = Flow()
        for e in (s.exc, s.cause):
            st, g = self.expr_flow(e, st)
            f.put('raise', g.get('raise'))
        return f.put('raise', [st])

    def s_Assert(self, s, st):
        st, f = self.expr_flow(s.test, st)
        return f.put('raise', [st]).put('normal', [st])

    def s_Break(self, s, st):
        return Flow().put('break', [st])

    def s_Continue(self, s, st):
        return Flow().put('continue', [st])

    def s_If(self, s, st):
        k = self.known(s.test, st)
        st, f = self.expr_flow(s.test, st)
        for want, body in ((True, s.body), (False, s.orelse)):
            if k is None or k is want:
                for kind, v in self.block(body, [st]).out.items():
                    f.put(kind, v)
        return f

    def looped(self, s, st, infinite=False):
        f = Flow()
        seen, todo, exits = set(), set([st]), set()
        while todo:
            cur = todo - seen
            if not cur:
                break
            seen |= cur
            if len(seen) > MAX:
                raise Unclear('too many paths')
            r = self.block(s.body, cur)
            for k, v in r.out.items():
                if k == 'break':
                    exits |= v
                elif k not in ('normal', 'continue'):
                    f.put(k, v)
            todo = r.get('normal') | r.get('continue')
        done = set() if infinite else seen
        r = self.block(s.orelse, done) if s.orelse else Flow().put('normal', done)
        for k, v in r.out.items():
            f.put(k, v)
        return f.put('normal', exits)

    def s_For(self, s, st):
        st, f = self.expr_flow(s.iter, st)
        f.put('raise', [st] if st.open & self.denoted(s.iter, st) or not isinstance(s.iter, (ast.Name, ast.List, ast.Tuple, ast.Constant)) else [])
        st = self.assign(s.target, set(), st)
        for k, v in self.looped(s, st).out.items():
            f.put(k, v)
        return f
    s_AsyncFor = s_For

    def s_While(self, s, st):
        st, f = self.expr_flow(s.test, st)
        inf = isinstance(s.test, ast.Constant) and bool(s.test.value)
        for k, v in self.looped(s, st, inf).out.items():
            f.put(k, v)
        return f

    def s_With(self, s, st):
        f = Flow()
        held = set()
        for it in s.items:
            e = it.context_expr
            inner = e
            if isinstance(e, ast.Call) and dotted(e.func, self.aliases) in ('contextlib.closing', 'closing') and len(e.args) == 1:
                inner = e.args[0]
            st, exc = self.evaluate(inner, st)
            # what is held is released when a later item cannot be opened
            f.put('raise', [x.close(held) for x in exc])
            hs = self.denoted(inner, st)
            if not hs and isinstance(e, ast.Call) and inner is e:
                f.put('raise', [st.close(held)])
            held |= hs
            if it.optional_vars is not None:
                st = self.assign(it.optional_vars, hs, st)
        for k, v in self.block(s.body, [st]).out.items():
            f.put(k, [x.close(held) for x in v])
        return f
    s_AsyncWith = s_With

    def catches_all(self, h):
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return any(t is None or isinstance(t, ast.Name) and t.id in ('Exception', 'BaseException') for t in ts)

    def s_Try(self, s, st):
        body = self.block(s.body, [st])
        f = Flow()
        raised = body.get('raise')
        for k, v in body.out.items():
            if k not in ('raise', 'normal'):
                f.put(k, v)
        if s.orelse:
            for k, v in self.block(s.orelse, body.get('normal')).out.items():
                f.put(k, v)
        else:
            f.put('normal', body.get('normal'))
        if raised:
            for h in s.handlers:
                start = [x.bind(h.name, []) if h.name else x for x in raised]
                for k, v in self.block(h.body, start).out.items():
                    f.put(k, v)
        if not any(self.catches_all(h) for h in s.handlers):
            f.put('raise', raised)
        if not s.finalbody:
            return f
        g = Flow()
        for k, v in f.out.items():
            if not v:
                continue
            for k2, v2 in self.block(s.finalbody, v).out.items():
                g.put(k if k2 == 'normal' else k2, v2)
        return g
    s_TryStar = s_Try

    # ----------------------------------------------------------------- run
    def run(self):
        self.tracked, self.nones = set(), set()
        for n in ast.walk(self.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(n.value, ast.Call) and self.opener(n.value) or isinstance(n.value, ast.Name):
                            self.tracked.add(t.id)
                        if isinstance(n.value, ast.Constant) and n.value.value is None:
                            self.nones.add(t.id)
        # a name that is None or the file and nothing else
        for n in ast.walk(self.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id in self.tracked and not (
                            isinstance(n.value, ast.Call) and self.opener(n.value) or isinstance(n.value, ast.Constant) and n.value.value is None):
                        self.nones.discard(t.id)
        f = self.block(self.node.body, [State()])
        for kind in ('normal', 'return', 'raise'):
            for st in f.get(kind):
                for h in st.open:
                    self.leaks.setdefault(h, set()).add({'normal': 'returns', 'return': 'returns', 'raise': 'raises'}[kind])
        return self


class Files(object):
    def __init__(self, prog):
        self.prog = prog
        self.aliases = {m: module_aliases(t) for m, (p, t) in prog.modules.items()}
        self.classes = set(n.name for m, (p, t) in prog.modules.items() for n in ast.walk(t) if isinstance(n, ast.ClassDef))
        self.fns = [(m, q, n) for m, q, n in prog.functions() if not m.startswith('specs.')]
        self.handing = set()          # (module, name) of functions that return an open file
        self.results = []
        self.unclear = []

    def opens(self, mod, d):
        return (mod, d) in self.handing or tuple(d.rsplit('.', 1)) in self.handing if '.' in d else (mod, d) in self.handing

    def is_global(self, fn, name):
        return any(isinstance(s, (ast.Global, ast.Nonlocal)) and name in s.names for s in ast.walk(fn))

    def run(self):
        while True:
            self.results, self.unclear = [], []
            more = set()
            for m, q, n in self.fns:
                f = Function(self, m, q, n)
                try:
                    f.run()
                except Unclear as e:
                    self.unclear.append('%s.%s: %s' % (m, q, e))
                    continue
                self.results.append(f)
                if f.returned and '.' not in q:
                    more.add((m, q))
            if more <= self.handing:
                return self
            self.handing |= more
