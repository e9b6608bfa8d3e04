"""Rules that are not value equalities (effects, identity, number kinds,
imports).  Each returns a Report; findings are keyed by rule and construct."""
import ast
import builtins as _b

from .effects import Effects
from .typestate import Files


class Report(object):
    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.findings = []
        self.undetermined = []
        self.units = set()
        self.stats = {}

    def find(self, key, msg, **detail):
        if key not in [f[0] for f in self.findings]:
            self.findings.append((key, msg, detail))


def package_functions(ctx):
    for mod, q, node in ctx.prog.functions():
        if not mod.startswith('specs.'):
            yield mod, q, node


# ------------------------------------------------------------------ effects
def public(m, cls, node):
    n = node.name
    if cls is not None:
        return not cls.startswith('_') and (not n.startswith('_') or n in ('__add__', '__iadd__', '__init__', '__eq__', '__len__',
                                                                        '__repr__', '__str__', '__contains__', '__iter__'))
    return not n.startswith('_')


# what a call is meant to change: (function or method, parameter)
MEANT = {('__iadd__', 'self'), ('__init__', 'self'), ('load_nested_folders_dict', 'dataset'), ('__getitem__', 'self'),
         ('__setitem__', 'self')}


def run_effects(ctx):
    E = getattr(ctx, 'effects', None)
    if E is None:
        E = ctx.effects = Effects(ctx.prog)
        E.load_all()
        E.results = []
        for m, c, n in E.entries():
            if m == 'segeval' or not public(m, c, n):
                continue
            E.found = {}
            E.entered = set()
            r = E.analyse(m, c, n)
            glob = [o for o in E.reachable(r) if o.glob is not None and o.kind in ('list', 'dict', 'set', 'inst')]
            E.results.append((m, c, n, list(E.found.values()), [E.describe(o) for o in glob], set(E.entered)))
    return E


def name_of(m, c, n):
    return '%s.%s%s' % (m, c + '.' if c else '', n.name)


def arguments_unchanged(ctx):
    R = Report('effects')
    E = run_effects(ctx)
    for m, c, n, found, glob, units in E.results:
        ps = len(n.args.args) + len(n.args.kwonlyargs) + bool(n.args.vararg) + bool(n.args.kwarg)
        R.obligations += max(1, ps)
        R.units |= units
        for f in found:
            if f['kind'] == 'argument' and (n.name, f['root']) not in MEANT:
                R.find('%s:%s:%s' % (name_of(m, c, n), f['root'], f['func']),
                       '%s:%s %s %s, which may be (part of) argument %s of %s' % (
                           f['file'], f['line'], f['func'], f['what'], f['root'], name_of(m, c, n)), path=f['path'])
    R.stats['public_entry_points'] = len(E.results)
    return R


def events_rule(name, wanted, text):
    def rule(ctx, outcomes):
        R = Report(name)
        for o, info in outcomes:
            f = info.get('facts')
            R.units |= set(info.get('visited', ()))
            R.obligations += 1
            if f is None:
                R.undetermined.append(o.name)
                continue
            for e in f['events']:
                if e['kind'] in wanted:
                    R.find('%s:%s' % (e['func'], e['what'] or e['kind']),
                           '%s:%s in %s: %s (%s %s)' % (e['file'], e['line'], e['func'], text[e['kind']], e['root'], e['what']),
                           obligation=o.name)
        return R
    rule.needs_outcomes = True
    return rule


typed_mutations = events_rule('typed-effects', ('mutation', 'autoinsert', 'dsread'),
                              {'mutation': 'changes data that was passed in or is shared between calls',
                               'autoinsert': 'reading adds an entry to a matrix that was passed in',
                               'dsread': 'reading may add an item to a dataset that was passed in'})


def shared_containers(ctx, outcomes):
    """A container changed through one dataset is not also part of another object."""
    R = Report('shared-container')
    for o, info in outcomes:
        if 'C21' not in o.props:
            continue
        f = info.get('facts')
        R.units |= set(info.get('visited', ()))
        R.obligations += 1
        if f is None:
            R.undetermined.append(o.name)
            continue
        for e in f['events']:
            if e['kind'] == 'shared':
                R.find(e['root'].split(' in ')[-1], 'the codings of an item are put into a second container at %s; changing them '
                       'there (%s) changes both' % (e['root'], e['func']), obligation=o.name)
    return R


shared_containers.needs_outcomes = True


def no_shared_state(ctx):
    R = Report('shared-state')
    E = run_effects(ctx)
    for m, c, n, found, glob, units in E.results:
        R.obligations += 1
        R.units |= units
        for f in found:
            if f['kind'] in ('shared', 'impure'):
                R.find('%s:%s:%s' % (name_of(m, c, n), f['root'], f['func']),
                       '%s:%s %s %s: %s outlives the call of %s' % (
                           f['file'], f['line'], f['func'], f['what'], f['root'], name_of(m, c, n)), path=f['path'])
        for g in glob:
            R.find('%s:returns:%s' % (name_of(m, c, n), g), '%s returns an object shared between calls (%s)' % (name_of(m, c, n), g))
    for mod, q, node in package_functions(ctx):
        for d in node.decorator_list:
            s = ast.dump(d)
            if 'lru_cache' in s or "'cache'" in s:
                R.undetermined.append('cached function ' + q)
    return R


typed_globals = events_rule('typed-globals', ('globalwrite',), {'globalwrite': 'writes a module-level variable'})


# ------------------------------------------------------------------ identity
SINGLETON_NAMES = {'None', 'NotImplemented', 'Ellipsis'}


def identity(ctx):
    """Operands of `is`: only singletons, classes and sentinels."""
    R = Report('identity')
    n = 0
    for mod in sorted(ctx.prog.modules):
        if mod.startswith('specs.'):
            continue
        path, tree = ctx.prog.modules[mod]
        sent = set()
        classes = set()
        for s in ast.walk(tree):
            if isinstance(s, ast.ClassDef):
                classes.add(s.name)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name)[:1].isupper():
                        classes.add(a.asname or a.name)
        for s in tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) \
                    and s.value.func.id in ('object', 'namedtuple', 'type', 'enum'):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        sent.add(t.id)
        for fn, q, assigned, params, node in scopes(tree):
            for x in node:
                if isinstance(x, ast.Compare):
                    left = x.left
                    for op, right in zip(x.ops, x.comparators):
                        if isinstance(op, (ast.Is, ast.IsNot)):
                            n += 1
                            verdict = identity_ok(left, right, sent, classes, assigned, params)
                            if verdict is False:
                                R.find('%s:%s:%s' % (mod, q, ast.unparse(x)[:60]),
                                       '%s:%s in %s: `%s` compares values by identity' % (
                                           ctx.prog.rel(path), x.lineno, q, ast.unparse(x)[:80]))
                            elif verdict is None:
                                R.undetermined.append('%s: %s' % (q, ast.unparse(x)[:60]))
                        left = right
                elif isinstance(x, ast.Call):
                    f = x.func
                    if isinstance(f, ast.Name) and f.id == 'id' and 'id' not in assigned and 'id' not in params:
                        n += 1
                        R.find('%s:%s:id' % (mod, q), '%s:%s in %s: id() of a value' % (ctx.prog.rel(path), x.lineno, q))
                    elif isinstance(f, ast.Attribute) and f.attr in ('is_', 'is_not') and isinstance(f.value, ast.Name) and f.value.id == 'operator':
                        n += 1
                        R.find('%s:%s:is_' % (mod, q), '%s:%s in %s: operator.%s' % (ctx.prog.rel(path), x.lineno, q, f.attr))
            R.units.add(mod + ':' + q)
    R.obligations = max(n, 1) + len(R.findings)
    R.stats['identity_comparisons'] = n
    return R


def scopes(tree):
    """(function, qualname, {name: [values]}, params, nodes) per scope."""
    out = []

    def go(node, q):
        body = []
        params = []
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            params = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs] + \
                     [x.arg for x in (a.vararg, a.kwarg) if x]
        assigned = {}
        todo = list(ast.iter_child_nodes(node))
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                go(x, (q + '.' if q else '') + x.name)
                continue
            body.append(x)
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        assigned.setdefault(t.id, []).append(x.value)
                    else:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name):
                                assigned.setdefault(y.id, []).append(None)
            elif isinstance(x, (ast.For, ast.comprehension)):
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name):
                        assigned.setdefault(y.id, []).append(None)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and isinstance(x.target, ast.Name):
                assigned.setdefault(x.target.id, []).append(None)
            todo.extend(ast.iter_child_nodes(x))
        out.append((node, q or '<module>', assigned, set(params), body))
    go(tree, '')
    return out


def boolean(e, assigned, params):
    """Syntactically always a bool."""
    if isinstance(e, ast.Compare):
        return True
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return True
    if isinstance(e, ast.BoolOp):
        return all(boolean(x, assigned, params) for x in e.values)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'hasattr', 'any', 'all', 'bool', 'callable'):
        return True
    if isinstance(e, ast.Constant):
        return isinstance(e.value, bool)
    if isinstance(e, ast.Name) and e.id not in params and assigned.get(e.id):
        return all(v is not None and boolean(v, {}, params) for v in assigned[e.id])
    return False


def identity_ok(a, b, sent, classes, assigned, params):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, ast.Constant) and (x.value is None or x.value is Ellipsis):
            return True
        if isinstance(x, ast.Constant) and isinstance(x.value, bool):
            return True if boolean(y, assigned, params) else False if option(y, assigned, params) else None
        if isinstance(x, ast.Name) and x.id in SINGLETON_NAMES:
            return True
        if isinstance(x, ast.Name) and x.id not in assigned and x.id not in params and \
                (x.id in sent or x.id in classes or isinstance(getattr(_b, x.id, None), type)):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'type':
            return True
        if isinstance(x, ast.Attribute) and x.attr == '__class__':
            return True
    # whole arguments (a shortcut for "the very same object")
    if isinstance(a, ast.Name) and isinstance(b, ast.Name) and a.id in params and b.id in params \
            and a.id not in assigned and b.id not in assigned:
        return None
    return False


def option(e, assigned, params):
    if isinstance(e, ast.Name):
        if e.id in params and e.id not in assigned:
            return True
        vs = assigned.get(e.id)
        return bool(vs) and all(v is not None and isinstance(v, ast.Subscript) for v in vs)
    return isinstance(e, ast.Subscript)


# ------------------------------------------------------------------ kinds
def decimal_results(ctx, outcomes):
    R = Report('number-kinds')
    for o, info in outcomes:
        f = info.get('facts')
        R.units |= set(info.get('visited', ()))
        R.obligations += 1
        if f is None:
            R.undetermined.append(o.name)
            continue
        if 'float' in f['kinds']:
            fns = [x for x in info.get('visited', ()) if ':' in x]
            R.find('result:' + o.name, 'a binary floating-point number reaches the result of %s (analysed through %s)' % (
                o.name, ', '.join(fns[:10])), kind=f['kind'])
        for e in f['events']:
            if e['kind'] in ('float2dec', 'mixed'):
                R.find('%s:%s' % (e['func'], e['kind']), '%s:%s in %s: %s' % (
                    e['file'], e['line'], e['func'], 'a binary floating-point number is turned into a decimal'
                    if e['kind'] == 'float2dec' else 'binary floating-point and decimal arithmetic are mixed'), obligation=o.name)
    return R


decimal_results.needs_outcomes = True


# ------------------------------------------------------------------ imports
API = {
    'segeval.agreement': ['actual_agreement_linear'], 'segeval.agreement.bias': ['artstein_poesio_bias_linear'],
    'segeval.agreement.kappa': ['fleiss_kappa_linear'], 'segeval.agreement.pi': ['fleiss_pi_linear'],
    'segeval.data': ['Dataset', 'load_nested_folders_dict'],
    'segeval.data.jsonutils': ['Field', 'input_linear_mass_json', 'output_linear_mass_json'],
    'segeval.data.tsv': ['input_linear_mass_tsv'],
    'segeval.data.samples': ['KAZANTSEVA2012_G5', 'KAZANTSEVA2012_G2', 'COMPLETE_AGREEMENT', 'LARGE_DISAGREEMENT',
                             'HEARST_1997_STARGAZER', 'HYPOTHESIS_STARGAZER'],
    'segeval.ml': ['Average', 'precision', 'recall', 'fmeasure', 'ConfusionMatrix'],
    'segeval.similarity': ['boundary_confusion_matrix', 'boundary_statistics'],
    'segeval.similarity.boundary': ['boundary_similarity'], 'segeval.similarity.segmentation': ['segmentation_similarity'],
    'segeval.similarity.distance.multipleboundary': ['boundary_edit_distance'],
    'segeval.similarity.weight': ['weight_a', 'weight_s', 'weight_s_scale', 'weight_t', 'weight_t_scale'],
    'segeval.window': ['compute_window_size'], 'segeval.window.pk': ['pk'], 'segeval.window.windowdiff': ['window_diff'],
    'segeval.compute': ['summarize'],
    'segeval.format': ['BoundaryFormat', 'boundary_string_from_masses', 'convert_positions_to_masses',
                       'convert_masses_to_positions', 'convert_nltk_to_masses'],
}


class ImportFailure(Exception):
    pass


class Importer(object):
    """Module-level name binding in import order (what `import X` executes)."""

    def __init__(self, prog):
        self.prog = prog
        self.names = {}
        self.done = set()
        self.trace = []

    def imp(self, name, why):
        parts = name.split('.')
        for i in range(1, len(parts) + 1):
            n = '.'.join(parts[:i])
            if n in self.names:
                continue
            if n not in self.prog.modules:
                if parts[0] == self.prog.package:
                    raise ImportFailure('%s imports %s, which does not exist' % (why, n))
                return
            self.names[n] = {'__name__', '__file__', '__doc__', '__path__', '__package__'}
            self.run(n, self.prog.modules[n][1].body)
            self.done.add(n)
            if i > 1:
                self.names['.'.join(parts[:i - 1])].add(parts[i - 1])

    def bind(self, m, t):
        for y in ast.walk(t):
            if isinstance(y, ast.Name):
                self.names[m].add(y.id)

    def run(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split('.')[0] == self.prog.package:
                        self.imp(a.name, '%s:%d' % (m, s.lineno))
                    self.names[m].add(a.asname or a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    ps = m.split('.')
                    if not self.prog.is_pkg.get(m):
                        ps = ps[:-1]
                    ps = ps[:len(ps) - (s.level - 1)]
                    base = '.'.join(ps + ([s.module] if s.module else []))
                if base.split('.')[0] == self.prog.package:
                    self.imp(base, '%s:%d' % (m, s.lineno))
                    for a in s.names:
                        if a.name == '*':
                            self.names[m] |= {x for x in self.names[base] if not x.startswith('_')}
                            continue
                        if a.name not in self.names[base]:
                            sub = base + '.' + a.name
                            if sub in self.prog.modules:
                                self.imp(sub, '%s:%d' % (m, s.lineno))
                            else:
                                part = ' (only partly imported at that point)' if base not in self.done else ''
                                raise ImportFailure('%s:%d imports %s from %s, which does not define it%s' % (m, s.lineno, a.name, base, part))
                        self.names[m].add(a.asname or a.name)
                else:
                    for a in s.names:
                        self.names[m].add(a.asname or a.name)
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                if isinstance(s, ast.ClassDef):
                    self.use(m, s.bases)
                self.names[m].add(s.name)
            elif isinstance(s, ast.Assign):
                self.use(m, [s.value])
                for t in s.targets:
                    self.bind(m, t)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                self.bind(m, s.target)
            elif isinstance(s, ast.If):
                if isinstance(s.test, ast.Name) and s.test.id == 'TYPE_CHECKING' or \
                        isinstance(s.test, ast.Attribute) and s.test.attr == 'TYPE_CHECKING':
                    continue
                self.run(m, s.body)
                self.run(m, s.orelse)
            elif isinstance(s, ast.Try):
                try:
                    self.run(m, s.body)
                except ImportFailure:
                    if not s.handlers:
                        raise
                for h in s.handlers:
                    try:
                        self.run(m, h.body)
                    except ImportFailure:
                        pass
                self.run(m, s.orelse)
                self.run(m, s.finalbody)
            elif isinstance(s, (ast.For, ast.While, ast.With)):
                if isinstance(s, ast.For):
                    self.bind(m, s.target)
                self.run(m, s.body)

    def use(self, m, exprs):
        for e in exprs:
            if isinstance(e, ast.Name) and e.id not in self.names[m] and not hasattr(_b, e.id):
                raise ImportFailure('%s:%d uses %s before it is defined' % (m, e.lineno, e.id))


def imports(ctx):
    R = Report('imports')
    for m in sorted(ctx.prog.modules):
        if m.startswith('specs.'):
            continue
        R.obligations += 1
        R.units.add(m)
        I = Importer(ctx.prog)
        try:
            I.imp(m, 'the caller')
        except ImportFailure as e:
            R.find('first:' + m, 'importing %s first fails: %s' % (m, e))
        except RecursionError:
            R.undetermined.append(m)
    return R


def api(ctx):
    """Every documented name is reachable from the package."""
    R = Report('api')
    tree = ctx.prog.modules['segeval'][1]
    table = None
    for s in tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict) and any(isinstance(t, ast.Name) and t.id == 'all_by_module' for t in s.targets):
            try:
                table = ast.literal_eval(s.value)
            except ValueError:
                pass
    direct = Importer(ctx.prog)
    try:
        direct.imp('segeval', 'the caller')
        bound = direct.names['segeval']
    except ImportFailure:
        bound = set()
    used = {}
    for mod, names in (table or {}).items():
        R.obligations += len(names)
        I = Importer(ctx.prog)
        try:
            I.imp(mod, 'segeval')
        except ImportFailure as e:
            R.find('module:' + mod, 'the package offers names of %s, which cannot be imported: %s' % (mod, e))
            continue
        for n in names:
            if n in used:
                R.find('twice:' + n, '%s is offered from both %s and %s' % (n, used[n], mod))
            used[n] = mod
            if n not in I.names.get(mod, ()):
                R.find('missing:%s.%s' % (mod, n), 'the package offers %s from %s, which does not define it' % (n, mod))
    for mod, names in API.items():
        for n in names:
            R.obligations += 1
            if n not in used and n not in bound:
                if table is None:
                    R.undetermined.append(n)
                else:
                    R.find('public:' + n, 'the documented name %s is no longer offered by the package' % n)
    return R


# ------------------------------------------------------------------ files
def files_closed(ctx):
    """Every file a function opens is closed, or handed to its caller, on every path."""
    R = Report('files-closed')
    F = Files(ctx.prog).run()
    sites = 0
    for f in F.results:
        if f.handles:
            R.units.add('%s:%s' % (f.mod, f.qual))
        sites += len(f.handles)
        R.obligations += max(1, len(f.handles)) if f.handles else 0
        for h in f.handles.values():
            if h in f.leaks and h not in f.escaped:
                R.find('%s:%s' % (f.mod, f.qual), '%s:%d %s.%s: the file opened by %s is still open when the function %s' % (
                    ctx.prog.rel(ctx.prog.modules[f.mod][0]), h.line, f.mod, f.qual, h.label, ' or '.join(sorted(f.leaks[h]))))
            elif h in f.leaks:
                R.undetermined.append('%s.%s: the file opened in line %d is passed on' % (f.mod, f.qual, h.line))
    R.undetermined += F.unclear
    R.obligations += len(F.unclear)
    R.stats['files_opened'] = sites
    R.stats['functions_searched_for_opened_files'] = len(F.results)
    return R


RULES = {
    'C01': [arguments_unchanged, typed_mutations],
    'C02': [no_shared_state, typed_globals],
    'C03': [identity],
    'C10': [decimal_results],
    'C21': [shared_containers],
    'C25': [imports, api],
    'C28': [files_closed],
}
