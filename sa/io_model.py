"""Files: paths, text files, JSON and CSV.

The contents of the file system are a term held in the state (frame 'world'):
wr(fs, path, text) is fs after text was written to path, and reading a path
looks it up.  Text itself is uninterpreted except that parsing JSON text gives
back the data it was made from.
"""
from . import terms as tm
from .kinds import K, ANYK, STRK
from .terms import (mk, app, const, lift, ite, eq, atomise, opaque, subterms, leaves, intval, neg, conj, T,
                    TRUE, FALSE, STR, ANY, BOOL)

MASSES = ('seq', ('int', 1))
JSON_TY = ('dict', STR, ANY)
ITEMS_TY = ('dict', STR, ('dict', STR, MASSES))
FS0 = tm.var('$fs', ANY)


def world(st):
    from .interp import V
    return st.frames.setdefault('world', {}).setdefault('files', V(FS0, ANYK)).t


def text_at(fs, p):
    if fs.op == 'ite':
        return lift(lambda x: text_at(x, p), fs)
    if fs.op == 'app' and fs.a[0] == 'wr':
        c = eq(fs.a[2], p)
        return ite(c, fs.a[3], text_at(fs.a[1], p)) if c is not TRUE else fs.a[3]
    if fs is FS0:
        return app('text', (p,), STR)
    return opaque('text', (fs, p), STR)


def write(ip, st, path, text):
    from .interp import V
    fs = world(st)
    st.frames['world']['files'] = V(mk('app', ('wr', fs, path, text), ANY), ANYK)


def kwv(kwargs, n):
    return kwargs[n][1] if n in kwargs else None


def x_open(ip, args, kwargs, st, node):
    if not args:
        return None
    path = ip.pure(args[0].t, st)
    mode = args[1] if len(args) > 1 else kwv(kwargs, 'mode')
    mode = ip.pure(mode.t, st) if mode is not None else const('r')
    if mode.op != 'const' or mode.a[0] != 'str':
        return None
    m = mode.a[1]
    if 'w' in m:
        write(ip, st, path, const(''))
    t = mk('app', ('file', path, const('w' if 'w' in m else 'a' if 'a' in m else 'r')), ANY)
    return V_(t, K('file'))


def V_(t, k):
    from .interp import V
    return V(t, k)


def fileof(v):
    t = v.t
    return t if t.op == 'app' and t.a[0] == 'file' else None


def f_read(ip, recv, args, kwargs, st, node):
    f = fileof(recv)
    if f is None or args or kwargs:
        return None
    return V_(text_at(world(st), f.a[1]), STRK)


def f_write(ip, recv, args, kwargs, st, node):
    f = fileof(recv)
    if f is None or len(args) != 1 or f.a[2] is const('r'):
        return None
    append(ip, st, f, ip.pure(args[0].t, st))
    return V_(tm.NONE_T, ANYK)


def append(ip, st, f, text):
    from . import interp as im
    old = text_at(world(st), f.a[1])
    write(ip, st, f.a[1], text if old is const('') else lift(lambda a, b: im.fmt([a, b]), old, text))


def f_close(ip, recv, args, kwargs, st, node):
    if fileof(recv) is None:
        return None
    return V_(tm.NONE_T, ANYK)


# ------------------------------------------------------------------- JSON
def dumps(ip, v, kwargs, st, node):
    """Text of v as JSON, or None."""
    for n, (p, w) in kwargs.items():
        if n in ('sort_keys', 'indent', 'fp'):
            continue
        if n in ('ensure_ascii', 'check_circular', 'allow_nan') and w.t is TRUE:
            continue
        return None
    r, c = ip.single_ref(v, st)
    if c is not None and c.kind in ('dict', 'dataset') or v.t.ty[0] in ('dict', 'dataset'):
        t = ip.mapof(v, st)
    else:
        t = ip.pure(v.t, st)
    return app('jsontext', (lift(tm.unshallow_all, t),), STR)


def x_dumps(ip, args, kwargs, st, node):
    if len(args) != 1:
        return None
    t = dumps(ip, args[0], kwargs, st, node)
    return V_(t, STRK) if t is not None else None


def x_dump(ip, args, kwargs, st, node):
    f = args[1] if len(args) > 1 else kwv(kwargs, 'fp')
    if not args or f is None or fileof(f) is None or fileof(f).a[2] is const('r'):
        return None
    t = dumps(ip, args[0], kwargs, st, node)
    if t is None:
        return None
    append(ip, st, fileof(f), t)
    return V_(tm.NONE_T, ANYK)


def isjson(t):
    def f(x):
        if x.op == 'app' and x.a[0] == 'jsontext':
            return TRUE
        return atomise(mk('truth', (app('isjson', (x,)),), BOOL))
    return lift(f, t)


def parsed(t):
    def f(x):
        if x.op == 'app' and x.a[0] == 'jsontext':
            return tm.unshallow_all(x.a[1])
        return app('json', (x,), JSON_TY)
    return lift(f, t)


def loads(ip, text, st, node):
    ok = isjson(text)
    bad = ip.simp(neg(ok), st)
    if bad is TRUE:
        ip.raise_('ValueError', st, node)
        return V_(mk('bot', (), ANY), ANYK)
    if bad is not FALSE:
        B = st.copy()
        B.live = conj(st.live, bad)
        ip.raise_('ValueError', B, node)
        st.exits += B.exits
        st.live = conj(st.live, neg(bad))
    t = parsed(text)
    return V_(ip.alloc(st, 'dataset', t=t, d={}, cls='plain'), K('dict'))


def x_loads(ip, args, kwargs, st, node):
    if len(args) != 1 or kwargs:
        return None
    t = ip.pure(args[0].t, st)
    return loads(ip, t, st, node)


def x_load(ip, args, kwargs, st, node):
    if len(args) != 1 or kwargs or fileof(args[0]) is None:
        return None
    return loads(ip, text_at(world(st), fileof(args[0]).a[1]), st, node)


# -------------------------------------------------------------------- CSV
def x_reader(ip, args, kwargs, st, node):
    if len(args) < 1 or fileof(args[0]) is None or len(args) > 1:
        return None
    d = const(',')
    for n, (p, w) in kwargs.items():
        if n != 'delimiter':
            return None
        d = ip.pure(w.t, st)
    text = text_at(world(st), fileof(args[0]).a[1])
    t = app('csv', (text, d), ('seq', ('seq', STR)))
    return V_(ip.alloc(st, 'list', t=t, k=K('list', STRK), cls='iter'), K('list', K('list', STRK)))


# ----------------------------------------------------- specifications only
def b___text__(ip, args, kwargs, st, node):
    return V_(text_at(world(st), ip.pure(args[0].t, st)), STRK)


def b___jsontext__(ip, args, kwargs, st, node):
    return V_(dumps(ip, args[0], {}, st, node), STRK)


def b___isjson__(ip, args, kwargs, st, node):
    from .interp import V
    from .kinds import BOOLK
    return V(isjson(ip.pure(args[0].t, st)), BOOLK)


# ------------------------------------------------------------------- paths
def split(ip, args, i, st):
    t = app('ext', (const('os.path.split'), ip.pure(args[0].t, st)), ('seq', STR))
    return V_(tm.at(t, tm.num(i)), STRK)


def x_basename(ip, args, kwargs, st, node):
    return split(ip, args, 1, st) if len(args) == 1 and not kwargs else None


def x_dirname(ip, args, kwargs, st, node):
    return split(ip, args, 0, st) if len(args) == 1 and not kwargs else None


def x_listdir(ip, args, kwargs, st, node):
    """The names in a directory: no name occurs twice, in no particular order."""
    if len(args) != 1 or kwargs:
        return None
    return V_(app('ext', (const('os.listdir'), ip.pure(args[0].t, st)), ('set', STR)), K('list', STRK))


def b___loaded__(ip, args, kwargs, st, node):
    r, c = ip.single_ref(args[0], st)
    if c is None or c.kind != 'dataset' or not c.d or '$ledger' not in c.d or c.t is not tm.emptymap(STR):
        ip.note('dataset changed otherwise', node)
        return V_(tm.NONE_T, ANYK)
    return c.d['$ledger']


EXT = {'os.listdir': x_listdir, 'os.path.basename': x_basename, 'os.path.dirname': x_dirname, 'open': x_open, 'builtins.open': x_open, 'io.open': x_open, 'codecs.open': x_open, 'json.dump': x_dump, 'json.dumps': x_dumps,
       'json.load': x_load, 'json.loads': x_loads, 'csv.reader': x_reader}

# calls whose failures are modelled
MODELLED = frozenset(['json.load', 'json.loads'])
