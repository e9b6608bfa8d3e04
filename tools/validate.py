#!/usr/bin/env python3
"""Development aid, no check runs it: compares the analysis' normal forms with the real code on samples.

For each obligation, the normal form of X_code is evaluated on sampled arguments and X_code itself is run on the
same arguments with the real package.  A disagreement is an error of the analysis' model of Python."""
import collections
import os
import random
import sys
from decimal import Decimal
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('SEGEVAL_REPO', '/repo'))
from sa import obligations as ob, teval as te, terms as tm  # noqa
from sa.reference import FNS  # noqa


def check(*a, **k):
    return lambda f: f


def real(v, ty):
    if ty[0] in ('seq', 'tup') and isinstance(v, tuple):
        out = [real(x, ty[1] if ty[0] == 'seq' else ty[i + 1]) for i, x in enumerate(v)]
        return out if ty == ob.TYPES['NUMS'] else tuple(out)
    if isinstance(v, Fraction):
        return Decimal(v.numerator) / v.denominator
    if ty[0] == 'set':
        return set(v)
    if ty == ob.NUM:
        return Decimal(v)
    if ty[0] == 'cm':
        from segeval.ml import ConfusionMatrix
        m = ConfusionMatrix()
        for p in v:
            for a in v[p]:
                m[p][a] += v[p][a]
        return m
    if ty[0] == 'dataset':
        from segeval.data import Dataset
        d = Dataset({k: real(x, ty[2]) for k, x in v.items()})
        d.boundary_format, d.boundary_types, d.properties = v.attrs['boundary_format'], set(v.attrs['boundary_types']), dict(v.attrs['properties'])
        return d
    if ty[0] == 'dict':
        return {k: real(x, ty[2]) for k, x in v.items()}
    if isinstance(v, te.Fn):
        o = ty

        def f(*a, **kw):
            return real(v(*([back(x) for x in a] + list(te.options({k: back(x) for k, x in kw.items()})))), o[1])
        return f
    return v


def back(x):
    if isinstance(x, bool) or x is None or isinstance(x, (str, int)):
        return x
    if isinstance(x, (Decimal, float)):
        return te.norm(Fraction(x))
    if isinstance(x, (list, tuple)):
        return tuple(back(y) for y in x)
    if isinstance(x, (set, frozenset)):
        return frozenset(back(y) for y in x)
    if type(x).__name__ == 'ConfusionMatrix':
        return te.FD((p, te.FD((a, n) for a, n in r.items())) for p, r in x.items())
    if isinstance(x, dict):
        return te.FD((back(k), back(y)) for k, y in x.items())
    return x


def close(a, b):
    if te.isn(a) and te.isn(b):
        return abs(a - b) <= Fraction(1, 10 ** 9) * (1 + abs(a))
    if isinstance(a, (tuple,)) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    return a == b


def main(pats):
    import tempfile
    os.chdir(tempfile.mkdtemp())
    import types
    ctx = ob.Context()
    mods = {}
    for o in ctx.obl:
        if pats and not any(p in o.name for p in pats):
            continue
        if o.mod not in mods:
            m = types.ModuleType(o.mod)
            m.__dict__['check'] = check
            src = open(os.path.join(HERE, 'specs', o.mod.split('.')[1] + '.py')).read()
            m.__dict__.update({k: None for k in ob.TYPES})
            exec(compile(src, o.mod, 'exec'), m.__dict__)
            mods[o.mod] = m
        c = collections.Counter()
        tm.number_from(o.base())
        for which in ('_code', '_want'):
            if not hasattr(mods[o.mod], o.name + which):
                continue
            import signal
            old = signal.signal(signal.SIGALRM, ob._alarm)
            signal.alarm(60)
            try:
                t = ctx.run(o.mod, o.name + which, o.params, o.meta.get('abstract', []), o.meta.get('nodiv', False)).t
                if ctx.ip.notes:
                    c['notes' + which] += 1
                rng = random.Random(11)
                for _ in range(60):
                    vals = ob.samples(o.params, rng)
                    if vals is None:
                        c['nosample'] += 1
                        break
                    k, x = te.evaluate(t, vals, FNS)
                    try:
                        y = back(getattr(mods[o.mod], o.name + which)(*[real(vals[n], ob.TYPES[ty]) for n, ty in o.params]))
                    except Exception as e:
                        y = te.Exc(type(e).__name__)
                    if k != 'val':
                        c[k + ':' + str(x)[:30] + ('/exc' if isinstance(y, te.Exc) else '/VAL')] += 1
                    elif isinstance(x, te.Exc) and isinstance(y, te.Exc) or close(x, y):
                        c['agree'] += 1
                    else:
                        c['DISAGREE'] += 1
                        if c['DISAGREE'] == 1:
                            print('   ', which, vals, 'model', x, 'real', y)
            except ob.Timeout:
                c['timeout'] += 1
            except Exception as e:
                c['error %r' % e] += 1
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
        print(o.name, dict(c), flush=True)


main(sys.argv[1:])
