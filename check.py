#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decide one property from /repo's source."""
import json
import os
import re
import signal
import sys
import time
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)

from sa import rules                      # noqa: E402
from sa.obligations import Context, REPO  # noqa: E402

EVIDENCE = os.environ.get('SEGEVAL_EVIDENCE') or os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')
CTX = None


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def job(a):
    i, limit = a
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    o = CTX.obl[i]
    try:
        r = o.run(CTX, limit=max(limit, o.meta.get('limit', 0)))
    except MemoryError:
        return i, 'undetermined', 'memory limit', {}
    return i, r.status, r.why, r.info


def main():
    global CTX
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if '--quick' in sys.argv:
        tier = 'quick'
    limit = 400 if tier == 'thorough' else 100
    deadline = time.time() + (3000 if tier == 'thorough' else 600)
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    if not os.path.isdir(os.path.join(REPO, 'segeval')):
        print('no package segeval under %s' % REPO)
        return 2
    try:
        CTX = Context()
    except SyntaxError as e:
        print('source does not parse: %s' % e)
        return 2
    findings = []          # (key, message, detail)
    undetermined = []
    held = 0
    units = set()
    per = []
    myrules = rules.RULES.get(prop, [])
    every = any(getattr(r, 'needs_outcomes', False) for r in myrules)
    outcomes = []
    ids = [i for i, o in enumerate(CTX.obl) if every or prop in o.props]
    if ids:
        ids.sort(key=lambda i: -CTX.obl[i].meta.get('cost', 1))
        with get_context('fork').Pool(min(8, len(ids)), maxtasksperchild=1) as pool:
            pend = [(i, pool.apply_async(job, ((i, limit),))) for i in ids]
            for i, p in pend:
                o = CTX.obl[i]
                try:
                    _, status, why, info = p.get(max(1, deadline - time.time()))
                except Exception as e:
                    status, why, info = 'undetermined', 'no answer (%s)' % type(e).__name__, {}
                if every:
                    outcomes.append((o, info))
                    if prop not in o.props:
                        continue
                units.update(info.get('visited', ()))
                per.append({'obligation': o.name, 'status': status, 'why': why,
                            'seconds': info.get('seconds'), 'functions': len(info.get('visited', ()))})
                if status == 'held':
                    held += 1
                elif status == 'undetermined':
                    undetermined.append((o.name, why))
                else:
                    where = info.get('visited', [])
                    findings.append(('obligation:' + o.name,
                                     'what the code computes differs from the stated value in obligation %s (%s.%s), '
                                     'through %s' % (o.name, o.mod, o.name + '_code', ', '.join(where[:12])),
                                     {'obligation': o.name, 'functions': where, 'code': info.get('code'),
                                      'want': info.get('want'), 'interpretation': info.get('witness')}))
            pool.terminate()
    stats = {}
    for rule in myrules:
        r = rule(CTX, outcomes) if getattr(rule, 'needs_outcomes', False) else rule(CTX)
        per.append({'rule': r.name, 'obligations': r.obligations, 'findings': len(r.findings), 'undetermined': len(r.undetermined)})
        held += r.obligations - len(r.findings) - len(r.undetermined)
        units.update(r.units)
        stats.update(r.stats)
        for key, msg, detail in r.findings:
            findings.append((r.name + ':' + key, msg, detail))
        undetermined += [(r.name, u) for u in r.undetermined]
    kf = known(prop)
    new = [f for f in findings if f[0] not in kf]
    for k, msg, d in findings:
        if k in kf:
            print('KNOWN-FINDING: property=%s %s' % (prop, kf[k]))
    total = held + len(findings) + len(undetermined)
    print('%s: %d obligations, %d discharged, %d findings (%d known), %d undetermined; %d functions of %s analysed'
          % (prop, total, held, len(findings), len(findings) - len(new), len(undetermined), len(units), REPO))
    for p in per:
        print('  ' + ' '.join('%s=%s' % (k, v) for k, v in p.items()))
    for n, u in undetermined:
        print('  undetermined %s: %s' % (n, u))
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': {'explanation': 'Value-graph analysis of the source: the normal form of the code under every argument is '
                                      'compared with the normal form of the specification (no execution); plus syntactic/effect rules. '
                                      'Discharged obligations hold for all arguments of the stated types within the modelled language; '
                                      'undetermined ones are not decided.',
                       'obligations': total, 'discharged': held, 'undetermined': len(undetermined),
                       'functions_analysed': len(units), 'functions': sorted(units)[:200], 'items': per, **stats},
          'wall_s': round(time.time() - t0, 2),
          'assumptions': ['CPython/PyPy semantics of the modelled builtins (DESIGN.md, engine)',
                          'arguments have the types annotated in /verif/specs'],
          'violations': len(new)}
    if undetermined:
        ev['coverage']['undetermined_items'] = [{'item': n, 'why': u} for n, u in undetermined]
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    for n, (k, msg, d) in enumerate(new):
        path = os.path.join(EVIDENCE, '%s-%s.replay.json' % (prop, re.sub(r'[^A-Za-z0-9_]+', '_', k)[:60]))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'key': k, 'message': msg, 'detail': d,
                       'rerun': 'python3 /verif/check.py ' + prop}, f, indent=1, default=str)
        print('  ' + msg)
        if n == 0 or True:
            print('VIOLATION property=%s replay=%s' % (prop, path))
    if ids == [] and prop not in rules.RULES:
        print('no obligation for %s' % prop)
        return 2
    return 1 if new else 0


if __name__ == '__main__':
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
