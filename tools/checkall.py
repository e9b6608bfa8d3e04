#!/usr/bin/env python3
"""Every obligation and rule once (what all checks together report): VIOLATION / UNDETERMINED lines."""
import os
import sys
from multiprocessing import get_context

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(12000)
import check  # noqa: E402
from sa import rules  # noqa: E402
from sa.obligations import Context  # noqa: E402


def main():
    check.CTX = ctx = Context()
    with get_context('fork').Pool(int(os.environ.get('JOBS', '3')), maxtasksperchild=1) as pool:
        only = sys.argv[1:]
        rs = pool.map(check.job, [(i, 60) for i in range(len(ctx.obl)) if not only or set(only) & set(ctx.obl[i].props)], chunksize=1)
    kf = {}
    outcomes = []
    for i, status, why, info in rs:
        o = ctx.obl[i]
        outcomes.append((o, info))
        for p in o.props:
            if p not in kf:
                kf[p] = check.known(p)
            if status == 'violation' and 'obligation:' + o.name not in kf[p]:
                print('VIOLATION', p, 'obligation:' + o.name)
            elif status == 'undetermined':
                print('UNDETERMINED', p, o.name + ' ' + why)
    for p, rl in rules.RULES.items():
        if only and p not in only:
            continue
        k = check.known(p)
        for rule in rl:
            r = rule(ctx, outcomes) if getattr(rule, 'needs_outcomes', False) else rule(ctx)
            for key, msg, d in r.findings:
                if r.name + ':' + key not in k:
                    print('VIOLATION', p, r.name + ':' + key)
            for u in r.undetermined:
                print('UNDETERMINED', p, r.name + ' ' + str(u))


main()
