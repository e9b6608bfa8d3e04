#!/usr/bin/env python3
"""Run checks against every planted bug in scratch copies: catch.py [--all] [pattern...]"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(a):
    sid, every = a
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    scratch = '/tmp/catch-%d-%s' % (os.getpid(), sid)
    shutil.copytree('/repo', scratch, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    try:
        r = subprocess.run(['patch', '-p1', '-s', '-i', os.path.join(d, 'patch.diff')], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return sid, meta['property'], 'PATCH FAILS', ''
        props = [meta['property']]
        if every:
            man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
            props = [c['property'] for c in man['checks']]
        out = {}
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               universal_newlines=True, env=dict(os.environ, SEGEVAL_REPO=scratch, SEGEVAL_EVIDENCE=scratch + '/ev'))
            und = re.findall(r'undetermined (\S+): (.*)', r.stdout)
            out[p] = (r.returncode, und)
        caught = [p for p in out if out[p][0] == 1]
        und = out[meta['property']][1]
        return sid, meta['property'], 'caught' if meta['property'] in caught else 'MISSED rc=%d' % out[meta['property']][0], \
            ' '.join(caught) + ('' if meta['property'] in caught else ' undetermined: %s' % und[:4])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    every = '--all' in sys.argv
    pat = [a for a in sys.argv[1:] if not a.startswith('-')]
    ids = [s for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))) if not pat or any(re.search(p, s) for p in pat)]
    n = 0
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, [(s, every) for s in ids]):
            print('%-32s %s %-14s %s' % r, flush=True)
            n += r[2] == 'caught'
    print('%d of %d caught' % (n, len(ids)))
