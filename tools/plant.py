#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/plants/*.py.

Each definition is confirmed in a scratch copy of /repo: the patch applies, the
existing tests pass with it, the demonstration succeeds without and fails with
it, and only lines of the original repository are changed.
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = 'b9764a7'
PLANTS = []


def plant(id, prop, edits, demo, needs, breaks):
    PLANTS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def build(p, keep=True):
    scratch = '/tmp/plant-%d' % os.getpid()
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.copytree('/repo', scratch, symlinks=True)
    try:
        for f, old, new in p['edits']:
            path = os.path.join(scratch, f)
            s = open(path).read()
            if s.count(old) != 1:
                return '%s: %d matches of %r' % (f, s.count(old), old[:60])
            open(path, 'w').write(s.replace(old, new))
        d = sh(['git', 'diff'], scratch).stdout
        if not d:
            return 'no change'
        # only original lines
        for f in set(e[0] for e in p['edits']):
            blame = sh(['git', 'blame', '-s', 'HEAD', '--', f], scratch).stdout.splitlines()
            mine = [i + 1 for i, l in enumerate(blame) if not l.lstrip('^').startswith(BASE)]
            cur = 0
            part = sh(['git', 'diff', '-U0', '--', f], scratch).stdout
            for l in part.splitlines():
                m = re.match(r'@@ -(\d+)', l)
                if m:
                    cur = int(m.group(1))
                elif l.startswith('-') and not l.startswith('---'):
                    if cur in mine:
                        return 'changes line %d of %s, added by a fix commit' % (cur, f)
                    cur += 1
        out = os.path.join(scratch, '_demo')
        os.makedirs(out)
        open(os.path.join(out, 'demo.py'), 'w').write(p['demo'])
        r = sh([PY, os.path.join(out, 'demo.py')], '/repo', env=dict(os.environ, PYTHONPATH='/repo', PYTHONDONTWRITEBYTECODE='1'))
        if r.returncode != 0:
            return 'demo fails on the unchanged tree:\n' + r.stdout[-1500:]
        r = sh([PY, os.path.join(out, 'demo.py')], scratch, env=dict(os.environ, PYTHONPATH=scratch, PYTHONDONTWRITEBYTECODE='1'))
        if r.returncode == 0:
            return 'demo succeeds with the change'
        shutil.rmtree(out)
        r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'python_files=*test.py', 'segeval'], scratch, env=dict(os.environ, PYTHONPATH=scratch, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
        if not re.search(r'\b216 passed', r.stdout) or 'failed' in r.stdout:
            return 'tests: ' + r.stdout[-700:]
        if keep:
            dst = os.path.join(HERE, 'seeded', p['id'])
            os.makedirs(dst, exist_ok=True)
            open(os.path.join(dst, 'patch.diff'), 'w').write(d)
            open(os.path.join(dst, 'demo.py'), 'w').write(p['demo'])
            with open(os.path.join(dst, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\n# run with cwd /repo\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
                        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" %s "$here/demo.py"\n' % PY)
            os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
            json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                      open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'plants', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'plant': plant})
    pat = sys.argv[1:]
    for p in PLANTS:
        if pat and not any(re.search(x, p['id']) for x in pat):
            continue
        print(p['id'], build(p) or 'ok', flush=True)


if __name__ == '__main__':
    main()
