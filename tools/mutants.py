#!/usr/bin/env python3
"""Sensitivity study: syntactic mutants of /repo that survive its tests.

mutants.py gen DIR      write every mutant as DIR/NNN.json {file, old, new, desc}
mutants.py live DIR     run the tests on each in scratch copies; keep the survivors in DIR/live
mutants.py try DIR PATH PROP...  run PROPs' checks on the survivors in files matching PATH
mutants.py check DIR    run all checks on the survivors; DIR/results.jsonl
"""
import ast
import copy
import glob
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = '/repo'


def sources():
    out = []
    for d, _, fs in os.walk(REPO + '/segeval'):
        for f in sorted(fs):
            if f.endswith('.py') and not f.endswith('test.py') and f != 'samples.py':
                out.append(os.path.join(d, f))
    return sorted(out)


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.BitXor: [ast.BitAnd, ast.BitOr],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Pow: [ast.Mult]}


def edits(node, parent, field):
    """Replacement nodes for one node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            n = copy.deepcopy(node)
            n.ops = [o()]
            yield n, 'cmp'
    if isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            n = copy.deepcopy(node)
            n.op = o()
            yield n, 'bin'
        if isinstance(node.op, (ast.Sub, ast.Add)) and isinstance(node.right, ast.Constant):
            yield copy.deepcopy(node.left), 'drop'
        if isinstance(node.op, ast.Sub):
            n = copy.deepcopy(node)
            n.left, n.right = n.right, n.left
            yield n, 'swap'
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield n, 'bool'
        for i in range(len(node.values)):
            vs = [copy.deepcopy(v) for j, v in enumerate(node.values) if j != i]
            yield (vs[0] if len(vs) == 1 else ast.BoolOp(copy.deepcopy(node.op), vs)), 'dropcond'
    if isinstance(node, ast.Constant) and not isinstance(parent, ast.Expr):
        if isinstance(node.value, bool):
            yield ast.Constant(not node.value), 'const'
        elif isinstance(node.value, int):
            yield ast.Constant(node.value + 1), 'const'
            if node.value > 0:
                yield ast.Constant(node.value - 1), 'const'
        elif node.value is None:
            pass
    if isinstance(node, ast.If):
        n = copy.deepcopy(node)
        n.test = ast.UnaryOp(ast.Not(), n.test)
        yield n, 'not'
        n = copy.deepcopy(node)
        n.test = ast.Constant(False)
        yield n, 'never'
        n = copy.deepcopy(node)
        n.test = ast.Constant(True)
        yield n, 'always'
    if isinstance(node, ast.IfExp):
        n = copy.deepcopy(node)
        n.body, n.orelse = n.orelse, n.body
        yield n, 'ifexp'
    if isinstance(node, ast.Call):
        if len(node.args) == 2 and not node.keywords:
            n = copy.deepcopy(node)
            n.args = n.args[::-1]
            yield n, 'swapargs'
        if isinstance(node.func, ast.Name) and len(node.args) == 1 and node.func.id in (
                'set', 'list', 'dict', 'sorted', 'tuple', 'frozenset', 'Decimal', 'abs', 'len', 'reversed'):
            if node.func.id != 'len':
                yield copy.deepcopy(node.args[0]), 'unwrap'
        if isinstance(node.func, ast.Name) and node.func.id in ('min', 'max'):
            n = copy.deepcopy(node)
            n.func.id = 'max' if node.func.id == 'min' else 'min'
            yield n, 'minmax'
        if isinstance(node.func, ast.Attribute) and node.func.attr == 'copy' and not node.args:
            yield copy.deepcopy(node.func.value), 'nocopy'
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('append', 'extend', 'add', 'union', 'update'):
            pass
        for i, k in enumerate(node.keywords):
            n = copy.deepcopy(node)
            del n.keywords[i]
            yield n, 'dropkw'
    if isinstance(node, ast.comprehension) and node.ifs:
        n = copy.deepcopy(node)
        n.ifs = []
        yield n, 'nofilter'
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Raise)) and not (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield ast.Pass(), 'delete'
    if isinstance(node, ast.AugAssign) and isinstance(node.op, ast.Add):
        n = copy.deepcopy(node)
        n.op = ast.Sub()
        yield n, 'aug'
        yield ast.Assign([copy.deepcopy(node.target)], copy.deepcopy(node.value)), 'aug='
    if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
        for a, b in (('_a', '_b'), ('_b', '_a'), ('_m', '_n'), ('_n', '_m'), ('_i', '_j'), ('_j', '_i')):
            if node.id.endswith(a):
                yield ast.Name(node.id[:-len(a)] + b, ast.Load()), 'name'
        if node.id in 'ijmn' and len(node.id) == 1:
            yield ast.Name({'i': 'j', 'j': 'i', 'm': 'n', 'n': 'm'}[node.id], ast.Load()), 'name'
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        yield copy.deepcopy(node.value), 'noslice'
    if isinstance(node, ast.Continue):
        yield ast.Break(), 'break'
        yield ast.Pass(), 'delete'


def gen(d):
    os.makedirs(d, exist_ok=True)
    count = 0
    for path in sources():
        src = open(path).read()
        lines = src.split('\n')
        tree = ast.parse(src)
        seen = set()
        for parent in ast.walk(tree):
            for field, value in ast.iter_fields(parent):
                for node in (value if isinstance(value, list) else [value]):
                    if not isinstance(node, ast.AST):
                        continue
                    for new, kind in edits(node, parent, field):
                        base = node.iter if isinstance(node, ast.comprehension) else node
                        if isinstance(node, ast.comprehension):
                            # whole parent comprehension
                            p2 = copy.deepcopy(parent)
                            p2.generators = [new if ast.dump(g) == ast.dump(node) else g for g in p2.generators]
                            base, new = parent, p2
                        if not hasattr(base, 'lineno'):
                            continue
                        lo = (base.lineno, base.col_offset)
                        hi = (base.end_lineno, base.end_col_offset)
                        pre = '\n'.join(lines[:lo[0] - 1] + [lines[lo[0] - 1].encode()[:lo[1]].decode()])
                        post = '\n'.join([lines[hi[0] - 1].encode()[hi[1]:].decode()] + lines[hi[0]:])
                        text = ast.unparse(ast.fix_missing_locations(new))
                        if isinstance(new, ast.stmt):
                            ind = ' ' * lo[1]
                            text = text.replace('\n', '\n' + ind)
                        else:
                            text = '(' + text.replace('\n', ' ') + ')' if not isinstance(new, (ast.Constant, ast.Name)) else text
                        out = pre + text + post
                        try:
                            if ast.dump(ast.parse(out)) == ast.dump(tree):
                                continue
                        except SyntaxError:
                            continue
                        k = (path, out)
                        if k in seen:
                            continue
                        seen.add(k)
                        json.dump({'file': os.path.relpath(path, REPO), 'line': base.lineno, 'kind': kind,
                                   'old': ast.unparse(base)[:200] if not isinstance(base, ast.stmt) else ast.unparse(base).split('\n')[0][:200],
                                   'new': ast.unparse(new).split('\n')[0][:200], 'text': out}, open('%s/%04d.json' % (d, count), 'w'))
                        count += 1
    print(count, 'mutants')


def scratch(n):
    s = '/tmp/mutw-%d-%d' % (os.getpid(), n)
    shutil.copytree(REPO, s, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return s


def live(d):
    import queue
    q = queue.Queue()
    for n in range(8):
        q.put(scratch(n))
    out = os.path.join(d, 'live')
    os.makedirs(out, exist_ok=True)

    def one(f):
        m = json.load(open(f))
        s = q.get()
        try:
            p = os.path.join(s, m['file'])
            orig = open(p).read()
            open(p, 'w').write(m['text'])
            try:
                r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'python_files=*test.py', 'segeval'], cwd=s,
                                   env=dict(os.environ, PYTHONPATH=s, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=60)
                ok = re.search(r'\b216 passed', r.stdout) and 'failed' not in r.stdout
            except subprocess.TimeoutExpired:
                ok = False
            open(p, 'w').write(orig)
            if ok:
                shutil.copy(f, out)
            return ok
        finally:
            q.put(s)
    fs = sorted(glob.glob(d + '/*.json'))
    with ThreadPoolExecutor(8) as ex:
        n = sum(bool(x) for x in ex.map(one, fs))
    print(n, 'of', len(fs), 'survive')
    while not q.empty():
        shutil.rmtree(q.get())


def check(d, pats, only=None):
    import queue
    q = queue.Queue()
    par = 3
    for n in range(par):
        q.put(scratch(n))
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    props = [c['property'] for c in man['checks']]
    done = {}
    res = os.path.join(d, 'results.jsonl')
    if os.path.exists(res) and not pats:
        done = {json.loads(l)['id'] for l in open(res)}

    def one(f):
        i = os.path.basename(f)[:-5]
        if i in done and not only:
            return
        m = json.load(open(f))
        s = q.get()
        try:
            p = os.path.join(s, m['file'])
            orig = open(p).read()
            open(p, 'w').write(m['text'])
            hit, und, err = [], [], []
            try:
                r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'tools', 'checkall.py')] + (only[1:] if only else []), cwd=HERE, stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, universal_newlines=True, env=dict(os.environ, SEGEVAL_REPO=s), timeout=1500)
                for l in r.stdout.splitlines():
                    w = l.split(' ', 2)
                    if w[0] == 'VIOLATION':
                        hit.append(w[1] + ' ' + w[2][:80])
                    elif w[0] == 'UNDETERMINED':
                        und.append(w[1] + ' ' + w[2][:60])
                if r.returncode:
                    err.append(r.stdout[-300:])
            except subprocess.TimeoutExpired:
                err.append('timeout')
            open(p, 'w').write(orig)
            m.pop('text')
            m.update(id=i, hit=hit, und=und, err=err)
            if not only:
                with open(res, 'a') as g:
                    g.write(json.dumps(m) + '\n')
            print(i, m['file'], m['line'], m['kind'], m['old'][:50], '->', m['new'][:50], '|', 'CAUGHT ' + ' '.join(hit)[:60] if hit else 'MISSED und=%s %s' % (und[:3], err), flush=True)
        finally:
            q.put(s)
    fs = sorted(glob.glob(d + '/live/*.json'))
    if only:
        fs = [f for f in fs if only[0] in json.load(open(f))['file']]
        done = {}
    elif pats:
        fs = [f for f in fs if any(os.path.basename(f).startswith(x) for x in pats)]
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, fs))
    while not q.empty():
        shutil.rmtree(q.get())


if __name__ == '__main__':
    if sys.argv[1] in ('gen', 'live'):
        {'gen': gen, 'live': live}[sys.argv[1]](sys.argv[2])
    elif sys.argv[1] == 'try':
        check(sys.argv[2], [], sys.argv[3:])
    else:
        check(sys.argv[2], sys.argv[3:])
