"""Source loading: parse every module of the package (never executed)."""
import ast
import os
import warnings

warnings.simplefilter('ignore')


class Program(object):
    def __init__(self, root, package='segeval', extra=()):
        self.root = root
        self.package = package
        self.modules = {}      # dotted name -> (path, tree)
        self.is_pkg = {}
        self.errors = []
        for d, dirs, files in os.walk(os.path.join(root, package)):
            dirs.sort()
            rel = os.path.relpath(d, root).replace(os.sep, '.')
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                if f == 'test.py' or f.startswith('test_') or f.endswith('_test.py'):
                    continue
                name = rel if f == '__init__.py' else rel + '.' + f[:-3]
                if '.tests' in name or '.test.' in name:
                    continue
                self.add(name, os.path.join(d, f), f == '__init__.py')
        for name, path in extra:
            self.add(name, path, False)

    def add(self, name, path, pkg):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        self.modules[name] = (path, tree)
        self.is_pkg[name] = pkg

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def functions(self):
        """[(module, qualname, node)] of every function in the package."""
        out = []

        def go(mod, node, prefix):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + ch.name
                    out.append((mod, q, ch))
                    go(mod, ch, q + '.')
                elif isinstance(ch, ast.ClassDef):
                    go(mod, ch, prefix + ch.name + '.')
                else:
                    go(mod, ch, prefix)
        for mod, (path, tree) in sorted(self.modules.items()):
            go(mod, tree, '')
        return out
