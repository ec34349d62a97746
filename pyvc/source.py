"""Mechanical extraction of functions, classes and constants from the repository source (ast, on every run).

Nothing is hand-copied: a FuncInfo holds the ast node of the code that runs.  What extraction drops is listed in
DROPPED and repeated in the evidence of every check.
"""
import ast
import builtins
import os

DROPPED = [
    "docstrings, comments and type annotations (no run-time effect in the verified functions)",
    "the text of exception messages (only the exception class is kept)",
    "calls to print() and warnings.warn() (effects on stdout/stderr and the warnings registry are not modelled)",
    "decorators other than property, cached_property, staticmethod and classmethod (a function carrying another "
    "decorator is outside the subset)",
]


class FuncInfo:
    def __init__(self, module, qualname, node, cls=None):
        self.module, self.qualname, self.node, self.cls = module, qualname, node, cls
        decos = []
        for d in node.decorator_list:
            decos.append(ast.unparse(d))
        self.decorators = decos

    @property
    def key(self):
        return f"{self.module.name}:{self.qualname}"

    @property
    def kind(self):
        for d in self.decorators:
            if d == 'property' or d.endswith('cached_property'):
                return 'property'
            if d == 'staticmethod':
                return 'static'
            if d == 'classmethod':
                return 'class'
            if d.endswith('.setter'):
                return 'setter'
        return 'plain'

    def is_generator(self):
        for n in ast.walk(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False


class ClassInfo:
    def __init__(self, module, name, node):
        self.module, self.name, self.node = module, name, node
        self.methods, self.setters, self.attrs = {}, {}, {}
        self.bases = [ast.unparse(b) for b in node.bases]
        for item in node.body:
            if isinstance(item, ast.FunctionDef):
                fi = FuncInfo(module, f"{name}.{item.name}", item, cls=self)
                if fi.kind == 'setter':
                    self.setters[item.name] = fi
                else:
                    self.methods[item.name] = fi
            elif isinstance(item, ast.Assign) and len(item.targets) == 1 and isinstance(item.targets[0], ast.Name):
                self.attrs[item.targets[0].id] = item.value
            elif isinstance(item, ast.AnnAssign) and isinstance(item.target, ast.Name) and item.value is not None:
                self.attrs[item.target.id] = item.value

    @property
    def key(self):
        return f"{self.module.name}:{self.name}"


class ModuleInfo:
    def __init__(self, repo, name, path):
        self.repo, self.name, self.path = repo, name, path
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.functions, self.classes, self.consts, self.imports = {}, {}, {}, {}
        for node in self.tree.body:
            self._top(node)

    def _top(self, node):
        if isinstance(node, ast.FunctionDef):
            self.functions[node.name] = FuncInfo(self, node.name, node)
        elif isinstance(node, ast.ClassDef):
            self.classes[node.name] = ClassInfo(self, node.name, node)
        elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            self.consts[node.targets[0].id] = node.value
        elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
            self.consts[node.target.id] = node.value
        elif isinstance(node, ast.Import):
            for a in node.names:
                self.imports[a.asname or a.name.split('.')[0]] = ('module', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(node, ast.ImportFrom):
            base = node.module or ''
            if node.level:
                parts = self.name.split('.')
                if not self.path.endswith('__init__.py'):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (node.level - 1)]
                base = '.'.join(parts + ([node.module] if node.module else []))
            for a in node.names:
                self.imports[a.asname or a.name] = ('from', base, a.name)
        elif isinstance(node, (ast.If, ast.Try)):
            for sub in node.body:
                self._top(sub)


class Repo:
    def __init__(self, root, package='dessia_common'):
        self.root, self.package, self.modules = root, package, {}

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace('.', os.sep)
        for cand in (os.path.join(self.root, rel + '.py'), os.path.join(self.root, rel, '__init__.py')):
            if os.path.exists(cand):
                m = ModuleInfo(self, name, cand)
                self.modules[name] = m
                return m
        self.modules[name] = None
        return None

    def resolve(self, module, name, depth=0):
        """-> ('func', FuncInfo) | ('class', ClassInfo) | ('const', module, expr) | ('module', name) |
        ('ext', dotted) | ('builtin', name) | None"""
        if depth > 12:
            return None
        if name in module.functions:
            return 'func', module.functions[name]
        if name in module.classes:
            return 'class', module.classes[name]
        if name in module.consts:
            return 'const', module, module.consts[name]
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == 'module':
                return 'module', imp[1]
            return self.resolve_in(imp[1], imp[2], depth + 1)
        if hasattr(builtins, name):
            return 'builtin', name
        return None

    def resolve_in(self, modname, name, depth=0):
        m = self.module(modname) if modname.split('.')[0] == self.package else None
        if m is not None:
            if name in m.functions or name in m.classes or name in m.consts or name in m.imports:
                return self.resolve(m, name, depth)
        sub = f"{modname}.{name}"
        if sub.split('.')[0] == self.package and self.module(sub) is not None:
            return 'module', sub
        return 'ext', sub

    def find_class(self, key):
        modname, name = key.split(':')
        m = self.module(modname)
        if m is None:
            return None
        return m.classes.get(name)

    def find_func(self, key):
        modname, qual = key.split(':')
        m = self.module(modname)
        if m is None:
            return None
        if '.' in qual:
            c, f = qual.split('.')
            ci = m.classes.get(c)
            if ci is None:
                return None
            return self.lookup_method(ci, f)
        r = self.resolve(m, qual)
        if r and r[0] == 'func':
            return r[1]
        return None

    def bases(self, ci):
        out = []
        for b in ci.bases:
            r = self.resolve_dotted(ci.module, b)
            if r and r[0] == 'class':
                out.append(r[1])
            else:
                out.append(b if not (r and r[0] == 'ext') else r[1])
        return out

    def resolve_dotted(self, module, dotted):
        dotted = dotted.split('[')[0]
        parts = dotted.split('.')
        r = self.resolve(module, parts[0])
        for p in parts[1:]:
            if r is None:
                return None
            if r[0] == 'module':
                r = self.resolve_in(r[1], p)
            elif r[0] == 'ext':
                r = ('ext', r[1] + '.' + p)
            else:
                return None
        return r

    def mro(self, ci):
        out, seen = [], set()

        def visit(c):
            if isinstance(c, str):
                if c not in seen:
                    seen.add(c)
                    out.append(c)
                return
            if c.key in seen:
                return
            seen.add(c.key)
            out.append(c)
            for b in self.bases(c):
                visit(b)
        visit(ci)
        return out

    def is_subclass(self, ci, other_key):
        for c in self.mro(ci):
            if (c if isinstance(c, str) else c.key) == other_key:
                return True
        return False

    def lookup_method(self, ci, name, start_after=None):
        skip = start_after is not None
        for c in self.mro(ci):
            if isinstance(c, str):
                continue
            if skip:
                if c is start_after:
                    skip = False
                continue
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_classattr(self, ci, name):
        for c in self.mro(ci):
            if isinstance(c, str):
                continue
            if name in c.attrs:
                return c.module, c.attrs[name]
        return None
