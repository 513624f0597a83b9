"""Program model: every module of the analysed tree, parsed; names resolved.

Nothing here imports or executes the analysed code.
"""
import ast
import builtins
import os

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__',
                                 '__package__', '__spec__', '__loader__',
                                 '__builtins__', '__annotations__', '__dict__'}


class AnalysisError(Exception):
    """The analysis cannot be carried out (missing anchor, unreadable source)."""


def repo_root():
    return os.environ.get('VERIF_REPO', '/repo')


class Func:
    __slots__ = ('qual', 'module', 'cls', 'name', 'node', 'kind', 'parent',
                 'decorators', 'params', 'defaults', 'vararg', 'kwarg',
                 'kwonly', 'posonly_n', 'is_static', 'is_classmethod',
                 'nested', 'is_lambda', 'locals_', 'globals_', 'nonlocals_',
                 'is_generator')

    def __init__(self, qual, module, cls, name, node, kind, parent):
        self.qual = qual
        self.module = module
        self.cls = cls
        self.name = name
        self.node = node
        self.kind = kind            # function/method/getter/setter/deleter/lambda
        self.parent = parent        # enclosing Func or None
        self.nested = {}
        self.is_lambda = isinstance(node, ast.Lambda)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.posonly_n = len(a.posonlyargs)
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        d = {}
        for p, v in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            d[p] = v
        for p, v in zip(self.kwonly, a.kw_defaults):
            if v is not None:
                d[p] = v
        self.defaults = d
        self.decorators = []
        self.is_static = False
        self.is_classmethod = False
        self.globals_ = set()
        self.nonlocals_ = set()
        self.locals_ = set()
        self.is_generator = False
        if not self.is_lambda:
            for dec in node.decorator_list:
                self.decorators.append(dec)
                if isinstance(dec, ast.Name) and dec.id == 'staticmethod':
                    self.is_static = True
                if isinstance(dec, ast.Name) and dec.id == 'classmethod':
                    self.is_classmethod = True
        self._collect_locals()

    @property
    def all_params(self):
        r = list(self.params) + list(self.kwonly)
        if self.vararg:
            r.append(self.vararg)
        if self.kwarg:
            r.append(self.kwarg)
        return r

    @property
    def body(self):
        if self.is_lambda:
            return [ast.copy_location(ast.Return(value=self.node.body), self.node.body)]
        return self.node.body

    @property
    def is_method(self):
        return self.cls is not None and not self.is_static and self.parent is None

    @property
    def self_name(self):
        if self.is_method and self.params:
            return self.params[0]
        return None

    @property
    def public(self):
        """Reachable under a public name (no part of the qualified name private)."""
        parts = self.qual.split(':', 1)[1].split('.')
        for p in parts:
            if p in ('<locals>',) or p.startswith('<'):
                return False
            if p.startswith('_') and not (p.startswith('__') and p.endswith('__')):
                return False
        return True

    def where(self, node=None):
        n = node if node is not None else self.node
        return f"{self.module.relpath}:{getattr(n, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qual}>"

    def _collect_locals(self):
        loc = set(self.all_params)

        def targets(t):
            if isinstance(t, ast.Name):
                loc.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    targets(e)
            elif isinstance(t, ast.Starred):
                targets(t.value)

        def visit(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    loc.add(c.name)
                    for dd in c.decorator_list:
                        visit_expr(dd)
                    continue
                if isinstance(c, ast.Lambda):
                    continue
                handle(c)
                visit(c)

        def visit_expr(e):
            handle(e)
            visit(e)

        def handle(c):
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    targets(t)
            elif isinstance(c, (ast.AnnAssign, ast.AugAssign)):
                targets(c.target)
            elif isinstance(c, (ast.For, ast.AsyncFor)):
                targets(c.target)
            elif isinstance(c, (ast.With, ast.AsyncWith)):
                for it in c.items:
                    if it.optional_vars is not None:
                        targets(it.optional_vars)
            elif isinstance(c, ast.ExceptHandler):
                if c.name:
                    loc.add(c.name)
            elif isinstance(c, ast.NamedExpr):
                targets(c.target)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    loc.add(al.asname or al.name.split('.')[0])
            elif isinstance(c, ast.Global):
                self.globals_.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                self.nonlocals_.update(c.names)
            elif isinstance(c, (ast.Yield, ast.YieldFrom)):
                self.is_generator = True
            elif isinstance(c, ast.MatchAs) and c.name:
                loc.add(c.name)
            elif isinstance(c, ast.MatchStar) and c.name:
                loc.add(c.name)
            elif isinstance(c, ast.Delete):
                for t in c.targets:
                    targets(t)

        if self.is_lambda:
            visit_expr(self.node.body)
        else:
            for s in self.node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    loc.add(s.name)
                    continue
                handle(s)
                visit(s)
        self.locals_ = loc - self.globals_ - self.nonlocals_


class Class:
    def __init__(self, qual, module, name, node):
        self.qual = qual
        self.module = module
        self.name = name
        self.node = node
        self.methods = {}        # name -> Func (plain methods)
        self.getters = {}
        self.setters = {}
        self.deleters = {}
        self.class_attrs = {}    # name -> expr
        self.base_exprs = node.bases
        self.bases = []          # resolved Class or external dotted str
        self.subclasses = []

    def __repr__(self):
        return f"<Class {self.qual}>"

    def mro(self):
        seen, out = set(), []

        def rec(c):
            if isinstance(c, str) or c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                rec(b)
        rec(self)
        return out

    def all_subclasses(self):
        out, st = [], list(self.subclasses)
        while st:
            c = st.pop()
            if c not in out:
                out.append(c)
                st.extend(c.subclasses)
        return out

    def external_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, str)]

    def find(self, table, name):
        for c in self.mro():
            t = getattr(c, table)
            if name in t:
                return t[name]
        return None

    def find_method(self, name):
        return self.find('methods', name)

    def find_getter(self, name):
        return self.find('getters', name)

    def find_setter(self, name):
        return self.find('setters', name)

    def dispatch(self, table, name):
        """The definitions a call on a value of this static type may reach."""
        out = []
        f = self.find(table, name)
        if f is not None:
            out.append(f)
        for s in self.all_subclasses():
            g = getattr(s, table).get(name)
            if g is not None and g not in out:
                out.append(g)
        return out


class Module:
    def __init__(self, name, path, relpath, src, tree, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.src = src
        self.tree = tree
        self.is_pkg = is_pkg
        self.imports = {}       # local name -> dotted target
        self.star_imports = []  # dotted module names
        self.functions = {}     # top-level name -> Func
        self.classes = {}
        self.globals_ = {}      # top-level assigned name -> list of value exprs
        self.global_nodes = {}
        self.dyn_globals = set()

    def __repr__(self):
        return f"<Module {self.name}>"


def _pkg_of(mod):
    if mod.is_pkg:
        return mod.name
    return mod.name.rpartition('.')[0]


class Project:
    def __init__(self, root=None, package='hexrd', skip_dirs=('tests',)):
        self.root = root or repo_root()
        self.package = package
        self.modules = {}
        self.unparsed = {}
        self.functions = {}       # qual -> Func
        self.classes = {}         # qual -> Class
        self.methods_by_name = {}
        self.getters_by_name = {}
        self.setters_by_name = {}
        base = os.path.join(self.root, package)
        if not os.path.isdir(base):
            raise AnalysisError(f"{base}: no such package")
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in skip_dirs
                           and not d.startswith('.') and d != '__pycache__')
            for f in sorted(fn):
                if f.endswith('.py'):
                    self._load(os.path.join(dp, f))
        self._link()

    # ------------------------------------------------------------------ load
    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        name = '.'.join(parts)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, path)
        except SyntaxError as e:
            self.unparsed[name] = (rel, f"{type(e).__name__}: {e.msg}", e.lineno)
            return
        m = Module(name, path, rel, src, tree, is_pkg)
        self.modules[name] = m
        self._collect(m)

    def _collect(self, m):
        def top(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self._func(m, None, s, None, f"{m.name}:{s.name}")
                elif isinstance(s, ast.ClassDef):
                    self._cls(m, s, f"{m.name}:{s.name}")
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    self._imp(m, s)
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    if isinstance(s, ast.For):
                        self._tgt(m, s.target, s.iter)
                    for fld in ('body', 'orelse', 'finalbody'):
                        top(getattr(s, fld, []) or [])
                    for h in getattr(s, 'handlers', []) or []:
                        top(h.body)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        self._tgt(m, t, s.value)
                elif isinstance(s, ast.AnnAssign):
                    self._tgt(m, s.target, s.value)
                elif isinstance(s, ast.AugAssign):
                    self._tgt(m, s.target, s.value)
        top(m.tree.body)
        # imports inside functions are recorded on demand by the resolver

    def _tgt(self, m, t, v):
        if isinstance(t, ast.Name):
            m.globals_.setdefault(t.id, []).append(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and \
                len(v.elts) == len(t.elts) else [None] * len(t.elts)
            for e, x in zip(t.elts, vs):
                self._tgt(m, e, x)

    def _imp(self, m, s, table=None):
        tab = m.imports if table is None else table
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    tab[a.asname] = a.name
                else:
                    tab[a.name.split('.')[0]] = a.name.split('.')[0]
        else:
            base = s.module or ''
            if s.level:
                pkg = _pkg_of(m)
                for _ in range(s.level - 1):
                    pkg = pkg.rpartition('.')[0]
                base = pkg + ('.' + base if base else '')
            for a in s.names:
                if a.name == '*':
                    if table is None:
                        m.star_imports.append(base)
                    continue
                tab[a.asname or a.name] = f"{base}.{a.name}"

    def _func(self, m, cls, node, parent, qual, kind=None):
        if kind is None:
            kind = 'method' if cls is not None and parent is None else 'function'
        n = 2
        q0 = qual
        while qual in self.functions:
            qual = f"{q0}#{n}"
            n += 1
        f = Func(qual, m, cls, getattr(node, 'name', '<lambda>'), node, kind, parent)
        self.functions[qual] = f
        if parent is not None:
            parent.nested[f.name] = f
        elif cls is None:
            m.functions[f.name] = f
        # nested functions and lambdas
        k = [0]

        def walk(n_):
            for c in ast.iter_child_nodes(n_):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self._func(m, cls, c, f, f"{qual}.<locals>.{c.name}", 'function')
                elif isinstance(c, ast.Lambda):
                    k[0] += 1
                    g = self._func(m, cls, c, f,
                                   f"{qual}.<locals>.<lambda{k[0]}>", 'lambda')
                    self.lambda_of = getattr(self, 'lambda_of', {})
                    self.lambda_of[id(c)] = g
                elif isinstance(c, ast.ClassDef):
                    self._cls(m, c, f"{qual}.<locals>.{c.name}")
                else:
                    walk(c)
        if isinstance(node, ast.Lambda):
            walk(ast.Expression(body=node.body))
        else:
            for s in node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self._func(m, cls, s, f, f"{qual}.<locals>.{s.name}", 'function')
                elif isinstance(s, ast.ClassDef):
                    self._cls(m, s, f"{qual}.<locals>.{s.name}")
                else:
                    walk(s)
        return f

    def _cls(self, m, node, qual):
        n = 2
        q0 = qual
        while qual in self.classes:
            qual = f"{q0}#{n}"
            n += 1
        c = Class(qual, m, node.name, node)
        self.classes[qual] = c
        if '<locals>' not in qual:
            m.classes[node.name] = c

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    kind = 'method'
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name) and d.id == 'property':
                            kind = 'getter'
                        elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                            kind = d.attr
                        elif isinstance(d, (ast.Name, ast.Attribute)) and \
                                (d.id if isinstance(d, ast.Name) else d.attr) in (
                                    'cached_property', 'abstractproperty'):
                            kind = 'getter'
                    suffix = '.' + kind if kind in ('setter', 'deleter') else ''
                    f = self._func(m, c, s, None, f"{qual}.{s.name}{suffix}", kind)
                    if kind == 'getter':
                        c.getters[s.name] = f
                    elif kind == 'setter':
                        c.setters[s.name] = f
                    elif kind == 'deleter':
                        c.deleters[s.name] = f
                    else:
                        c.methods[s.name] = f
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.class_attrs[t.id] = s.value
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name):
                        c.class_attrs[s.target.id] = s.value
                elif isinstance(s, ast.ClassDef):
                    self._cls(m, s, f"{qual}.{s.name}")
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        body(getattr(s, fld, []) or [])
        body(node.body)
        # x = property(getter, setter)
        for k, v in list(c.class_attrs.items()):
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property':
                names = [a.id if isinstance(a, ast.Name) else None for a in v.args]
                for kw in v.keywords:
                    if kw.arg == 'fget' and isinstance(kw.value, ast.Name):
                        names = [kw.value.id] + names[1:]
                    if kw.arg == 'fset' and isinstance(kw.value, ast.Name):
                        names = (names + [None])[:1] + [kw.value.id]
                if names and names[0] in c.methods:
                    c.getters[k] = c.methods[names[0]]
                if len(names) > 1 and names[1] in c.methods:
                    c.setters[k] = c.methods[names[1]]
                del c.class_attrs[k]

    # ------------------------------------------------------------------ link
    def _link(self):
        for c in self.classes.values():
            for b in c.base_exprs:
                d = self.dotted(b, c.module)
                r = self.lookup(d) if d else None
                if isinstance(r, Class):
                    c.bases.append(r)
                    r.subclasses.append(c)
                elif d:
                    c.bases.append(d)
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.methods_by_name.setdefault(n, []).append(f)
            for n, f in c.getters.items():
                self.getters_by_name.setdefault(n, []).append(f)
            for n, f in c.setters.items():
                self.setters_by_name.setdefault(n, []).append(f)

    # --------------------------------------------------------------- resolve
    def lookup(self, dotted, _depth=0):
        """Resolve a dotted name to a Module/Class/Func/('global', mod, name),
        following re-exports.  None when it is not part of the project."""
        if dotted is None or _depth > 12:
            return None
        if dotted in self.modules:
            return self.modules[dotted]
        head, _, last = dotted.rpartition('.')
        if not head:
            return None
        parent = self.lookup(head, _depth + 1)
        if isinstance(parent, Module):
            return self.member(parent, last, _depth)
        if isinstance(parent, Class):
            for t in ('methods', 'getters'):
                f = parent.find(t, last)
                if f is not None:
                    return f
            for c in parent.mro():
                if last in c.class_attrs:
                    return ('classattr', c, last)
                for q in (f"{c.qual}.{last}",):
                    if q in self.classes:
                        return self.classes[q]
        return None

    def member(self, mod, name, _depth=0):
        if name in mod.functions:
            return mod.functions[name]
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.globals_:
            # simple alias  X = Y
            vals = mod.globals_[name]
            if len(vals) == 1 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                if isinstance(vals[0], ast.Name) and vals[0].id in BUILTINS and \
                        vals[0].id in mod.functions and \
                        mod.functions[vals[0].id].node.lineno > vals[0].lineno:
                    return None       # alias of the builtin, taken before it is redefined
                d = self.dotted(vals[0], mod)
                r = self.lookup(d, _depth + 1) if d and d != f"{mod.name}.{name}" else None
                if r is not None:
                    return r
            return ('global', mod, name)
        if name in mod.imports:
            d = mod.imports[name]
            if d != f"{mod.name}.{name}":
                r = self.lookup(d, _depth + 1)
                if r is not None:
                    return r
            sub = f"{mod.name}.{name}"
            if sub in self.modules:
                return self.modules[sub]
            return None
        sub = f"{mod.name}.{name}"
        if sub in self.modules:
            return self.modules[sub]
        for s in mod.star_imports:
            sm = self.modules.get(s)
            if sm is not None and sm is not mod:
                r = self.member(sm, name, _depth + 1)
                if r is not None and _depth < 12:
                    return r
        return None

    def func_imports(self, func):
        """Imports performed inside a function (and its enclosing functions)."""
        tab = {}
        chain = []
        f = func
        while f is not None:
            chain.append(f)
            f = f.parent
        for f in reversed(chain):
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._imp(f.module, n, tab)
        return tab

    def dotted(self, expr, mod, func=None, _imports=None):
        """Dotted external/project name an expression denotes, or None.
        Local variables of `func` are not names of modules."""
        if isinstance(expr, ast.Name):
            n = expr.id
            if func is not None:
                imps = _imports if _imports is not None else self.func_imports(func)
                if n in imps:
                    return imps[n]
                f = func
                while f is not None:
                    if n in f.nested and n in f.locals_:
                        return None
                    if n in f.locals_:
                        return None
                    f = f.parent
            if n in mod.functions or n in mod.classes or n in mod.globals_:
                return f"{mod.name}.{n}"
            if n in mod.imports:
                return mod.imports[n]
            for s in mod.star_imports:
                sm = self.modules.get(s)
                if sm is not None:
                    r = self.member(sm, n)
                    if r is not None:
                        return f"{s}.{n}"
            if n in BUILTINS:
                return f"builtins.{n}"
            return None
        if isinstance(expr, ast.Attribute):
            b = self.dotted(expr.value, mod, func, _imports)
            if b is None or b.startswith('builtins.'):
                return None if b is None else f"{b}.{expr.attr}"
            return f"{b}.{expr.attr}"
        return None

    def resolve(self, expr, mod, func=None, _imports=None):
        """Project entity denoted by an expression (or None)."""
        if isinstance(expr, ast.Name) and func is not None:
            f = func
            while f is not None:
                if expr.id in f.nested:
                    return f.nested[expr.id]
                if expr.id in f.locals_:
                    break
                f = f.parent
        d = self.dotted(expr, mod, func, _imports)
        return self.lookup(d) if d else None

    # --------------------------------------------------------------- require
    def func(self, qual):
        if qual not in self.functions:
            raise AnalysisError(f"anchor vanished: function {qual}")
        return self.functions[qual]

    def cls(self, qual):
        if qual not in self.classes:
            raise AnalysisError(f"anchor vanished: class {qual}")
        return self.classes[qual]

    def module(self, name):
        if name not in self.modules:
            raise AnalysisError(f"anchor vanished: module {name}")
        return self.modules[name]


def load(root=None):
    return Project(root)


if __name__ == '__main__':
    import time
    t = time.time()
    p = load()
    print(len(p.modules), 'modules', len(p.functions), 'functions', len(p.classes), 'classes',
          p.unparsed, f'{time.time()-t:.1f}s')
