"""A13: no use of a name, member, parameter or result that does not exist."""
import ast
import builtins
from .. import flow, report
from ..project import AnalysisError, Module, Class, Func, BUILTINS
from . import a01

BI = BUILTINS | {'__class__', '__qualname__', '__module__', 'WindowsError', 'reveal_type'}

# attributes every object has
OBJ = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__module__', '__wrapped__',
                          '__annotations__', '__self__', '__func__', '__code__', '__mro__',
                          '__subclasses__', '__bases__', '__defaults__', '__abstractmethods__',
                          '__dataclass_fields__', '__slots__', '__weakref__'}


def scope_chain(f):
    while f is not None:
        yield f
        f = f.parent


def class_scope_names(c):
    out = set()
    for s in ast.walk(c.node):
        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
            out.add(s.id)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            out.add(s.name)
    return out


def module_names(p, m, seen=None):
    seen = seen or set()
    if m.name in seen:
        return set()
    seen.add(m.name)
    out = set(m.functions) | set(m.classes) | set(m.globals_) | set(m.imports) | m.dyn_globals
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out |= set(n.names)
    top = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, ast.alias):
                out.add(c.asname or c.name.split('.')[0])
            walk(c)
    walk(m.tree)
    for s in m.star_imports:
        sm = p.modules.get(s)
        if sm is not None:
            out |= {x for x in module_names(p, sm, seen) if not x.startswith('_')}
        else:
            out.add('*')
    return out


def own_nodes(f):
    """Nodes of f that are evaluated in f's own scope (not nested functions)."""
    roots = [f.node.body] if f.is_lambda else list(f.node.body)
    st = list(roots)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.extend(n.decorator_list)
            st.extend(n.args.defaults)
            st.extend(x for x in n.args.kw_defaults if x is not None)
            continue
        if isinstance(n, ast.Lambda):
            st.extend(n.args.defaults)
            st.extend(x for x in n.args.kw_defaults if x is not None)
            continue
        if isinstance(n, ast.ClassDef):
            continue
        st.extend(ast.iter_child_nodes(n))


def comp_names(f):
    out = set()
    for n in own_nodes(f):
        if isinstance(n, ast.comprehension):
            out |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    return out


def always_raises(p, f, memo):
    """The function never returns normally (every path raises or exits)."""
    if f.qual in memo:
        return memo[f.qual]
    memo[f.qual] = False
    if f.is_lambda or f.is_generator:
        return False
    body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not body or len(body) > 12:
        return False
    if any(isinstance(n, ast.Return) for s in body for n in ast.walk(s)):
        return False
    d = flow.Definite(f)
    memo[f.qual] = d.block(f.body, flow.S(set(f.locals_))) is None
    return memo[f.qual]


# ---------------------------------------------------------------- signatures
def check_call(g, skip, call):
    """Problem text if the call cannot bind to g, else None.  skip: leading
    parameters already supplied (self, cls, partial arguments)."""
    params = g.params[skip:] if skip >= 0 else g.params
    npos = len(call.args)
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    if star:
        npos_known = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    else:
        npos_known = npos
    if npos_known > len(params) and not g.vararg:
        return f"takes {len(params)} positional arguments, {npos_known} given"
    names = set(params) | set(g.kwonly)
    posonly = set(g.params[:g.posonly_n])
    seen = set(params[:npos_known]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in seen:
            return f"argument '{k.arg}' given twice"
        if (k.arg not in names or k.arg in posonly) and not g.kwarg:
            if not (skip > 0 and k.arg in g.params[:skip]):
                return f"has no parameter '{k.arg}'"
            return f"argument '{k.arg}' given twice"
        seen.add(k.arg)
    if star or dstar:
        return None
    missing = [q for q in params[npos_known:] if q not in seen and q not in g.defaults]
    missing += [q for q in g.kwonly if q not in seen and q not in g.defaults]
    if missing:
        return f"required argument '{missing[0]}' is not given"
    return None


def tuple_arity(g):
    """Set of tuple lengths returned, or None when not all returns are tuple displays."""
    if g.is_lambda or g.is_generator:
        return None
    out = set()
    for n in own_nodes(g):
        if isinstance(n, ast.Return):
            if n.value is None or (isinstance(n.value, ast.Constant) and n.value.value is None):
                out.add(None)
            elif isinstance(n.value, ast.Tuple) and not any(
                    isinstance(x, ast.Starred) for x in n.value.elts):
                out.add(len(n.value.elts))
            else:
                return None
    return out


def decorated(g):
    """The decorators may change the signature."""
    for d in g.decorators:
        t = ast.unparse(d.func if isinstance(d, ast.Call) else d)
        if t.split('.')[-1] not in ('staticmethod', 'classmethod', 'abstractmethod', 'property',
                                    'njit', 'jit', 'memoize', 'lru_cache', 'cache', 'setter',
                                    'cached_property', 'numba_njit_if_available', 'deprecated',
                                    'wraps', 'overload', 'profile', 'numba'):
            return True
    return False


def is_stub(g):
    """Abstract method: documentation, pass or raise NotImplementedError only."""
    if g.is_lambda:
        return False
    body = [x for x in g.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return not body or all(isinstance(x, ast.Pass) or (
        isinstance(x, ast.Raise) and 'NotImplemented' in ast.unparse(x)) for x in body)


class Attrs:
    """Which attributes instances of a class may have."""

    def __init__(self, p):
        self.p = p
        self.own = {}
        self.foreign = set()
        self.setattr_cls = set()
        for f in p.functions.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if f.cls is not None and f.params and isinstance(n.value, ast.Name) \
                            and self.selfish(f, n.value.id):
                        self.own.setdefault(f.cls.qual, set()).add(n.attr)
                    else:
                        self.foreign.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                        n.func.id == 'setattr':
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        if f.cls is not None:
                            self.own.setdefault(f.cls.qual, set()).add(n.args[1].value)
                        self.foreign.add(n.args[1].value)
                    elif n.args and isinstance(n.args[0], ast.Name) and f.cls is not None and \
                            self.selfish(f, n.args[0].id):
                        self.setattr_cls.add(f.cls.qual)
                    elif f.cls is None or not n.args:
                        pass
        for m in p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    pass

    @staticmethod
    def selfish(f, name):
        g = f
        while g is not None:
            if g.is_method and g.params and g.params[0] == name:
                return True
            g = g.parent
        return name in ('self', 'cls')

    def has(self, c, attr):
        """True/False/None (unknown: external base, __getattr__, setattr)."""
        if attr in OBJ or (attr.startswith('__') and attr.endswith('__')):
            return True
        for k in c.mro() + c.all_subclasses():
            for t in (k.methods, k.getters, k.setters, k.class_attrs):
                if attr in t:
                    return True
            if attr in self.own.get(k.qual, ()):
                return True
            if any(isinstance(s, ast.ClassDef) and s.name == attr for s in k.node.body):
                return True
        for k in c.mro():
            if '__getattr__' in k.methods or '__getattribute__' in k.methods:
                return None
            if k.qual in self.setattr_cls:
                return None
            if attr in slots(k):
                return True
            for s in k.node.body:
                # names bound in the class body in other ways (imports, loops, tuples)
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == attr:
                        return True
                    if isinstance(n, ast.alias) and (n.asname or n.name) == attr:
                        return True
            for kw in k.node.keywords:
                pass
        for k in c.mro() + c.all_subclasses():
            for b, ex in zip_bases(k):
                if b is None or (isinstance(b, str) and b.rpartition('.')[2] not in (
                        'object', 'ABC', 'Protocol', 'Generic')):
                    return None
        if attr in self.foreign:
            return None
        return False


def slots(k):
    v = k.class_attrs.get('__slots__')
    return {x.value for x in ast.walk(v) if isinstance(x, ast.Constant)} if v is not None else set()


def zip_bases(k):
    if len(k.bases) != len(k.base_exprs):
        yield None, None
    for b in k.bases:
        yield b, None


def check(rep):
    rep.rule('name', 'every name read in a function resolves to a local, an enclosing scope, a '
             'module member or a builtin')
    rep.rule('bound', 'a local name is bound on the paths that reach its use (branch conditions '
             'repeated later are understood; loops are taken to run at least once)')
    rep.rule('member', 'a member imported or accessed from a module of the package exists in it')
    rep.rule('attribute', 'an attribute read from an object of a known class of the package is '
             'defined by that class, a base or a subclass')
    rep.rule('call', 'a call whose callee is resolved supplies arguments that callee accepts')
    rep.rule('raise', 'what is raised is an exception')
    rep.rule('arity', 'a call result unpacked into n targets comes from a function that returns n '
             'values')
    p, e = a01.analyse(infer=False)
    rep.count('modules analysed', len(p.modules))
    rep.count('functions analysed', len(p.functions))
    for name, (rel, msg, line) in sorted(p.unparsed.items()):
        rep.finding('syntax', name, f"{rel}:{line}", f"the module cannot be compiled: {msg}")
    names_of = {m.name: module_names(p, m) for m in p.modules.values()}
    attrs = Attrs(p)
    memo = {}
    allow = report.contract('a13_allow.json') if report.has_contract('a13_allow.json') else {}
    unbound = {}
    # ---- names
    for f in p.functions.values():
        m = f.module
        mods = names_of[m.name]
        comp = comp_names(f)
        enclosing = set()
        for g in scope_chain(f):
            enclosing |= g.locals_
            if g is not f:
                enclosing |= comp_names(g)
        # a class nested in a function sees the function; methods do not see class scope
        for n in own_nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                rep.count('name uses resolved')
                nm = n.id
                if nm in enclosing or nm in comp or nm in mods or nm in BI or '*' in mods:
                    continue
                if '<locals>' in f.qual and outer_has(p, f, nm):
                    continue
                rep.finding('name', f"{f.qual}|{nm}", f.where(n),
                            f"{f.qual} uses '{nm}', which is defined nowhere")
        if not f.is_lambda:
            def terminates(call, f=f):
                r = p.resolve(call.func, f.module, f, e.imports(f)) if isinstance(
                    call.func, (ast.Name, ast.Attribute)) else None
                if r is None and isinstance(call.func, ast.Attribute) and f.cls is not None and \
                        isinstance(call.func.value, ast.Name) and call.func.value.id == f.self_name:
                    r = f.cls.find_method(call.func.attr)
                if isinstance(call.func, ast.Attribute) and call.func.attr == 'error' and \
                        'parser' in ast.unparse(call.func.value):
                    return True
                return isinstance(r, Func) and always_raises(p, r, memo)
            d = flow.Definite(f, terminates)
            for nm, n in sorted(d.run().items()):
                unbound.setdefault(m.name, []).append((f, nm, n))
            rep.count('function bodies checked for unbound locals')
    known = {k['key'] for k in report.load_known() if k['property'] == rep.pid}
    for mn, items in sorted(unbound.items()):
        # an explained case may be moved or renamed by a refactoring of the module, but the
        # number of variables that are bound on some paths only must not grow
        may = allow.get('#' + mn, 0)
        for f, nm, n in items:
            ok = f"{mn}|{nm}" in allow
            if ok or (len(items) <= may and f"bound:{f.qual}|{nm}" not in known):
                rep.count('of these: unbound only as explained in contracts/a13_allow.json')
                continue
            rep.finding('bound', f"{f.qual}|{nm}", f.where(n),
                        f"{f.qual}: local '{nm}' may be used before it is bound")
    rep.unbound_counts = {k: len(v) for k, v in unbound.items()}
    # ---- module bodies
    for m in p.modules.values():
        def walk(n, bound):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    for x in getattr(c, 'decorator_list', []):
                        walk(ast.Expr(value=x), bound)
                    continue
                b = bound
                if isinstance(c, ast.ClassDef):
                    b = bound | {x.id for x in ast.walk(c) if isinstance(x, ast.Name) and
                                 isinstance(x.ctx, ast.Store)} | {
                        x.name for x in c.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) and \
                        c.id not in names_of[m.name] and c.id not in BI and c.id not in b and \
                        '*' not in names_of[m.name]:
                    rep.finding('name', f"{m.name}|{c.id}", f"{m.relpath}:{c.lineno}",
                                f"module {m.name} uses '{c.id}', which is defined nowhere")
                walk(c, b)
        walk(m.tree, set())
    # ---- imports
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                tab = {}
                p._imp(m, n, tab)
                base = next(iter(tab.values())).rpartition('.')[0] if tab else None
                if base is None or not (base == p.package or base.startswith(p.package + '.')):
                    continue
                for nm, target in tab.items():
                    rep.count('imported members resolved')
                    b, _, mem = target.rpartition('.')
                    if not exists(p, names_of, b, mem):
                        rep.finding('member', f"{m.name}|{target}", f"{m.relpath}:{n.lineno}",
                                    f"{m.name} imports {target}, which does not exist")
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.startswith(p.package + '.') and not is_module(p, a.name):
                        rep.finding('member', f"{m.name}|{a.name}", f"{m.relpath}:{n.lineno}",
                                    f"{m.name} imports {a.name}, which does not exist")
    # ---- attribute accesses and calls
    for f in p.functions.values():
        imps = e.imports(f)
        for n in own_nodes(f):
            if isinstance(n, ast.Attribute):
                d = p.dotted(n.value, f.module, f, imps) if isinstance(
                    n.value, (ast.Name, ast.Attribute)) else None
                r = p.lookup(d) if d else None
                if isinstance(r, Module) and isinstance(n.ctx, ast.Load):
                    rep.count('module members resolved')
                    if not exists(p, names_of, r.name, n.attr) and not guarded(f, n):
                        rep.finding('member', f"{f.qual}|{r.name}.{n.attr}", f.where(n),
                                    f"{f.qual} uses {r.name}.{n.attr}, which does not exist")
                    continue
                if isinstance(r, Class) and isinstance(n.ctx, ast.Load):
                    cl = [r]
                elif isinstance(n.ctx, ast.Load):
                    tys = e.attr_log.get((f.qual, id(n)), ())
                    cl = [p.classes[t] for t in tys if t in p.classes]
                    if len(cl) != len(tys):
                        continue
                else:
                    continue
                if not cl:
                    continue
                rep.count('attribute reads on known classes')
                if all(attrs.has(c, n.attr) is False for c in cl) and not guarded(f, n):
                    rep.finding('attribute', f"{f.qual}|{cl[0].name}.{n.attr}", f.where(n),
                                f"{f.qual} reads .{n.attr} of a {cl[0].name}, which has no such "
                                "attribute")
            elif isinstance(n, ast.Call):
                targets = e.call_log.get((f.qual, id(n)), ())
                sure = [(q, k) for q, k, s in targets if s]
                if not sure or len(sure) != len(targets):
                    continue
                probs = []
                for q, k in sure:
                    g = p.functions[q]
                    if is_stub(g) and len(sure) > 1:
                        continue
                    if decorated(g):
                        probs.append(None)
                        continue
                    if any(isinstance(a, ast.Starred) for a in n.args):
                        k = 1 if g.is_method and not isinstance(
                            p.resolve(n.func, f.module, f, imps), Func) else 0
                        if g.is_method and g.name == '__init__' and isinstance(
                                p.resolve(n.func, f.module, f, imps), Func):
                            k = 0
                    if k < 0:
                        probs.append(None)
                        continue
                    probs.append(check_call(g, k, n))
                rep.count('call sites checked against signatures')
                if probs and all(probs):
                    g = next(p.functions[q] for q, k in sure if not is_stub(p.functions[q]) or
                             len(sure) == 1)
                    rep.finding('call', f"{f.qual}|{g.qual}|{probs[0]}", f.where(n),
                                f"{f.qual} calls {g.qual}, which {probs[0]}")
            elif isinstance(n, ast.Raise) and n.exc is not None:
                rep.count('raise statements checked')
                if isinstance(n.exc, (ast.Tuple, ast.List, ast.Constant, ast.JoinedStr, ast.Dict)):
                    rep.finding('raise', f"{f.qual}|{ast.unparse(n.exc)[:60]}", f.where(n),
                                f"{f.qual} raises something that is not an exception")
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                    isinstance(n.targets[0], (ast.Tuple, ast.List)):
                t = n.targets[0]
                targets = e.call_log.get((f.qual, id(n.value)), ())
                sure = [q for q, k, s in targets if s]
                if len(sure) != 1 or len(targets) != 1:
                    continue
                g = p.functions[sure[0]]
                if g.name == '__init__' or decorated(g):
                    continue
                ar = tuple_arity(g)
                if not ar:
                    continue
                rep.count('unpacked results checked')
                nt = len(t.elts)
                st = any(isinstance(x, ast.Starred) for x in t.elts)
                ok = [a for a in ar if a is not None and (a == nt or (st and a >= nt - 1))]
                if not ok:
                    rep.finding('arity', f"{f.qual}|{g.qual}|{nt}", f.where(n),
                                f"{f.qual} unpacks {nt} values from {g.qual}, which returns "
                                f"{sorted(a for a in ar if a is not None) or 'nothing'}")
                elif len(set(ar)) > 1 and None not in ar:
                    rep.count('of these: callee returns different numbers of values')
    rep.need('functions analysed', 2000)
    rep.need('name uses resolved', 35000)
    rep.need('imported members resolved', 500)
    rep.need('attribute reads on known classes', 4000)
    rep.need('call sites checked against signatures', 1600)


def outer_has(p, f, nm):
    q = f.qual.split('.<locals>.')[0]
    g = p.functions.get(q)
    return g is not None and nm in g.locals_


def guarded(f, node):
    """Inside try/except AttributeError or after hasattr of that attribute."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and any(
                h.type is None or 'AttributeError' in ast.unparse(h.type) or
                ast.unparse(h.type) == 'Exception' for h in n.handlers):
            if any(x is node for s in n.body for x in ast.walk(s)):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'hasattr' and \
                len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and \
                n.args[1].value == node.attr:
            return True
    return False


def is_module(p, name):
    return name in p.modules or name in p.unparsed or any(
        x.startswith(name + '.') for x in p.modules) or ext_module(p, name)


def ext_module(p, name):
    import os
    base = os.path.join(p.root, *name.split('.'))
    d, b = os.path.split(base)
    if os.path.isdir(base):
        return True
    # compiled extension declared in setup.py
    sp = os.path.join(p.root, 'setup.py')
    if os.path.exists(sp):
        with open(sp) as fh:
            return f"'{name}'" in fh.read() or False
    return False


def exists(p, names_of, mod, mem):
    m = p.modules.get(mod)
    if m is None:
        new = legacy(p).get(mod)
        if new is not None and new != mod:
            return exists(p, names_of, new, mem)
    if m is None:
        if mod in p.unparsed:
            return True
        return is_module(p, f"{mod}.{mem}")
    if mem in names_of[mod] or '*' in names_of[mod]:
        return True
    if mem in ('__file__', '__name__', '__doc__', '__path__', '__version__', '__spec__'):
        return True
    if '__getattr__' in m.functions:
        return True
    return is_module(p, f"{mod}.{mem}")


def legacy(p):
    """Old module path -> new module path, from the compatibility table."""
    r = getattr(p, '_legacy', None)
    if r is None:
        import os
        r = p._legacy = {}
        allv = {}
        with open(os.path.join(p.root, p.package, 'file_table.tsv')) as fh:
            for line in fh:
                kv = line.strip().split()
                if len(kv) == 2 and '\\' not in line:
                    allv.setdefault(kv[0], []).append(kv[1])
        for k, vs in allv.items():
            parts = k.split('/')
            if p.package not in parts or not (k.endswith('.py') or '.' not in parts[-1]):
                continue
            v = next((x for x in vs if 'core' in x.split('/')), vs[0])
            f = lambda t: t[:-3].removesuffix('/__init__').replace('/', '.') \
                if t.endswith('.py') else t.replace('/', '.')
            r[f(k)] = f(v)
    return r


def write_contract(rep):
    """Developer only: refresh the per-module numbers; the reasons are written by hand."""
    check(rep)
    allow = report.contract('a13_allow.json')
    allow = {k: v for k, v in allow.items() if not k.startswith('#')}
    allow.update({'#' + k: v for k, v in rep.unbound_counts.items()})
    report.write_contract('a13_allow.json', allow)
