"""Where work is handed to threads, processes and parallel loops, and which function does it."""
import ast

THREAD = ('ThreadPoolExecutor', 'ThreadPool')
PROC = ('ProcessPoolExecutor', 'Pool')
SUBMIT = ('map', 'submit', 'imap', 'imap_unordered', 'map_async', 'apply_async', 'apply',
          'starmap')


def own(node):
    """nodes of a function without those of functions defined inside it"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


def last(fn):
    return fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''


def definitions(f):
    d = {}
    for n in own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    d.setdefault(t.id, []).append(n.value)
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None and \
                isinstance(n.target, ast.Name):
            d.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                if isinstance(it.optional_vars, ast.Name):
                    d.setdefault(it.optional_vars.id, []).append(it.context_expr)
    return d


def pool_kind(e, defs, depth=0):
    """'thread' or 'process' when e is a pool or executor"""
    if isinstance(e, ast.Call):
        n = last(e.func)
        return 'thread' if n in THREAD else 'process' if n in PROC or n.endswith('_pool') else None
    if isinstance(e, ast.IfExp):
        return pool_kind(e.body, defs, depth) or pool_kind(e.orelse, defs, depth)
    if isinstance(e, ast.Name) and e.id == 'pool' and e.id not in defs:
        return 'process'
    if isinstance(e, ast.Name) and depth < 4:
        ks = {pool_kind(v, defs, depth + 1) for v in defs.get(e.id, ())} - {None}
        if ks:
            return 'thread' if 'thread' in ks else 'process'
    return None


class Task:
    """one dispatch: call node, in function f, of worker g; bound: parameters every task shares"""

    def __init__(self, f, call, kind, target, how):
        self.f, self.call, self.kind, self.how = f, call, kind, how
        self.target = target
        self.workers = []         # (Func, shared parameter names)


def tasks(p):
    out = []
    for q in sorted(p.functions):
        f = p.functions[q]
        if f.is_lambda:
            continue
        defs = None
        for n in own(f.node):
            if not isinstance(n, ast.Call):
                continue
            t = None
            if last(n.func) in ('Thread', 'Process') and any(
                    k.arg == 'target' for k in n.keywords):
                t = Task(f, n, 'thread' if last(n.func) == 'Thread' else 'process',
                         next(k.value for k in n.keywords if k.arg == 'target'), last(n.func))
            elif isinstance(n.func, ast.Attribute) and n.func.attr in SUBMIT and n.args:
                d = defs = defs if defs is not None else definitions(f)
                g = f
                while g.parent is not None and pool_kind(n.func.value, d) is None:
                    g = g.parent
                    d = {**definitions(g), **d}
                k = pool_kind(n.func.value, d)
                if k:
                    t = Task(f, n, k, n.args[0], n.func.attr)
            if t is not None:
                defs = defs if defs is not None else definitions(f)
                t.workers = list(workers(p, f, t.target, defs, frozenset()))
                out.append(t)
    return out


def workers(p, f, e, defs, shared, depth=0):
    if isinstance(e, ast.Call) and last(e.func) == 'partial' and e.args:
        for g, sh in workers(p, f, e.args[0], defs, shared, depth + 1):
            ps = [x for x in g.all_params if x != g.self_name] if g.is_method else g.all_params
            names = set(sh)
            names |= set(ps[:len(e.args) - 1])
            star = False
            for k in e.keywords:
                if k.arg:
                    names.add(k.arg)
                else:
                    star = True
                    for v in defs.get(getattr(k.value, 'id', ''), ()):
                        if isinstance(v, ast.Dict):
                            names |= {x.value for x in v.keys if isinstance(x, ast.Constant)}
                        elif isinstance(v, ast.Call) and last(v.func) == 'dict':
                            names |= {x.arg for x in v.keywords if x.arg}
            yield g, frozenset(names)
        return
    if isinstance(e, ast.Lambda):
        for g in p.functions.values():
            if g.node is e:
                yield g, shared
        return
    if isinstance(e, ast.Name):
        h = f
        while h is not None:
            if e.id in h.nested:
                yield h.nested[e.id], shared
                return
            h = h.parent
        if e.id in defs and depth < 4:
            for v in defs[e.id]:
                yield from workers(p, f, v, defs, shared, depth + 1)
            return
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and \
            e.value.id == f.self_name and f.cls is not None:
        g = f.cls.find('methods', e.attr)
        if g is not None:
            yield g, shared | {g.self_name}
        return
    if isinstance(e, (ast.Name, ast.Attribute)):
        g = p.resolve(e, f.module, f, None)
        if g is not None and hasattr(g, 'all_params'):
            yield g, shared


def constant(p, f, x, depth=0):
    """the integer an expression always is, following single definitions and, for a
    parameter of a helper, the arguments of all its calls in the same module"""
    if isinstance(x, ast.Constant):
        return x.value if isinstance(x.value, int) else None
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and depth <= 3:
        g = f.module.functions.get(x.func.id)
        if g is not None and len(g.body) >= 1:
            rs = [n.value for n in own(g.node) if isinstance(n, ast.Return)]
            if len(rs) == 1 and isinstance(g.body[-1], ast.Return):
                return constant(p, g, rs[0], depth + 1)
    if not isinstance(x, ast.Name) or depth > 3:
        return None
    if x.id in f.all_params:
        vs = set()
        if f.name in f.module.functions and f.module.functions[f.name] is f and x.id in f.params:
            i = f.params.index(x.id)
            for g in f.module.functions.values():
                for n in own(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                            n.func.id == f.name:
                        a = n.args[i] if i < len(n.args) else next(
                            (k.value for k in n.keywords if k.arg == x.id), None)
                        vs.add(constant(p, g, a, depth + 1) if a is not None else None)
        return vs.pop() if len(vs) == 1 else None
    ds = definitions(f).get(x.id, ())
    return constant(p, f, ds[0], depth + 1) if len(ds) == 1 else None


def decided(p, f, test):
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        r = decided(p, f, test.operand)
        return None if r is None else not r
    if isinstance(test, ast.Name):
        ds = definitions(f).get(test.id, ())
        return decided(p, f, ds[0]) if len(ds) == 1 and test.id not in f.all_params else None
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        a, b = constant(p, f, test.left), constant(p, f, test.comparators[0])
        if a is None or b is None:
            return None
        return {ast.Gt: a > b, ast.GtE: a >= b, ast.Lt: a < b, ast.LtE: a <= b, ast.Eq: a == b,
                ast.NotEq: a != b}.get(type(test.ops[0]))
    return None


def never(p, t):
    """is the dispatch under a test of a constant worker count that fails?"""
    def inside(body, call):
        return any(n is call for s in body for n in ast.walk(s))

    def off(f, call):
        for n in own(f.node):
            if isinstance(n, (ast.If, ast.IfExp)):
                r = decided(p, f, n.test)
                yes = n.body if isinstance(n, ast.If) else [n.body]
                no = n.orelse if isinstance(n, ast.If) else [n.orelse]
                if r is False and inside(yes, call) or r and inside(no, call):
                    return True
        return False
    if off(t.f, t.call):
        return True
    # a helper that is only called where it is switched off
    if t.f.module.functions.get(t.f.name) is not t.f:
        return False
    sites = [(g, n) for g in p.functions.values() if g.module is t.f.module and not g.is_lambda
             for n in own(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
             and n.func.id == t.f.name]
    return bool(sites) and all(off(g, n) for g, n in sites) and not t.f.public
