"""A05: parallel workers share no unprotected mutable state."""
import ast

from .. import par, report
from ..par import last, own
from . import a01

ALLOW = 'a05_allow.json'


# --------------------------------------------------------------- prange loops
def base(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def indices(t):
    s = t.slice
    return list(s.elts) if isinstance(s, ast.Tuple) else [s]


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def injective(e, derived):
    """does e differ between tasks because it is built from a derived name by operations that
    keep different values different (in one variable)?"""
    if isinstance(e, ast.Name):
        return e.id in derived
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, (ast.Mod, ast.FloorDiv, ast.BitAnd, ast.RShift)):
            return False
        return injective(e.left, derived) or injective(e.right, derived)
    if isinstance(e, ast.UnaryOp):
        return not isinstance(e.op, ast.Not) and injective(e.operand, derived)
    if isinstance(e, ast.Slice):
        return e.lower is not None and injective(e.lower, derived)
    if isinstance(e, ast.Subscript):
        # a row or element picked by the task's own index
        return any(injective(i, derived) for i in indices(e)) or injective(e.value, derived)
    if isinstance(e, ast.Call):
        if last(e.func) in ('int', 'str', 'get_ident', 'uint', 'int64', 'intp'):
            return last(e.func) == 'get_ident' or any(injective(a, derived) for a in e.args)
        return False
    if isinstance(e, ast.JoinedStr):
        return any(injective(v.value, derived) for v in e.values
                   if isinstance(v, ast.FormattedValue))
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(injective(x, derived) for x in e.elts)
    if isinstance(e, ast.Attribute):
        return injective(e.value, derived)
    return False


def assigned(body):
    """(name, value or None, statement) of plain names stored in the statements"""
    for s in body:
        for n in [s] + list(ast.walk(s)):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        yield t.id, n.value, n
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for x in t.elts:
                            if isinstance(x, ast.Name):
                                yield x.id, n.value, n
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                yield n.target.id, None, n
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                yield n.target.id, n.value, n
            elif isinstance(n, ast.For):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        yield x.id, n.iter, n


def derive(body, start):
    d = set(start)
    while True:
        n = len(d)
        for name, v, s in assigned(body):
            if v is None:
                continue
            if isinstance(s, ast.For):
                it = s.iter
                if isinstance(it, ast.Call) and last(it.func) in ('enumerate', 'zip', 'iter'):
                    ok = any(injective(a, d) for a in it.args)
                elif isinstance(it, ast.Call) and last(it.func) == 'range':
                    ok = any(injective(a.value if isinstance(a, ast.Starred) else a, d)
                             for a in it.args)
                else:
                    ok = injective(it, d)
                if ok:
                    d.add(name)
            elif injective(v, d):
                d.add(name)
        if len(d) == n:
            return d


def early(body, name, before=None):
    """is `name` read in body before it is certainly stored? (structural, first iteration)"""
    def expr(e, st):
        return e is not None and name in {n.id for n in ast.walk(e) if isinstance(n, ast.Name)
                                          and isinstance(n.ctx, ast.Load)} and not st

    def block(b, st):
        """(read early, stored after)"""
        for s in b:
            if isinstance(s, ast.If):
                if expr(s.test, st):
                    return True, st
                r1, a1 = block(s.body, st)
                r2, a2 = block(s.orelse, st)
                if r1 or r2:
                    return True, st
                st = a1 and a2
            elif isinstance(s, (ast.For, ast.While)):
                if expr(s.iter if isinstance(s, ast.For) else s.test, st):
                    return True, st
                inner = st or isinstance(s, ast.For) and name in names(s.target)
                r, _ = block(s.body, inner)
                if r:
                    return True, st
            elif isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name) and s.target.id == name:
                    if not st:
                        return True, st
                elif expr(s.value, st) or expr(s.target, st):
                    return True, st
            elif isinstance(s, ast.Assign):
                if expr(s.value, st):
                    return True, st
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        st |= t.id == name
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        st |= any(isinstance(x, ast.Name) and x.id == name for x in t.elts)
                    elif expr(t, st):
                        return True, st
            elif isinstance(s, ast.Return):
                return expr(s.value, st), True
            elif any(expr(c, st) for c in ast.iter_child_nodes(s) if isinstance(c, ast.expr)):
                return True, st
        return False, st
    return block(body, False)[0]


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'discard',
            'setdefault', 'sort', 'reverse', 'fill', 'resize', 'put', 'popitem'}


def prange(rep, p):
    for q in sorted(p.functions):
        f = p.functions[q]
        if f.is_lambda:
            continue
        par_on = any('parallel' in ast.unparse(d) and 'True' in ast.unparse(d)
                     for d in getattr(f.node, 'decorator_list', ()))
        loops = [n for n in own(f.node) if isinstance(n, ast.For) and
                 isinstance(n.iter, ast.Call) and last(n.iter.func) == 'prange']
        for lp in loops:
            if not isinstance(lp.target, ast.Name):
                continue
            rep.count('parallel loops')
            rep.sample('parallel loops', f.where(lp))
            i = lp.target.id
            d = derive(lp.body, {i})
            inside = {}
            for name, v, s in assigned(lp.body):
                inside.setdefault(name, []).append((v, s))
            inner_targets = {x for n in ast.walk(lp) if isinstance(n, ast.For) and n is not lp
                             for x in names(n.target)}
            after = names_after(f, lp)
            reads_only = set()
            # scalars (and arrays rebound in the loop)
            private = set()
            for name, ws in inside.items():
                if name == i:
                    continue
                only_aug = all(isinstance(s, ast.AugAssign) for _, s in ws)
                used = [n for n in ast.walk(lp) if isinstance(n, ast.Name) and n.id == name and
                        isinstance(n.ctx, ast.Load)]
                if only_aug:
                    ops = {type(s.op) for _, s in ws}
                    rep.count('reductions')
                    if used or len(ops) > 1 or not ops <= {ast.Add, ast.Mult, ast.Sub}:
                        yield (f"{q}|{name}", f, lp,
                               f"{name} is accumulated across the iterations of the parallel loop "
                               f"over {i} and read inside it")
                    continue
                if early(lp.body, name):
                    yield (f"{q}|{name}", f, lp,
                           f"{name} carries a value from one iteration of the parallel loop over "
                           f"{i} into another")
                elif name in after and name not in inner_targets:
                    yield (f"{q}|{name}|after", f, lp,
                           f"{name} is set by whichever iteration of the parallel loop over {i} "
                           "comes last and read after it")
                private.add(name)
            # arrays
            stores = {}
            for n in ast.walk(ast.Module(lp.body, [])):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(
                    n, ast.AugAssign) else []
                flat = []
                for t in ts:
                    flat += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                for t in flat:
                    if not isinstance(t, (ast.Subscript, ast.Attribute)):
                        continue
                    b = base(t)
                    if b is None or b in private:
                        # a private name may be a view on shared memory
                        if b in private and view_of_shared(b, inside, private, d):
                            yield (f"{q}|{b}", f, t, f"{ast.unparse(t)} writes through a view of "
                                   "memory that other iterations use")
                        continue
                    rep.count('stores in parallel loops')
                    if not isinstance(t, ast.Subscript) or not has_own_index(t, d):
                        yield (f"{q}|{b}", f, t,
                               f"{ast.unparse(t)} is written by several iterations of the parallel "
                               f"loop over {i}")
                    stores.setdefault(b, []).append(t)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in MUTATORS:
                    b = base(n.func.value)
                    if b is not None and b not in private and not (
                            isinstance(n.func.value, ast.Subscript) and
                            has_own_index(n.func.value, d)) and b not in f.module.imports:
                        yield (f"{q}|{b}.{n.func.attr}", f, n,
                               f"{b}.{n.func.attr}() is called by every iteration of the parallel "
                               f"loop over {i}")
            for n in ast.walk(ast.Module(lp.body, [])):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stores:
                    reads_only.add(n.id)
            for b, ts in stores.items():
                first = {ast.dump(x) for t in ts for x in indices(t) if injective(x, d)}
                for n in ast.walk(ast.Module(lp.body, [])):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
                            isinstance(n.value, ast.Name) and n.value.id == b:
                        rep.count('reads of arrays written in the loop')
                        if not any(ast.dump(x) in first for x in indices(n)):
                            yield (f"{q}|{b}|read", f, n,
                                   f"{ast.unparse(n)} is read while another iteration of the "
                                   f"parallel loop over {i} may write it")
            del reads_only


def has_own_index(t, d):
    while isinstance(t, ast.Subscript):
        if any(injective(x, d) for x in indices(t)):
            return True
        t = t.value
    return False


def view_of_shared(b, inside, private, d):
    for v, s in inside[b]:
        if isinstance(v, ast.Subscript) and not isinstance(s, ast.For):
            r = base(v)
            if r is not None and r not in private and not has_own_index(v, d) and any(
                    isinstance(x, ast.Slice) for x in indices(v)):
                return True
    return False


def names_after(f, lp):
    """names read in the function after the loop without being stored first"""
    out = set()
    seen = False

    def visit(body):
        nonlocal seen
        for s in body:
            if s is lp:
                seen = True
                continue
            if seen:
                ld = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and
                      isinstance(n.ctx, ast.Load)}
                out.update(ld - stored)
                stored.update(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and
                              isinstance(n.ctx, ast.Store))
            else:
                for b in ('body', 'orelse', 'finalbody'):
                    visit(getattr(s, b, []) or [])
    stored = set()
    visit(f.body)
    return out


# --------------------------------------------------------------- threads
def is_lock_expr(p, f, e):
    t = ast.unparse(e).lower()
    if 'lock' in t or 'mutex' in t or 'semaphore' in t:
        return True
    h = f
    while h is not None and isinstance(e, ast.Name):
        for v in par.definitions(h).get(e.id, ()):
            if isinstance(v, ast.Call) and last(v.func) in ('Lock', 'RLock', 'Condition',
                                                            'Semaphore', 'BoundedSemaphore'):
                return True
        h = h.parent
    return False


def parents(node):
    m = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            m[c] = n
    return m


def locked(p, f, node, pm):
    n = node
    while n in pm and n is not f.node:
        n = pm[n]
        if isinstance(n, (ast.With, ast.AsyncWith)) and any(
                is_lock_expr(p, f, it.context_expr) for it in n.items):
            return True
        if isinstance(n, ast.Try) and n.finalbody and any(
                isinstance(x, ast.Call) and last(x.func) == 'release'
                for s in n.finalbody for x in ast.walk(s)):
            return True
    return False


def is_thread_local(f, name):
    h = f
    while h is not None:
        for v in par.definitions(h).get(name, ()):
            if isinstance(v, ast.Call) and last(v.func) == 'local':
                return True
        h = h.parent
    v = f.module.globals_.get(name)
    return bool(v) and any(isinstance(x, ast.Call) and last(x.func) == 'local' for x in v)


def private_names(p, f, shared, pm):
    """names of the worker whose value belongs to this task"""
    start = {x for x in f.all_params if x not in shared and x != f.self_name}
    for n in own(f.node):
        # reserved under the lock
        if isinstance(n, ast.Assign) and locked(p, f, n, pm):
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id in f.locals_ and t.id not in nonlocals(f):
                    start.add(t.id)
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Call, ast.Subscript)) and \
                'get_ident' in ast.unparse(n.value):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    start.add(t.id)
    return derive(f.body, start)


def nonlocals(f):
    return {x for n in own(f.node) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}


def threads(rep, p, e):
    allow = report.contract(ALLOW) if report.has_contract(ALLOW) else {}
    for t in par.tasks(p):
        if par.never(p, t):
            rep.count('dispatches switched off')
            continue
        rep.count(f'{t.kind} dispatches')
        rep.sample('dispatches', f"{t.f.where(t.call)} {t.kind} {ast.unparse(t.target)[:60]}")
        for g, shared in t.workers:
            rep.count('worker functions')
            for key, node, msg in worker(rep, p, e, g, shared, t.kind, 0, set()):
                k = f"{g.qual}|{key}"
                if k in allow:
                    rep.count('allowed with a reason')
                    continue
                yield k, g, node, f"{g.qual}, run by {t.kind}s from {t.f.qual}, {msg}"


def worker(rep, p, e, g, shared, kind, depth, seen):
    if g.qual in seen or g.qual not in e.sums:
        return
    pm = parents(g.node)
    mine = private_names(p, g, shared, pm)
    s = e.sums[g.qual]
    verb = 'may be run by two threads at once' if kind == 'thread' else \
        'is lost when the worker is another process'
    todo = []
    for loc, m in s.mut.items():
        todo.append((loc, m.chain[-1][1] if m.chain else m.node, m))
    for (loc, fld), v in s.stores.items():
        if not fld.startswith('['):
            todo.append((loc, None, fld))
    for (root, path), node, m in sorted(todo, key=lambda x: str((x[0], getattr(x[1], 'lineno', 0)))):
        if root[0] == 'P' and root[1] not in shared:
            continue
        if root[0] == 'N':
            continue
        name = str(root[1]).split(':')[-1].split('.')[-1]
        if is_thread_local(g, name):
            rep.count('writes to thread-local storage')
            continue
        if node is None:
            sites = [n for n in own(g.node) if isinstance(n, ast.Attribute) and
                     isinstance(n.ctx, ast.Store) and n.attr == m]
            if not sites:
                continue
            for n in sites:
                if not (kind == 'thread' and locked(p, g, n, pm)):
                    yield f"{name}.{m}", n, f"stores {ast.unparse(n)}, which {verb}"
            continue
        if kind == 'thread' and locked(p, g, node, pm):
            rep.count('writes under a lock')
            continue
        if kind == 'thread' and own_part(g, node, name, mine):
            rep.count("writes to the task's own part")
            continue
        yield name, node, f"writes into {name} ({m.describe()}), which {verb}"
    # rebinding of names of the enclosing function
    for n in own(g.node):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for tt in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(tt, ast.Name) and tt.id in nonlocals(g):
                    if kind == 'thread' and locked(p, g, n, pm):
                        rep.count('writes under a lock')
                        continue
                    yield tt.id, n, f"rebinds {tt.id}, which {verb}"
    if kind == 'thread':
        # what is put where others see it must not be memory this thread goes on writing
        for n in own(g.node):
            if isinstance(n, ast.Assign):
                for tt in n.targets:
                    if isinstance(tt, ast.Subscript) and base(tt) is not None and \
                            outer(g, base(tt), shared) and is_container(g, base(tt)):
                        b = reused(g, n.value, shared)
                        rep.count('values handed over')
                        if b:
                            yield (f"{base(tt)}|{b}", n,
                                   f"puts memory of {b} into {base(tt)} without a copy; the "
                                   "thread's next task writes it again")


def outer(g, name, shared):
    return (name not in g.locals_ and name not in g.all_params) or name in shared


def is_container(g, name):
    """a dictionary or list, in which the object itself is kept (an array copies it)"""
    h = g.parent
    while h is not None:
        for v in par.definitions(h).get(name, ()):
            if isinstance(v, (ast.Dict, ast.List, ast.DictComp, ast.ListComp)) or isinstance(
                    v, ast.Call) and last(v.func) in ('dict', 'list', 'defaultdict') or \
                    isinstance(v, ast.BinOp) and isinstance(v.left, ast.List):
                return True
        h = h.parent
    return False


def reused(g, e, shared, depth=0):
    """the outer buffer that e is a view of, when g itself also writes that buffer"""
    if isinstance(e, ast.Subscript):
        if isinstance(e.slice, (ast.Constant,)) and depth == 0:
            pass
        return reused(g, e.value, shared, depth + 1)
    if isinstance(e, ast.Attribute):
        if e.attr in ('T', 'flat', 'real', 'imag'):
            return reused(g, e.value, shared, depth + 1)
        b = base(e)
        return b if b is not None and is_thread_local(g, b) else None
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('reshape', 'ravel', 'view',
                                                                  'squeeze', 'transpose'):
            return reused(g, e.func.value, shared, depth + 1)
        return None
    if isinstance(e, ast.Name):
        if e.id in g.locals_ and depth < 6:
            for v in par.definitions(g).get(e.id, ()):
                r = reused(g, v, shared, depth + 1)
                if r:
                    return r
            return None
        if outer(g, e.id, shared) and buffer(g, e.id):
            return e.id
    return None


def buffer(g, name):
    h = g.parent
    while h is not None:
        for v in par.definitions(h).get(name, ()):
            if isinstance(v, ast.Call) and last(v.func) in ('empty', 'zeros', 'ones', 'full',
                                                            'empty_like', 'zeros_like'):
                return True
        h = h.parent
    return False


def own_part(g, node, root, mine):
    """is the write at node confined to a part of root picked by the task's own index?"""
    ts = []
    for n in ast.walk(node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            ts.append(n)
    if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Subscript):
        ts.append(node.target)
    if ts:
        return all(has_own_index(t, mine) or private_view(g, base(t), mine) for t in ts)
    if isinstance(node, ast.Call):
        args = list(node.args) + [k.value for k in node.keywords]
        if isinstance(node.func, ast.Attribute):
            args.append(node.func.value)
        for a in args:
            if not reaches(g, a, root):
                continue
            if not private_view(g, a, mine):
                return False
        return True
    return False


def reaches(g, e, root, depth=0):
    for n in ast.walk(e) if isinstance(e, ast.AST) else ():
        if isinstance(n, ast.Name):
            if n.id == root:
                return True
            if depth < 5 and n.id in g.locals_:
                if any(reaches(g, v, root, depth + 1)
                       for v in par.definitions(g).get(n.id, ())):
                    return True
    return False


def private_view(g, e, mine, depth=0):
    if e is None or depth > 6:
        return False
    if isinstance(e, str):
        e = ast.Name(e, ast.Load())
    if isinstance(e, ast.Subscript):
        return has_own_index(e, mine) or private_view(g, e.value, mine, depth + 1)
    if isinstance(e, ast.Attribute):
        return private_view(g, e.value, mine, depth + 1)
    if isinstance(e, ast.Name):
        if e.id in mine:
            return True
        vs = par.definitions(g).get(e.id, ())
        return bool(vs) and all(private_view(g, v, mine, depth + 1) for v in vs)
    return False


# --------------------------------------------------------------- shared readers
def adapters(rep, p, e):
    """Image series are read by several threads at once: reading may not move a shared file
    position or fill shared state outside a lock."""
    for c in sorted(p.classes.values(), key=lambda k: k.qual):
        names_ = [k.name for k in c.mro()] + list(c.external_bases())
        if not any('ImageSeriesAdapter' in x for x in names_) or c.name == 'ImageSeriesAdapter':
            continue
        todo, seen = [m for m in (c.find('methods', x) for x in ('__getitem__', '__len__'))
                      if m is not None], set()
        while todo:
            g = todo.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            rep.count('image readers')
            pm = parents(g.node)
            for n in own(g.node):
                if isinstance(n, ast.Call) and last(n.func) in ('fromfile', 'frombuffer') and \
                        n.args and of_self(g, n.args[0]) and not locked(p, g, n, pm):
                    yield (f"{c.qual}|{last(n.func)}", g, n,
                           f"{ast.unparse(n)[:60]} reads at the position of a file all threads "
                           "share, outside a lock")
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    v = n.func.value
                    if isinstance(v, ast.Name) and v.id == g.self_name:
                        h = c.find('methods', n.func.attr)
                        if h is not None and not locked(p, g, n, pm):
                            todo.append(h)
                    elif n.func.attr in ('seek', 'read', 'readinto', 'readline') and \
                            of_self(g, v) and not locked(p, g, n, pm):
                        yield (f"{c.qual}|{n.func.attr}", g, n,
                               f"{ast.unparse(n)[:60]} moves the position of a file all threads "
                               "reading this image series share, outside a lock")
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                        isinstance(n.value, ast.Name) and n.value.id == g.self_name and \
                        not locked(p, g, n, pm):
                    yield (f"{c.qual}|.{n.attr}", g, n,
                           f"reading a frame stores {ast.unparse(n)}, which threads reading the "
                           "same image series share")


def of_self(g, v):
    if isinstance(v, ast.Attribute):
        return base(v) == g.self_name
    if isinstance(v, ast.Name):
        return any(of_self(g, x) for x in par.definitions(g).get(v.id, ()))
    return False


def positive(p, f, e, depth=0):
    """False when the value can be 0: a rounded down quotient without a lower bound"""
    if depth > 4 or e is None:
        return True
    if isinstance(e, ast.Constant):
        return not (isinstance(e.value, int) and e.value < 1)
    if isinstance(e, ast.Name):
        if e.id in f.all_params:
            return all(positive(p, g, a, depth + 1) for g, a in arguments(p, f, e.id))
        return all(positive(p, f, v, depth + 1) for v in par.definitions(f).get(e.id, ()))
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, (ast.FloorDiv, ast.Mod)):
            # -(-a // b) rounds up
            return isinstance(e.left, ast.UnaryOp) and isinstance(e.left.op, ast.USub)
        if isinstance(e.op, ast.Add):
            return positive(p, f, e.left, depth + 1) or positive(p, f, e.right, depth + 1)
        if isinstance(e.op, ast.Mult):
            return positive(p, f, e.left, depth + 1) and positive(p, f, e.right, depth + 1)
        return True
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
        return positive(p, f, e.values[-1], depth + 1)
    if isinstance(e, ast.IfExp):
        if positive(p, f, e.body, depth + 1) and positive(p, f, e.orelse, depth + 1):
            return True
        # x if x > 0 else 1
        t = ast.unparse(e.test)
        return ast.unparse(e.body) in t or ast.unparse(e.orelse) in t
    if isinstance(e, ast.Call):
        n = par.last(e.func)
        if n == 'max':
            return any(positive(p, f, a, depth + 1) for a in e.args)
        if n == 'min':
            return all(positive(p, f, a, depth + 1) for a in e.args)
        if n in ('int', 'floor', 'round') and e.args:
            a = e.args[0]
            return not (isinstance(a, ast.BinOp) and isinstance(a.op, ast.Div)) and positive(
                p, f, a, depth + 1)
        g = p.resolve(e.func, f.module, f, None)
        if g is not None and hasattr(g, 'all_params'):
            return all(positive(p, g, n.value, depth + 1) for n in par.own(g.node)
                       if isinstance(n, ast.Return) and n.value is not None)
    return True


def arguments(p, f, name):
    """what the calls inside the module give this parameter of a function"""
    i = f.params.index(name) if name in f.params else None
    for g in p.functions.values():
        if g.module is not f.module or g.is_lambda:
            continue
        for n in par.own(g.node):
            if isinstance(n, ast.Call) and par.last(n.func) == f.name:
                k = i - 1 if i is not None and f.is_method and isinstance(
                    n.func, ast.Attribute) else i
                if k is not None and k < len(n.args):
                    yield g, n.args[k]
                for w in n.keywords:
                    if w.arg == name:
                        yield g, w.value


def chunks(rep, p):
    """Pool.map with a chunk size of 0 hands out no work and returns None for every task"""
    for t in par.tasks(p):
        for k in t.call.keywords:
            if k.arg == 'chunksize':
                rep.count('chunk sizes')
                if not positive(p, t.f, k.value):
                    yield (t.f.qual, t.f, t.call,
                           f"{t.f.qual}: the chunk size {ast.unparse(k.value)} is 0 when there are "
                           f"fewer tasks than workers; {t.how} then runs nothing and returns None "
                           "for every task")


def check(rep):
    rep.rule('chunk', 'the chunk size given to a pool is at least 1 however many tasks and '
             'workers there are')
    rep.rule('loop', 'in a numba parallel loop every array is written at an index built from the '
             'loop variable, is not read at another, and no scalar carries over between '
             'iterations except a pure reduction')
    rep.rule('worker', 'a function run by a thread pool writes only to its own task, to '
             'thread-local storage, to a part of shared storage picked by its own task index, or '
             'under a lock; one run in another process does not write into what it was handed')
    rep.rule('reader', 'reading a frame of an image series moves no shared file position and '
             'stores nothing on the shared object outside a lock')
    p, e = a01.analyse()
    for key, f, n, msg in prange(rep, p):
        rep.finding('loop', key, f.where(n), f"{f.qual}: {msg}")
    for key, f, n, msg in threads(rep, p, e):
        rep.finding('worker', key, f.where(n), msg)
    for key, f, n, msg in adapters(rep, p, e):
        rep.finding('reader', key, f.where(n), msg)
    for key, f, n, msg in chunks(rep, p):
        rep.finding('chunk', key, f.where(n), msg)
    rep.need('chunk sizes', 3)
    rep.need('parallel loops', 12)
    rep.need('stores in parallel loops', 12)
    rep.need('thread dispatches', 4)
    rep.need('process dispatches', 7)
    rep.need('worker functions', 11)
    rep.need('image readers', 8)
    rep.assumptions.append('an index built from the loop or task index by +, -, * and without '
                           'modulo or floor division differs between iterations')
