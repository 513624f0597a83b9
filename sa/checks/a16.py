"""A16: invalid requests and failures are reported, never swallowed."""
import ast
import json
import os

from .. import depcheck, deps, guards, par, report

CON = 'guards.jsonl'
UNSTABLE = 'guards_unstable.json'


def path(n):
    return os.path.join(report.HERE, 'contracts', n)


def load():
    with open(path(CON)) as fh:
        return {r['q']: r for r in map(json.loads, fh)}


def roots(f, v):
    """what decides the exception: parameters and attributes of self."""
    out = set()
    for a in depcheck.norm(f, v.d | v.c):
        r, *p = a.split(deps.__dict__.get('SEP', '\x1f'))
        if r.startswith('~'):
            continue
        out.add('/'.join([r] + p[:1]) if r == 'self' else r)
    out.discard('self')
    return out


def state(c):
    """per function: own raises, their literals and deciding inputs; what escapes from calls."""
    recs = {}
    for q in sorted(c.eng.sums):
        f = c.p.functions[q]
        if f.is_lambda or '<lambda' in q:
            continue
        s = c.eng.sums[q]
        st = c.strict.sums[q]
        own = {}
        for e, clauses, ctx, node in guards.raises(c.p, f):
            if e not in s.own:
                continue               # caught again in this function
            o = own.setdefault(e, [[], []])
            for cl in clauses:
                x = [sorted(list(l) for l in cl), sorted(list(l) for l in ctx - cl)]
                if x not in o[0]:
                    o[0].append(x)
        for e, o in own.items():
            o[1] = sorted(roots(f, s.own[e]))
            o[0].sort()
        esc = sorted(set(st.raises) - set(own))
        look = sorted(lookups(c.p, f))
        sw = swallows(f)
        if own or esc or look or sw:
            recs[q] = {'q': q, 'p': f.all_params, 'own': own, 'esc': esc, 'look': look, 'sw': sw}
    return recs


def lookups(p, f):
    """module- or class-level dictionaries indexed with a key that is not a constant."""
    out = set()
    imps = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
                not isinstance(n.slice, (ast.Constant, ast.Slice, ast.Tuple, ast.UnaryOp)):
            k = table(p, f, n.value)
            if k:
                out.add(k)
    return out


def table(p, f, e):
    name = None
    if isinstance(e, ast.Name) and e.id not in f.locals_ and e.id not in f.all_params:
        name = e.id
    elif isinstance(e, ast.Attribute):
        name = e.attr
    if name is None:
        return None
    if isinstance(e, ast.Name):
        vs = f.module.globals_.get(name)
        if vs and any(isinstance(v, (ast.Dict, ast.DictComp)) or (
                isinstance(v, ast.Call) and deps.exc_name(v) == 'dict') for v in vs):
            return name
        return None
    if isinstance(e.value, ast.Name) and f.self_name == e.value.id and f.cls is not None:
        for k in f.cls.mro():
            for s in k.node.body:
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Dict) and any(
                        isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return name
    return None


def swallows(f):
    """handlers that end without raising: [exception names, how many]."""
    out = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if not any(isinstance(x, ast.Raise) for x in ast.walk(h)) and not passed_on(h):
                    k = ','.join(sorted(deps.handler_names(h)))
                    out[k] = out.get(k, 0) + 1
        elif isinstance(n, ast.With):
            for it in n.items:
                if isinstance(it.context_expr, ast.Call) and \
                        deps.exc_name(it.context_expr) == 'suppress':
                    k = ','.join(sorted(deps.exc_name(a) for a in it.context_expr.args))
                    out[k] = out.get(k, 0) + 1
    return out


def passed_on(h):
    """does the handler put the exception itself on a queue, in a list or in a future?"""
    for n in ast.walk(h):
        if h.name and isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('put', 'put_nowait', 'append', 'set_exception', 'send'):
            for a in n.args:
                if any(isinstance(x, ast.Name) and x.id == h.name
                       for x in (a.elts if isinstance(a, (ast.Tuple, ast.List)) else [a])):
                    return True
    return False


def walk_own(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def helpers(c, con, f, seen=None):
    """f and the functions it calls (or contains) that the contract does not know."""
    seen = seen or set()
    out = [f]
    seen.add(f.qual)
    for cq in list(c.eng.sums[f.qual].bounds) + [h.qual for h in f.nested.values()]:
        g = c.p.functions.get(cq)
        if g is None or cq in seen or cq in con or cq in c.con:
            continue
        out += helpers(c, con, g, seen)
    return out


def compare(rep, c, con):
    byname = {}
    for q, rec in con.items():
        for k, n in rec['sw'].items():
            key = (q.split(':')[0], k)
            byname[key] = byname.get(key, 0) + n
    now_mod = {}
    for q, f in c.p.functions.items():
        if f.is_lambda:
            continue
        for k, n in swallows(f).items():
            key = (q.split(':')[0], k)
            now_mod[key] = now_mod.get(key, 0) + n
    for q in sorted(c.con):
        f = c.current(q)
        if f is None:
            continue
        rec = con.get(q, {'own': {}, 'esc': [], 'look': [], 'sw': {}, 'p': f.all_params})
        rep.count('functions examined')
        s = c.eng.sums[f.qual]
        ren = c.rename(f, rec['p'])
        hs = None
        for e, (clauses, atoms) in sorted(rec['own'].items()):
            rep.count('guards')
            hs = hs or helpers(c, con, f)
            cur = []
            for g in hs:
                for e2, l2, ctx, node in guards.raises(c.p, g, c.con):
                    cur.append((e2, l2, g is not f))
            mine = [x for x in cur if x[0] == e] or [
                x for x in cur if deps.catches(c.p, f, e, x[0])]
            if e not in s.raises and not any(deps.catches(c.p, f, e, x) for x in s.raises):
                yield ('guard', f"{q}|{e}", f, f"{q} no longer raises {e}")
                continue
            for cl, ctx in clauses:
                rep.count('conditions compared')
                if not any(guards.implied(cl, ctx, h, new) for _, l2, new in mine for h in l2):
                    t = ' and '.join(text(x) for x in cl)
                    yield ('condition', f"{q}|{e}|{t}", f,
                           f"{q} no longer raises {e} whenever '{t}'")
            have = set()
            for x in s.raises:
                if x == e or deps.catches(c.p, f, e, x):
                    have |= {a.replace('\x1f', '/') for a in depcheck.norm(
                        f, s.raises[x].d | s.raises[x].c)}
            for a in atoms:
                w = c.want(a, ren)
                if w is not None and not c.cm.covers(w, have):
                    yield ('decides', f"{q}|{e}|{a}", f,
                           f"{e} raised by {q} no longer depends on {a.replace('/', '.')}")
            # conditions added on top: the check now applies only in some cases
            st = c.strict.sums[f.qual]
            if e in st.own:
                for a in sorted(roots(f, st.own[e])):
                    r = a.split('/')[0]
                    if a not in atoms and (r == 'self' or r in rec['p']) and not any(
                            c.cm.covers(b, {a}) for b in atoms) and a != 'self':
                        yield ('narrowed', f"{q}|{e}|{a}", f,
                               f"{e} raised by {q} now also depends on {a.replace('/', '.')}")
        for e in rec['esc']:
            rep.count('propagated errors')
            if e not in s.raises and not any(deps.catches(c.p, f, e, x) for x in s.raises):
                yield ('propagates', f"{q}|{e}", f,
                       f"{e} raised in a function called by {q} no longer reaches its caller")
        for k in rec['look']:
            rep.count('table lookups')
            hs = hs or helpers(c, con, f)
            if any(k in lookups(c.p, g) for g in hs):
                continue
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                   n.func.attr in ('get', 'pop', 'setdefault') and
                   table(c.p, g, n.func.value) == k
                   for g in hs for n in ast.walk(g.node)):
                yield ('lookup', f"{q}|{k}", f,
                       f"{q} no longer fails on a key that {k} does not have")
        for k, n in sorted(swallows(f).items()):
            rep.count('handlers that end without raising')
            if n > rec['sw'].get(k, 0):
                m = q.split(':')[0]
                if now_mod.get((m, k), 0) > byname.get((m, k), 0):
                    yield ('swallow', f"{q}|{k}", f,
                           f"{q} has a new handler that swallows {k}")


def text(l):
    return (f"{l[1]} {l[0]} {l[2]}" if l[2] and l[0] not in ('true', 'false') else
            f"{l[1]} is {l[0]}").replace('p:', '')


def lost_errors(rep, p):
    """an error inside a worker only surfaces where the result of the dispatch is taken"""
    for t in par.tasks(p):
        rep.count('dispatches to workers')
        f, n = t.f, t.call
        if t.how in ('Thread', 'Process'):
            if not t.workers or not all(hands_over(g) for g, _ in t.workers):
                yield t, 'an error in the target function ends the worker silently'
            continue
        pool = executor(f, n)
        if t.how == 'map' and not pool or t.how in ('apply', 'starmap'):
            continue            # multiprocessing raises at the call
        root, up = f, {c: m for m in ast.walk(f.node) for c in ast.iter_child_nodes(m)}
        m = up.get(n)
        if isinstance(m, ast.Expr):
            yield t, f'the result of {t.how} is dropped, and with it every error of a worker'
            continue
        if isinstance(m, (ast.Assign, ast.NamedExpr)):
            ts = m.targets if isinstance(m, ast.Assign) else [m.target]
            names = {x.id for x in ts if isinstance(x, ast.Name)}
            while root.parent is not None:
                root = root.parent
            if names and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and
                                 x.id in names for x in ast.walk(root.node)):
                yield t, (f'the result of {t.how} is never taken, and with it every error of a '
                          'worker')
                continue
        if t.how in ('submit', 'apply_async', 'map_async') and not takes(p, f, 0):
            yield t, f'no result of {t.how} is asked for, so an error of a worker is lost'


def hands_over(g):
    """does a handler of the function pass the exception it caught on?"""
    return any(isinstance(n, ast.ExceptHandler) and passed_on(n) for n in ast.walk(g.node))


def executor(f, n):
    """is the pool a concurrent.futures executor, whose map raises only when consumed?"""
    g, d = f, {}
    while g is not None:
        d = {**par.definitions(g), **d}
        g = g.parent
    todo, seen = [n.func.value], set()
    while todo:
        e = todo.pop()
        for x in ast.walk(e):
            if isinstance(x, ast.Call) and par.last(x.func).endswith('Executor'):
                return True
            if isinstance(x, ast.Name) and x.id not in seen:
                seen.add(x.id)
                todo += d.get(x.id, ())
    return False


def takes(p, f, depth):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ('result', 'get', 'exception'):
            return True
    if depth < 2:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                g = p.resolve(n.func, f.module, f, None)
                if g is not None and hasattr(g, 'all_params') and g.module is f.module and \
                        takes(p, g, depth + 1):
                    return True
    # handed to the caller, who takes them
    return any(isinstance(n, ast.Return) and n.value is not None for n in par.own(f.node))


def check(rep):
    rep.rule('worker', 'the result of every dispatch to a worker is taken, so that an error in the '
             'worker surfaces')
    rep.rule('guard', 'every raise or assert that a function has today can still be reached from it')
    rep.rule('condition', 'under the same comparisons')
    rep.rule('decides', 'decided by the same inputs')
    rep.rule('narrowed', 'and by no further ones')
    rep.rule('propagates', 'an exception raised in a callee leaves the function as it does today')
    rep.rule('lookup', 'a table of choices is still indexed, not searched with a default')
    rep.rule('swallow', 'no new handler ends without raising')
    c = depcheck.Checker(rep)
    con = load()
    for rule, key, f, msg in compare(rep, c, con):
        rep.finding(rule, key, f.where(), msg)
    for t, msg in lost_errors(rep, c.p):
        rep.finding('worker', t.f.qual, t.f.where(t.call), f"{t.f.qual}: {msg}")
    rep.need('dispatches to workers', 10)
    rep.need('guards', 350)
    rep.need('propagated errors', 500)


def write_contract(rep):
    c = depcheck.Checker(rep)
    recs = state(c)
    drop = set()
    if os.path.exists(path(UNSTABLE)):
        with open(path(UNSTABLE)) as fh:
            drop = {tuple(x) for x in json.load(fh)}
    drop |= {(r, k) for r, k, f, m in compare(report.Report('A16', 'quick', 1), c, recs)}
    n = 0
    for rule, key in sorted(drop):
        q, *rest = key.split('|')
        if q not in recs:
            continue
        r = recs[q]
        n += 1
        if rule == 'condition':
            e, l = rest[0], '|'.join(rest[1:])
            o = r['own'].get(e)
            if o:
                o[0] = [x for x in o[0] if ' and '.join(text(y) for y in x[0]) != l]
        elif rule == 'decides':
            o = r['own'].get(rest[0])
            if o and rest[1] in o[1]:
                o[1].remove(rest[1])
        elif rule == 'narrowed':
            o = r['own'].get(rest[0])
            if o:
                o[1].append(rest[1])
        elif rule == 'propagates' and rest[0] in r['esc']:
            r['esc'].remove(rest[0])
        elif rule == 'guard':
            r['own'].pop(rest[0], None)
    with open(path(CON), 'w') as fh:
        for q in sorted(recs):
            fh.write(json.dumps(recs[q], sort_keys=True, separators=(',', ':')) + '\n')
    print(len(recs), 'functions,', n, 'entries adjusted')
