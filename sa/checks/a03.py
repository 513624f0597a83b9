"""A03: derived state follows the inputs it was computed from."""
import ast
from .. import depcheck, deps, must, report

S = '\x1f'


def check(rep):
    rep.rule('stored', 'everything a method or setter stores on its object today, as recorded in '
             'contracts/dependences.jsonl, is still stored, on every path if it was stored on '
             'every path, and from the same inputs')
    rep.rule('cached', 'an attribute that a method computes only when it is missing is stored or '
             'discarded by every method that stores an attribute it was computed from')
    rep.rule('always', 'a method that changes its object calls on every successful path each '
             'updating function that it calls on every successful path today '
             '(contracts/always.json)')
    c = depcheck.Checker(rep)
    n = 0
    for q in sorted(c.con):
        rec = c.con[q]
        f = c.current(q)
        if f is None or not any(k.startswith('self/') for k in rec.get('w', ())):
            continue
        n += 1
        for f, w, a, k in c.writes(q):
            if not w.startswith('self/'):
                continue
            if k in ('write', 'must'):
                rep.finding('stored', f"{q}|{w}|{a}", f.where(),
                            f"{w.replace('/', '.')} {a} by {q}")
            else:
                rep.finding('stored', f"{q}|{w}|{a}", f.where(),
                            f"{w.replace('/', '.')} stored by {q} no longer follows "
                            f"{a.replace('/', '.')} ({k})")
    rep.count('methods under contract', n)
    for key, f, x, why in cached(rep, c):
        rep.finding('cached', key, f.where(), why)
    for key, f, why in always(rep, c):
        rep.finding('always', key, f.where(), why)
    rep.need('calls made on every path', 600)
    rep.need('methods under contract', 500)
    rep.need('written quantities compared', 2000)
    rep.need('lazily computed attributes', 3)


def missing_tests(f):
    """attributes X with a test in f for self.X being absent: is None, not self.X, hasattr."""
    out = {}
    sn = f.self_name

    def is_x(e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == sn:
            return e.attr
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id in ('hasattr', 'getattr') and len(e.args) > 1 and \
                isinstance(e.args[0], ast.Name) and e.args[0].id == sn and \
                isinstance(e.args[1], ast.Constant):
            return e.args[1].value
        return None

    def tests(t):
        if isinstance(t, ast.BoolOp):
            for v in t.values:
                tests(v)
            return
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            tests(t.operand)
            return
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.ops[0], (ast.Is, ast.IsNot)) and isinstance(t.comparators[0], ast.Constant) \
                and t.comparators[0].value is None:
            t = t.left
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.ops[0], (ast.In, ast.NotIn)):
            t = t.comparators[0]
            if isinstance(t, ast.Attribute) and t.attr == '__dict__':
                return
        x = is_x(t)
        if x:
            out[x] = min(t.lineno, out.get(x, t.lineno))
    named = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            named.setdefault(n.targets[0].id, []).append(n.value)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.If, ast.IfExp)):
            tests(n.test)
            for m in ast.walk(n.test):
                if isinstance(m, ast.Name):
                    for v in named.get(m.id, ()):
                        tests(v)
    return out


def own_stores(f):
    out = {}
    for n in ast.walk(f.node):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(
            n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None else []
        for t in ts:
            for m in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                b = m
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and \
                        b.value.id == f.self_name:
                    out[b.attr] = min(n.lineno, out.get(b.attr, n.lineno))
    return out


def cached(rep, c):
    eng, p = c.eng, c.p
    meths = {}
    for f in p.functions.values():
        if f.cls is not None and f.self_name and f.parent is None:
            meths.setdefault(f.cls.qual, []).append(f)
    lazy = {}
    for q in sorted(eng.sums):
        f = p.functions[q]
        if f.cls is None or not f.self_name or f.name in ('__init__', '__del__') or \
                f.kind == 'setter' or f.parent is not None:
            continue
        xs = missing_tests(f)
        if not xs:
            continue
        s = eng.sums[q]
        # read back by the same method (or a getter that calls it)
        for k, v in s.writes.items():
            r, *path = k.split(S)
            if r != f.self_name or len(path) != 1 or path[0] not in xs:
                continue
            x = path[0]
            v = deps.flat(v)
            strict = c.strict.sums[q].writes.get(k)
            if strict is None:
                continue
            sv = deps.flat(strict)
            ins = {a.split(S)[1] for a in sv.d if a.startswith(f.self_name + S)} - {x}
            params = {a for a in sv.d if a.split(S)[0] in f.all_params and
                      a.split(S)[0] != f.self_name}
            stored = own_stores(f)
            # the test comes before the store: a value already there is kept
            if params or not ins or x not in stored or stored[x] < xs[x]:
                continue
            lazy[(f.cls.qual, x)] = (f, ins)
    rep.count('lazily computed attributes', len(lazy))
    for (cq, x), (f, ins) in sorted(lazy.items()):
        base = set()
        for a in ins:
            base |= c.cm.expand(a) | {a}
        base = {b.lstrip('_') for b in base} - {x.lstrip('_')}
        cls = p.classes[cq]
        for k in [cls] + list(cls.all_subclasses()) + list(cls.mro()):
            for g in meths.get(k.qual, ()):
                if g is f or g.name in ('__init__', '__setstate__', '__del__'):
                    continue
                if g.qual not in c.con:
                    continue           # split off from one of the others
                st = {a for a in own_stores(g) if a.lstrip('_') in base}
                # computed and stored by the lazy method itself
                st -= set(own_stores(f))
                # g itself only fills in a missing value
                st -= set(missing_tests(g))
                if not st:
                    continue
                rep.count('writers of their inputs')
                w = eng.sums[g.qual].writes
                if any(y.split(S)[1:2] == [x] for y in w if y.startswith(g.self_name + S)):
                    continue
                a = sorted(st)[0]
                yield (f"{cq}|{x}|{g.qual}|{a}", g, x,
                       f"{g.qual} stores {a} but neither recomputes nor discards {x}, which "
                       f"{f.name} computed from it and keeps")


def updating(c, q):
    return bool(c.eng.sums[q].writes) and c.p.functions[q].name != '__init__'


def always(rep, c):
    m = must.Must(c.eng)
    for q, gs in sorted(report.contract('always.json').items()):
        f = c.current(q)
        if f is None:
            continue
        have, may = m.of(f.qual), m.may(f.qual)
        if have is must.TOP:
            continue
        for g in gs:
            g2 = c.current(g) if g in c.con else c.p.functions.get(g)
            if g2 is None:
                continue
            rep.count('calls made on every path')
            # no call at all: the callee was merged in, or the rule 'stored' reports the loss
            if g2.qual in may and g2.qual not in have:
                yield (f"{q}|{g}", f, f"{q} no longer calls {g} on every successful path")


def write_contract(rep):
    c = depcheck.Checker(rep)
    m = must.Must(c.eng)
    out = {}
    for q in sorted(c.con):
        f = c.current(q)
        if f is None or not c.eng.sums[f.qual].writes:
            continue
        gs = sorted(g for g in m.of(f.qual) or () if g in c.con and updating(c, g))
        if gs:
            out[q] = gs
    report.write_contract('always.json', out)
    print(len(out), 'functions', sum(map(len, out.values())), 'calls')
