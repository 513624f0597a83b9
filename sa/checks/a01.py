"""A01: caller data is never modified by operations that do not advertise it."""
import ast

from .. import project, effects, report
from ..project import AnalysisError

API = 'a01_api.json'
OUT = 'a01_outputs.json'

DATA_ONLY = lambda path: all(x.startswith('[') for x in path)


def api_func(f):
    return f.public and '<locals>' not in f.qual and not f.is_lambda


def collect(p, e):
    """(writes, state, stored)
    writes: (func, param) -> Mut       data handed in is written
    state:  func -> {(param, attr): Mut}   containers held by an object handed in
    stored: (class, attr) -> (store func, param, mutating func, Mut)
    """
    writes, state = {}, {}
    for q, s in e.sums.items():
        f = p.functions[q]
        if not api_func(f):
            continue
        for (root, path), m in sorted(s.mut.items(), key=str):
            if root[0] != 'P':
                continue
            if m.kind.startswith('attribute'):
                continue
            if DATA_ONLY(path) and root[1] != f.self_name:
                k = (q, root[1])
                if k not in writes or (writes[k].soft and not m.soft):
                    writes[k] = m
            elif not DATA_ONLY(path):
                at = next(x for x in path if not x.startswith('['))
                state.setdefault(q, {}).setdefault((root[1], at), m)
    stores, muts = {}, {}
    for q, s in e.sums.items():
        f = p.functions[q]
        if f.cls is None:
            continue
        if f.public:
            for (loc, fld), v in s.stores.items():
                if loc == (('P', f.self_name), ()):
                    for l in effects.flat(v).locs:
                        if l[0][0] == 'P' and l[0][1] != f.self_name and DATA_ONLY(l[1]):
                            stores.setdefault((f.cls.qual, fld), {}).setdefault(
                                (q, l[0][1]), None)
        for (root, path), m in s.mut.items():
            if root == ('P', f.self_name) and path and not m.kind.startswith('attribute') \
                    and DATA_ONLY(path[1:]):
                muts.setdefault((f.cls.qual, path[0]), {})[q] = m
    other = {}                 # attribute -> mutations of it on an object that is not self
    for q, s in e.sums.items():
        f = p.functions[q]
        for (root, path), m in s.mut.items():
            if root[0] not in ('P', 'F') or '<- called' in m.describe() or m.kind.startswith('attribute'):
                continue
            at = [i for i, x in enumerate(path) if not x.startswith('[')]
            if at and DATA_ONLY(path[at[-1] + 1:]) and not (
                    root == ('P', f.self_name) and at == [0]):
                k = path[at[-1]]
                if k not in other or m.where() < other[k][1].where():
                    other[k] = (q, m)
    stored = {}
    for (cq, at), st in stores.items():
        c = p.classes[cq]
        for (cq2, at2), mm in muts.items():
            if at2 != at:
                continue
            c2 = p.classes[cq2]
            if c in c2.mro() or c2 in c.mro():
                for (q, par) in st:
                    for mq, m in sorted(mm.items()):
                        stored.setdefault((q, par, at), (mq, m))
        names = [at] + getters(c, at)
        for k in names:
            if k in other and any(isinstance(n, ast.Attribute) and n.attr in names
                                  for n in ast.walk(other[k][1].node)) and owners(p, e, c, at):
                for (q, par) in st:
                    stored.setdefault((q, par, at), other[k])
    return writes, state, stored


def owners(p, e, c, at):
    """few unrelated classes keep something under this name"""
    if not hasattr(e, 'owners'):
        e.owners = {}
        for q, s in e.sums.items():
            f = p.functions[q]
            if f.cls is not None:
                for (loc, fld) in s.stores:
                    if loc == (('P', f.self_name), ()):
                        e.owners.setdefault(fld, set()).add(f.cls)
    return len([k for k in e.owners.get(at, ()) if not set(k.mro()) & set(c.mro())]) < 3


def getters(c, at):
    """properties of the class that hand out the attribute itself"""
    out = []
    for k in c.mro():
        for n in k.node.body:
            if isinstance(n, ast.FunctionDef) and n.args.args and any(
                    isinstance(d, ast.Name) and d.id == 'property' for d in n.decorator_list):
                for r in ast.walk(n):
                    if isinstance(r, ast.Return) and isinstance(r.value, ast.Attribute) and \
                            r.value.attr == at and isinstance(r.value.value, ast.Name) and \
                            r.value.value.id == n.args.args[0].arg:
                        out.append(n.name)
    return out


def analyse(infer=True):
    p = project.load()
    e = effects.run(p, infer)
    if not e.converged and e.open_work > 60:
        raise AnalysisError('the effect summaries did not reach a fixpoint')
    return p, e


def write_contract(rep):
    p, e = analyse()
    writes, state, stored = collect(p, e)
    api = {}
    for q, f in sorted(p.functions.items()):
        if api_func(f):
            api[q] = sorted({f"{a}.{b}" for a, b in state.get(q, {})})
    report.write_contract(API, {
        'functions': api,
        'stored': sorted('|'.join(k) for k in stored)})
    print(len(api), 'functions', len(writes), 'writes')
    out = report.contract(OUT) if report.has_contract(OUT) else {}
    for k, m in sorted(writes.items()):
        kk = '|'.join(k)
        if kk not in out:
            print('unexplained', kk, m.describe())


def check(rep):
    rep.rule('write', 'no function of the public interface writes (element assignment, in-place '
             'operator, mutating method, out= argument, directly or through any chain of project '
             'calls) into memory that may be shared with an array, list, dict or set passed by its '
             'caller, unless the parameter is listed as an output')
    rep.rule('query', 'functions that leave the containers held by the objects they are given '
             '(self included) unmodified keep doing so')
    rep.rule('stored', 'an array or container kept by an object without a copy is not written '
             'later by a method of that object')
    p, e = analyse()
    con = report.contract(API)
    outs = report.contract(OUT)
    writes, state, stored = collect(p, e)
    present = [q for q in con['functions'] if q in p.functions]
    rep.count('functions analysed', len(p.functions))
    rep.count('public functions under obligation', len(present))
    if len(present) < 0.9 * len(con['functions']):
        raise AnalysisError(f"{len(con['functions']) - len(present)} functions of the public "
                            'interface are gone')
    rep.count('parameters under obligation', sum(
        len([x for x in p.functions[q].all_params if x != p.functions[q].self_name])
        for q in present))
    rep.count('call sites resolved', sum(len(v) for v in e.deps.values()))
    inapi = set(present)
    for (q, par), m in sorted(writes.items()):
        if q not in inapi:
            continue
        rep.count('writes into parameters found')
        key = f"{q}|{par}"
        if key in outs:
            rep.count('of these: documented outputs or explained')
            continue
        rep.finding('write', key, m.where(),
                    f"{q} writes into its caller's data through parameter '{par}': {m.describe()}")
    for q in present:
        allowed = con['functions'][q]
        if allowed:
            continue
        rep.count('query functions under obligation')
        for (par, at), m in state.get(q, {}).items():
            rep.finding('query', f"{q}|{par}.{at}", m.where(),
                        f"{q} modifies {par}.{at} in place: {m.describe()}")
    base = set(con['stored'])
    for (q, par, at), (mq, m) in sorted(stored.items(), key=str):
        rep.count('stored-then-written pairs found')
        if '|'.join((q, par, at)) in base or q not in inapi:
            continue
        rep.finding('stored', f"{q}|{par}|{at}", m.where(),
                    f"{q} keeps its argument '{par}' as .{at} without a copy and {mq} writes into "
                    f"it: {m.describe()}")
    rep.assumptions.append('calls into libraries follow the alias/effect table in sa/libmodel.py; '
                           'a call that cannot be resolved does not write into its arguments')
