"""A15: legacy import paths, declared data files and entry points."""
import ast
import os
from .. import report
from ..project import AnalysisError, Class, Func, Module, load

TABLE = 'hexrd/file_table.tsv'
MAP = 'hexrd.module_map'


def module_of(path):
    t = path[:-3] if path.endswith('.py') else path
    t = t.removesuffix('/__init__')
    return t.replace('/', '.')


def read_table(p):
    path = os.path.join(p.root, *TABLE.split('/'))
    if not os.path.exists(path):
        raise AnalysisError(f"anchor vanished: {TABLE}")
    rows = {}
    with open(path) as fh:
        for line in fh:
            kv = line.strip().split()
            if len(kv) == 2:
                rows.setdefault(kv[0], []).append(kv[1])
    out = {}
    for old, new in rows.items():
        base = old.rsplit('/', 1)[-1]
        if 'hexrd' not in old.split('/') or not (old.endswith('.py') or '.' not in base):
            continue
        if '\\' in old or base == 'Makefile':
            continue                      # not a Python module
        sel = next((x for x in new if 'core' in x.split('/')), new[0])
        out[module_of(old)] = (sel, new)
    return out


def bound(p, m, seen=()):
    """names bound at the top level of a module, with star imports and submodules"""
    s = set(m.functions) | set(m.classes) | set(m.globals_) | set(m.imports)
    for st in m.star_imports:
        sm = p.modules.get(st)
        if sm is not None and sm.name not in seen:
            s |= bound(p, sm, tuple(seen) + (m.name,))
    if m.is_pkg:
        pre = m.name + '.'
        s |= {x[len(pre):] for x in list(p.modules) + list(p.unparsed)
              if x.startswith(pre) and '.' not in x[len(pre):]}
    return s


def own(p, m):
    """public names a user may ask the module for: what it defines, and for a package
    also what it re-exports from this project"""
    s = set(m.functions) | set(m.classes) | set(m.globals_)
    if m.is_pkg:
        s |= {n for n, d in m.imports.items() if d.split('.')[0] == p.package}
    for a in m.globals_.get('__all__', []):
        if isinstance(a, (ast.List, ast.Tuple)):
            s |= {e.value for e in a.elts if isinstance(e, ast.Constant)}
    return {n for n in s if not n.startswith('_')}


def live(p, old, sel, new):
    """modules reached through the old name: the selected target, and the other targets
    whose names the importer adds to it"""
    mods = []
    for t in [sel] + [x for x in new if x != sel]:
        m = p.modules.get(module_of(t))
        if m is not None:
            mods.append(m)
    return mods


def exists(p, t):
    full = os.path.join(p.root, t)
    if t.endswith('/__init__.py') and os.path.isdir(os.path.dirname(full)):
        return True                       # a namespace package
    return os.path.exists(full)


def public_map(p):
    table = read_table(p)
    out = {}
    for old, (sel, new) in sorted(table.items()):
        names = set()
        for m in live(p, old, sel, new):
            names |= own(p, m) & bound(p, m)
        out[old] = sorted(names)
    return out


def contains(node, pred):
    return any(pred(n) for n in ast.walk(node))


def const(n, v):
    return isinstance(n, ast.Constant) and n.value == v


def resources(p):
    """(function or module, directory module, file name, node) for every resource lookup"""
    out = []

    def scope_nodes():
        for m in p.modules.values():
            yield m, None, m.tree
    for m, _, tree in scope_nodes():
        parent = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                parent[c] = n
        funcs = {f.node: f for f in p.functions.values() if f.module is m and not f.is_lambda}
        for n in ast.walk(tree):
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
            f, q = None, n
            while q in parent:
                q = parent[q]
                if q in funcs:
                    f = funcs[q]
                    break
            d = p.dotted(fn, m, f)
            if nm != 'files' or d is None or not d.endswith('resources.files') or not n.args:
                continue
            target = p.dotted(n.args[0], m, f)
            if target is None and isinstance(n.args[0], ast.Constant):
                target = n.args[0].value
            # the pieces joined to it in the same expression
            parts, q = [], n
            while q in parent:
                up = parent[q]
                if isinstance(up, ast.BinOp) and isinstance(up.op, ast.Div) and up.left is q:
                    parts.append(up.right)
                elif isinstance(up, ast.Attribute) and up.attr == 'joinpath' and \
                        isinstance(parent.get(up), ast.Call):
                    up = parent[up]
                    parts.extend(up.args)
                else:
                    break
                q = up
            out.append((f, m, target, parts, n))
    return out


def check(rep):
    rep.rule('target', 'every module listed in the compatibility table resolves, through the choice '
             'the importer makes (the core target, else the first), to a module that exists')
    rep.rule('name', 'every public name that an old module path offers on the recorded tree is still '
             'bound in the module(s) the path is mapped to')
    rep.rule('alias', 'the alias modules and the import hook are installed when the package is '
             'imported')
    rep.rule('data', 'every declared package-data file, every resource file named in the code and '
             'every console entry point exists')
    p = load()
    table = read_table(p)
    for old, (sel, new) in sorted(table.items()):
        rep.count('legacy module paths')
        if not exists(p, sel):
            rep.finding('target', old, TABLE, f"{old} is mapped to {sel}, which does not exist")
    want = report.contract('a15_names.json')
    for old, names in sorted(want.items()):
        if old in table:
            mods = live(p, old, *table[old])
            if not mods and not names:
                continue
        else:
            m = p.modules.get(old)
            if m is None and old in p.unparsed:
                continue
            if m is None:
                if names or old not in ABSENT:
                    rep.finding('name', f"{old}", TABLE,
                                f"the old path {old} is no longer mapped and is not a module")
                continue
            mods = [m]
        have = set()
        for m in mods:
            have |= bound(p, m)
            if '__getattr__' in m.functions:
                have |= set(names)
        for n in names:
            rep.count('legacy names')
            if n not in have:
                rep.finding('name', f"{old}.{n}", mods[0].relpath if mods else TABLE,
                            f"{old}.{n} resolved before; {n} is not bound in "
                            f"{', '.join(m.name for m in mods) or 'any module'}")
    aliases(p, rep)
    importer(p, rep)
    setup_files(p, rep)
    for f, m, target, parts, node in resources(p):
        where = f.where(node) if f else f"{m.relpath}:{node.lineno}"
        rep.count('resource lookups')
        mod = p.lookup(target) if target else None
        if not isinstance(mod, Module) and target:
            from .a13 import legacy
            mod = p.modules.get(legacy(p).get(target))
        if not isinstance(mod, Module):
            if target is not None:
                rep.finding('data', f"{f.qual if f else m.name}:{target}", where,
                            f"resource package {target} does not exist")
            continue
        names = []
        for x in parts:
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                names.append(x.value)
            else:
                names = None
                break
        if names:
            rep.count('resource files named')
            fn = os.path.join(os.path.dirname(mod.path), *names)
            if not os.path.exists(fn):
                rep.finding('data', f"{f.qual if f else m.name}:{target}/{'/'.join(names)}", where,
                            f"resource file {'/'.join(names)} does not exist in {target}")
    rep.need('legacy module paths', 120)
    rep.need('legacy names', 800)
    rep.need('resource lookups', 5)
    rep.assumptions.append('a name bound on any path of the module body counts as bound')


ABSENT = set()
ALIASES = ('crystallography', 'mksupport', 'spacegroup', 'symbols', 'symmetry', 'unitcell')


def aliases(p, rep):
    m = p.module(p.package)
    dicts = [n for n in ast.walk(m.tree) if isinstance(n, ast.Dict)]
    subs = [n for n in ast.walk(m.tree) if isinstance(n, ast.Assign)
            and any(isinstance(t, ast.Subscript) for t in n.targets)]
    pairs = {}
    for d in dicts:
        for k, v in zip(d.keys, d.values):
            if isinstance(k, ast.Constant):
                pairs[k.value] = p.dotted(v, m)
    for a in subs:
        for t in a.targets:
            if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
                pairs[t.slice.value] = p.dotted(a.value, m)
    table = read_table(p)
    for a in ALIASES:
        rep.count('module aliases')
        old = f"{p.package}.{a}"
        if old not in pairs:
            if old not in table:
                rep.finding('alias', old, m.relpath, f"{old} is neither an alias nor in the table")
            continue
        r = p.lookup(pairs[old]) if pairs[old] else None
        if not isinstance(r, Module) or r.name.rpartition('.')[2] != a:
            rep.finding('alias', old, m.relpath,
                        f"{old} is an alias of {pairs[old]}, not of the module {a}")
    reg = [n for n in subs if any(p.dotted(t.value, m) == 'sys.modules' for t in n.targets
                                  if isinstance(t, ast.Subscript))]
    upd = [n for n in ast.walk(m.tree) if isinstance(n, ast.Call)
           and p.dotted(n.func, m) in ('sys.modules.update', 'sys.modules.setdefault',
                                       'sys.modules.__setitem__')]
    if not reg and not upd:
        rep.finding('alias', 'sys.modules', m.relpath, 'the aliases are not put into sys.modules')
    loaded = any(d == MAP for d in m.imports.values()) or any(
        isinstance(n, ast.Import) and any(x.name == MAP for x in n.names)
        for n in ast.walk(m.tree)) or any(
        isinstance(n, ast.Call) and any(const(x, MAP) or const(x, '.module_map') for x in n.args)
        for n in ast.walk(m.tree))
    if not loaded:
        rep.finding('alias', 'module_map', m.relpath, 'the package does not import its module map')
    if '__getattr__' not in m.functions:
        rep.finding('alias', '__getattr__', m.relpath,
                    'attribute access to moved modules (hexrd.<old>) is no longer redirected')


def importer(p, rep):
    m = p.module(MAP)
    finders = [c for c in m.classes.values() if 'find_spec' in c.methods]
    if not finders:
        raise AnalysisError(f"anchor vanished: no finder class in {MAP}")
    hook = False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and (p.dotted(n.func, m) or '').startswith('sys.meta_path.'):
            hook |= contains(n, lambda x: isinstance(x, ast.Name) and x.id in
                             {c.name for c in finders} | {
                                 g for g, vs in m.globals_.items()
                                 if any(v is not None and contains(v, lambda y: isinstance(
                                     y, ast.Name) and y.id in {c.name for c in finders})
                                     for v in vs)})
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            hook |= any((p.dotted(t.value if isinstance(t, ast.Subscript) else t, m) or '')
                        == 'sys.meta_path' for t in ts)
    if not hook:
        rep.finding('alias', 'meta_path', m.relpath, 'the import hook is not installed')
    # the core target is preferred
    def prefers(n, sign=True):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return prefers(n.operand, not sign)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and const(n.left, 'core'):
            return isinstance(n.ops[0], ast.In) == sign
        return None
    pref = False
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.If, ast.IfExp)):
            r = prefers(n.test)
            if r is None:
                continue
            if isinstance(n, ast.IfExp):
                pref |= r
                continue
            taken, other = (n.body, n.orelse) if r else (n.orelse, n.body)
            stores = [x for s in taken for x in ast.walk(s) if isinstance(x, ast.Assign)]
            skips = other and all(isinstance(s, (ast.Continue, ast.Pass)) for s in other)
            pref |= bool(stores) or (not taken and skips) or any(
                isinstance(s, (ast.Return, ast.Break)) for s in taken)
        elif isinstance(n, ast.comprehension):
            pref |= any(prefers(c) for c in n.ifs)
        elif isinstance(n, ast.Lambda):
            pref |= prefers(n.body) is not None
    if not pref:
        rep.finding('alias', 'core', m.relpath,
                    'the importer no longer prefers the core target of a split module')
    for c in finders:
        for name in ('find_spec', 'load_module', 'exec_module'):
            f = c.find_method(name)
            if f is None or f.module is not m:
                continue
            rep.count('import hook methods')
            if name == 'find_spec':
                if not any(isinstance(n, ast.Return) and n.value is not None and not const(
                        n.value, None) for n in ast.walk(f.node)):
                    rep.finding('alias', 'find_spec', f.where(), 'the finder finds nothing')
            elif not contains(f.node, lambda n: isinstance(n, ast.Call) and (
                    p.dotted(n.func, m, f) or '').endswith('import_module')):
                rep.finding('alias', name, f.where(), f"{name} does not import the new module")
        if 'load_module' not in c.methods and 'exec_module' not in c.methods:
            rep.finding('alias', 'loader', m.relpath, 'the import hook cannot load a module')


def setup_files(p, rep):
    path = os.path.join(p.root, 'setup.py')
    if not os.path.exists(path):
        raise AnalysisError('anchor vanished: setup.py')
    with open(path) as fh:
        tree = ast.parse(fh.read())
    allfiles = set()
    for dp, dn, fn in os.walk(os.path.join(p.root, p.package)):
        allfiles.update(fn)
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg == 'package_data' and isinstance(n.value, ast.Dict):
            for v in n.value.values:
                for e in getattr(v, 'elts', []):
                    if isinstance(e, ast.Constant) and '*' not in e.value:
                        rep.count('declared data files')
                        if e.value.split('/')[-1] not in allfiles:
                            rep.finding('data', f"setup:{e.value}", 'setup.py',
                                        f"package data file {e.value} does not exist")
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if const(k, 'console_scripts') and isinstance(v, (ast.List, ast.Tuple)):
                    for e in v.elts:
                        if not isinstance(e, ast.Constant):
                            continue
                        rep.count('console entry points')
                        _, _, tgt = e.value.partition('=')
                        mod, _, fun = tgt.strip().partition(':')
                        r = p.modules.get(mod)
                        if r is None or not isinstance(p.member(r, fun), Func):
                            rep.finding('data', f"entry:{e.value}", 'setup.py',
                                        f"console entry point {tgt.strip()} does not exist")
    rep.need('console entry points', 1)


def write_contract(rep):
    report.write_contract('a15_names.json', public_map(load()))
