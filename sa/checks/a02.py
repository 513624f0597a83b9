"""A02: reference tables, class-level defaults and default arguments never change."""
import ast
from .. import effects, report
from ..project import AnalysisError, Class
from . import a01

# registries: filled by class creation, by design
REGISTRY = {
    'hexrd.core.distortion.registry:Registry.distortion_registry',
    'hexrd.core.imageseries.load.registry:Registry.adapter_registry',
    'hexrd.core.imageseries.save:_Registry.writer_registry',
    'hexrd.hedm.preprocess.argument_classes_factory:ArgumentClassesFactory._creators',
}


def classattr_of(root, path):
    if root[0] == 'G':
        return root[1]
    if root[0] == 'K' and path:
        return f"{root[1]}.{path[0]}"
    return root[1]


def mutable_default(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (
        isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] in
        ('array', 'zeros', 'ones', 'eye', 'dict', 'list', 'set', 'arange', 'linspace', 'asarray',
         'empty', 'full'))


def check(rep):
    rep.rule('table', 'no function writes, directly or through any chain of calls and aliases, into '
             'a list, dict, set or array defined at module or class level (registries that are '
             'filled at class creation and names rebound with a global statement are run-time '
             'state, not tables)')
    rep.rule('default', 'no function writes into the object that is the default value of one of '
             'its parameters')
    rep.rule('alias', 'a module- or class-level container or array kept by an object without a '
             'copy is not written later through that object')
    p, e = a01.analyse()
    rep.count('functions analysed', len(p.functions))
    ntab = 0
    state = set()
    for f in p.functions.values():
        for g in f.globals_:
            state.add(f"{f.module.name}.{g}")
    for m in p.modules.values():
        for nm, vals in m.globals_.items():
            if any(isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp))
                   for v in vals) and f"{m.name}.{nm}" not in state:
                ntab += 1
    for c in p.classes.values():
        for nm, v in c.class_attrs.items():
            if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Call)):
                ntab += 1
    rep.count('module- and class-level containers under obligation', ntab)
    nd = 0
    esc = {}
    for q, s in sorted(e.sums.items()):
        f = p.functions[q]
        for par, d in f.defaults.items():
            if mutable_default(d) or isinstance(d, (ast.Name, ast.Attribute)):
                nd += 1
        for (root, path), m in sorted(s.mut.items(), key=str):
            if root[0] in ('G', 'K'):
                name = classattr_of(root, path)
                if name in REGISTRY or name in state or m.kind == 'global rebinding':
                    continue
                if root[0] == 'K' and not path:
                    continue
                if m.kind.startswith('attribute') and root[0] == 'G' and \
                        not looks_like_table(p, name):
                    continue
                if not m.kind.startswith('attribute') and no_elements(p, name):
                    continue
                rule = 'default' if '(default' in name else 'table'
                rep.finding(rule, f"{name}|{m.func.qual}", m.where(),
                            f"{m.func.qual} writes into {name}: {m.describe()}")
            if root[0] == 'P' and root[1] in f.defaults and mutable_default(f.defaults[root[1]]) \
                    and a01.DATA_ONLY(path) and not m.kind.startswith('attribute'):
                rep.finding('default', f"{q}(default {root[1]})|{m.func.qual}", m.where(),
                            f"{q} writes into the default value of '{root[1]}': {m.describe()}")
        for (loc, fld), v in s.stores.items():
            if loc[0][0] == 'P' and f.cls is not None and loc == (('P', f.self_name), ()):
                for l in effects.flat(v).locs:
                    if l[0][0] in ('G', 'K') and a01.DATA_ONLY(l[1]) \
                            and not immutable(p, classattr_of(*l)):
                        esc.setdefault((f.cls.qual, fld), {})[classattr_of(*l)] = f
                    if l[0][0] == 'P' and l[0][1] in f.defaults and a01.DATA_ONLY(l[1]) and \
                            mutable_default(f.defaults[l[0][1]]):
                        esc.setdefault((f.cls.qual, fld), {})[f"{q}(default {l[0][1]})"] = f
    rep.count('default values under obligation', nd)
    muts = {}
    for q, s in e.sums.items():
        f = p.functions[q]
        for (root, path), m in s.mut.items():
            if m.kind.startswith('attribute') or not path:
                continue
            at = [x for x in path if not x.startswith('[')]
            if not at:
                continue
            cq = None
            if f.cls is not None and root == ('P', f.self_name) and len(at) == 1:
                cq = f.cls.qual
            if cq:
                muts.setdefault((cq, at[-1]), {})[q] = m
    for (cq, at), src in sorted(esc.items()):
        rep.count('module/class-level objects kept by instances')
        c = p.classes[cq]
        for (cq2, at2), mm in muts.items():
            if at2 != at:
                continue
            c2 = p.classes[cq2]
            if c in c2.mro() or c2 in c.mro():
                for name, f in src.items():
                    for mq, m in sorted(mm.items())[:1]:
                        rep.finding('alias', f"{name}|{cq}.{at}|{mq}", m.where(),
                                    f"{f.qual} keeps {name} as .{at} without a copy and {mq} "
                                    f"writes into it: {m.describe()}")
    rep.need('module- and class-level containers under obligation', 150)
    rep.assumptions.append('calls into libraries follow the alias/effect table in sa/libmodel.py')


def immutable(p, name):
    """The named class attribute or module global is a plain constant."""
    mn, _, nm = name.rpartition('.')
    if ':' in mn:
        c = p.classes.get(mn)
        v = c.class_attrs.get(nm) if c is not None else None
        vals = [v] if v is not None else []
    else:
        m = p.modules.get(mn)
        vals = m.globals_.get(nm, []) if m is not None else []
    return bool(vals) and all(isinstance(v, (ast.Constant, ast.JoinedStr)) or
                              (isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant))
                              for v in vals)


def no_elements(p, name):
    """The module global is an instance of a project class that has no elements."""
    mn, _, nm = name.rpartition('.')
    m = p.modules.get(mn)
    vals = m.globals_.get(nm, []) if m is not None else []
    for v in vals:
        c = p.resolve(v.func, m) if isinstance(v, ast.Call) else None
        if not isinstance(c, Class) or c.find_method('__setitem__') is not None or \
                any(b for k in c.mro() for b in k.node.bases
                    if not isinstance(p.resolve(b, k.module), Class)):
            return False
    return bool(vals)


def looks_like_table(p, name):
    mn, _, nm = name.rpartition('.')
    m = p.modules.get(mn)
    if m is None:
        return False
    return any(isinstance(v, (ast.List, ast.Dict, ast.Set)) for v in m.globals_.get(nm, []))
