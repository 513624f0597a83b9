"""A08: layout and element type of the arrays that reach compiled code."""
import ast
import os
import re
from .. import par, report
from ..project import AnalysisError, Func, load

CAPI = 'hexrd.core.extensions.transforms_c_api'
CPP = ('hexrd.core.extensions.transforms', 'hexrd.core.extensions.inverse_distortion')
CSRC = 'hexrd/core/transforms/new_capi'
CPPSRC = ('hexrd/core/transforms/cpp_sublibrary/src/transforms.cpp',
          'hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp')

# abstract value: (contiguous, double); both True or False (= not proven)
NO = (False, False)
BOTH = (True, True)
FLOAT = {'float', 'numpy.float64', 'numpy.double', 'ctypes.c_double', 'builtins.float',
         'numpy.float_', 'numpy.longdouble'}
TRIG = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'sqrt', 'exp', 'log',
        'degrees', 'radians', 'deg2rad', 'rad2deg', 'hypot', 'interp', 'linspace', 'log10'}


def last(fn):
    return fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')


# ---------------------------------------------------------------- the C side
def entries(p):
    """name -> list of 'array' (checked), 'raw' (unchecked object), 'scalar' per argument"""
    d = os.path.join(p.root, *CSRC.split('/'))
    if not os.path.isdir(d):
        raise AnalysisError(f"anchor vanished: {CSRC}")
    out = {}
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.c'):
            continue
        with open(os.path.join(d, fn)) as fh:
            src = re.sub(r'/\*.*?\*/', ' ', fh.read(), flags=re.S)
        heads = [(m.start(), m.group(1)) for m in re.finditer(
            r'(?:static\s+|XRD_PYTHON_WRAPPER\s+)?PyObject\s*\*\s*(?:CONCAT\()?\s*(?:python_)?(\w+)\s*\(\s*PyObject\s*\*',
            src)]
        for i, (pos, name) in enumerate(heads):
            end = heads[i + 1][0] if i + 1 < len(heads) else len(src)
            body = src[pos:end]
            m = re.search(r'PyArg_ParseTuple\s*\(\s*args\s*,\s*"([^"]*)"(.*?)\)\s*\)', body, re.S)
            if not m:
                continue
            kinds, fmt = [], m.group(1)
            k = 0
            while k < len(fmt):
                c = fmt[k]
                if c in '|:;':
                    if c != '|':
                        break
                elif c == 'O':
                    if fmt[k + 1:k + 2] == '&':
                        kinds.append('array')
                        k += 1
                    elif fmt[k + 1:k + 2] == '!':
                        kinds.append('raw')
                        k += 1
                    else:
                        kinds.append('raw')
                else:
                    kinds.append('scalar')
                k += 1
            out[name] = (kinds, f"{CSRC}/{fn}", body)
    return out


def exported(p):
    with open(os.path.join(p.root, *CSRC.split('/'), 'module.c')) as fh:
        src = fh.read()
    return re.findall(r'^\s*EXPORT_METHOD\((\w+)\)', src, re.M)


# ------------------------------------------------------- abstract interpreter
class Abs:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.imps = {}
        self.memo = {}
        self.params = {}
        self.rec = set()

    def dotted(self, e, f):
        if f.qual not in self.imps:
            self.imps[f.qual] = self.p.func_imports(f)
        return self.p.dotted(e, f.module, f, self.imps[f.qual])

    def result(self, f):
        """abstract value of what f returns"""
        if f.qual in self.memo:
            return self.memo[f.qual]
        self.memo[f.qual] = NO
        w = Walk(self, f)
        w.go()
        r = None
        for v in w.returns:
            r = v if r is None else meet(r, v)
        self.memo[f.qual] = r or NO
        return self.memo[f.qual]

    def param(self, f, name):
        """a parameter of a helper has the value its calls give it; a public function can be
        given anything"""
        if f.public and f.parent is None or f.qual not in self.params:
            return NO
        return self.params[f.qual].get(name, NO)


class Many(tuple):
    """a tuple of abstract values"""
    def __new__(cls, elts):
        self = tuple.__new__(cls, NO)
        self.elts = list(elts)
        return self


def meet(a, b):
    if isinstance(a, Many) and isinstance(b, Many) and len(a.elts) == len(b.elts):
        return Many([meet(x, y) for x, y in zip(a.elts, b.elts)])
    return (a[0] and b[0], a[1] and b[1])


class Walk:
    def __init__(self, a, f, on_call=None):
        self.a, self.f = a, f
        self.env = {k[1:]: v for k, v in (a.params.get(f.qual) or {}).items() if k[0] == '~'}
        self.env.update((x, a.param(f, x)) for x in f.all_params)
        self.returns = []
        self.on_call = on_call

    def go(self):
        self.block(self.f.body)

    def is_float(self, e):
        if e is None:
            return False
        if isinstance(e, ast.Constant):
            return e.value in ('float', 'float64', 'd', 'f8', '<f8', 'double')
        if isinstance(e, ast.Name) and e.id in self.f.all_params:
            vs = handed(self.a.p, self.f, e.id)
            return bool(vs) and all(isinstance(v, ast.Name) and v.id == 'float' or ast.unparse(
                v) in ('np.float64', 'np.double') for v in vs)
        d = self.a.dotted(e, self.f)
        return d in FLOAT or isinstance(e, ast.Name) and e.id == 'float'

    def kw(self, c, name, pos=None):
        for k in c.keywords:
            if k.arg == name:
                return k.value
        return c.args[pos] if pos is not None and pos < len(c.args) else None

    def scalar_float(self, e):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, float)
        if isinstance(e, ast.UnaryOp):
            return self.scalar_float(e.operand)
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, ast.Div) or self.ev(e)[1]
        if isinstance(e, (ast.List, ast.Tuple)):
            return bool(e.elts) and any(self.scalar_float(x) for x in e.elts)
        if isinstance(e, ast.Call):
            return last(e.func) in TRIG or last(e.func) == 'float'
        if isinstance(e, ast.Attribute):
            return e.attr in ('pi', 'nan', 'inf', 'e')
        if isinstance(e, ast.Name):
            return self.env.get(e.id, NO)[1]
        return False

    def ev(self, e):
        """abstract value of an expression"""
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            return self.constant(e)
        if isinstance(e, ast.Attribute):
            if e.attr in ('T', 'real', 'imag', 'flat'):
                return (False, self.ev(e.value)[1])
            return self.constant(e)
        if isinstance(e, ast.Constant):
            return (True, isinstance(e.value, float))
        if isinstance(e, (ast.List, ast.Tuple)):
            if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts):
                return Many([self.ev(x) for x in e.elts])
            return NO
        if isinstance(e, ast.IfExp):
            a, b = self.ev(e.body), self.ev(e.orelse)
            if isinstance(e.body, ast.Constant) and e.body.value is None:
                return b
            if isinstance(e.orelse, ast.Constant) and e.orelse.value is None:
                return a
            return meet(a, b)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, ast.UnaryOp):
            return self.ev(e.operand)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            fl = a[1] or b[1] or isinstance(e.op, ast.Div) or self.scalar_float(
                e.left) or self.scalar_float(e.right)
            if isinstance(e.op, ast.MatMult):
                return (True, fl)
            sc = isinstance(e.left, ast.Constant) and b[0] or isinstance(
                e.right, ast.Constant) and a[0]
            return (bool(sc) or a[0] and b[0], fl)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            s = e.slice
            if isinstance(v, Many):
                if isinstance(s, ast.Constant) and isinstance(s.value, int) and \
                        -len(v.elts) <= s.value < len(v.elts):
                    return v.elts[s.value]
                return NO
            lead = isinstance(s, (ast.Constant, ast.Name)) or isinstance(
                s, ast.UnaryOp) and isinstance(s.operand, ast.Constant)
            if isinstance(s, ast.Constant) and s.value in (Ellipsis, None):
                lead = True
            return (v[0] and lead and not isinstance(s, ast.Slice), v[1])
        if isinstance(e, ast.Call):
            return self.call(e)
        return NO

    def constant(self, e):
        d = self.a.dotted(e, self.f)
        r = self.a.p.lookup(d) if d else None
        if isinstance(r, tuple) and r[0] == 'global':
            vals = [v for v in r[1].globals_[r[2]] if v is not None]
            if len(vals) == 1:
                return self.module_value(vals[0], r[1])
        return NO

    def module_value(self, v, m, depth=0):
        """module level constants: np.array of a literal, np.eye, np.zeros, ..."""
        if isinstance(v, ast.Call):
            d = self.a.p.dotted(v.func, m) or ''
            n = d.rpartition('.')[2]
            if d.startswith('numpy.') and n in ('array', 'asarray', 'ascontiguousarray') and v.args:
                fl = any(isinstance(x, ast.Constant) and isinstance(x.value, float)
                         for x in ast.walk(v.args[0])) or any(
                    k.arg == 'dtype' and ast.unparse(k.value) in ('float', 'np.float64')
                    for k in v.keywords)
                if isinstance(v.args[0], (ast.List, ast.Tuple)):
                    return (True, fl)
                if isinstance(v.args[0], ast.Name) and n == 'ascontiguousarray' and depth < 3:
                    return (True, fl)
            if d.startswith('numpy.') and n in ('eye', 'zeros', 'ones', 'identity', 'linspace'):
                return BOTH if not v.keywords and len(v.args) == 1 else (True, False)
            if isinstance(v.func, ast.Attribute) and v.func.attr == 'copy':
                return self.module_value(v.func.value, m, depth + 1)
        if isinstance(v, ast.UnaryOp):
            return self.module_value(v.operand, m, depth + 1)
        if isinstance(v, ast.Name) and depth < 3:
            vals = [x for x in m.globals_.get(v.id, []) if x is not None]
            if len(vals) == 1:
                return self.module_value(vals[0], m, depth + 1)
        return NO

    def call(self, e):
        n = last(e.func)
        d = self.a.dotted(e.func, self.f) or ''
        x = self.ev(e.args[0]) if e.args else NO
        dt = self.kw(e, 'dtype', 1 if n in ('ascontiguousarray', 'asarray', 'array', 'zeros',
                                            'ones', 'empty', 'asanyarray', 'require') else None)
        order = self.kw(e, 'order')
        if isinstance(order, ast.Name) and order.id in self.f.all_params:
            os_ = handed(self.a.p, self.f, order.id)
            order = os_[0] if os_ and len({ast.unparse(o) for o in os_}) == 1 else order
        c_order = isinstance(order, ast.Constant) and order.value == 'C'
        none = dt is None or isinstance(dt, ast.Constant) and dt.value is None
        fl = self.is_float(dt) or none and x[1]
        if d.startswith('numpy.'):
            if n == 'ascontiguousarray':
                if e.args and isinstance(e.args[0], (ast.List, ast.Tuple)) and none:
                    fl = self.scalar_float(e.args[0])
                return (True, fl)
            if n in ('array', 'asarray', 'asanyarray'):
                if e.args and isinstance(e.args[0], (ast.List, ast.Tuple)):
                    simple = all(isinstance(y, (ast.Constant, ast.UnaryOp, ast.List, ast.Tuple))
                                 for y in e.args[0].elts)
                    return (True if simple else c_order or x[0],
                            self.is_float(dt) or none and self.scalar_float(e.args[0]))
                return (c_order or x[0], fl)
            if n in ('atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'nan_to_num'):
                return x
            if n in ('zeros', 'ones', 'empty', 'identity', 'eye', 'full'):
                if n == 'full':
                    none, dt = self.kw(e, 'dtype', 2) is None, self.kw(e, 'dtype', 2)
                    return (True, self.is_float(dt) or none and self.scalar_float(
                        self.kw(e, 'fill_value', 1)))
                return (order is None or c_order, self.is_float(dt) or none)
            if n in ('linspace',):
                return (True, none or self.is_float(dt))
            if n in ('arange',):
                dt = self.kw(e, 'dtype', 3)
                return (True, self.is_float(dt) or dt is None and any(
                    self.scalar_float(y) for y in e.args))
            if n == 'require':
                req = self.kw(e, 'requirements', 2)
                ok = req is not None and any(isinstance(y, ast.Constant) and y.value in (
                    'C', 'C_CONTIGUOUS', 'CONTIGUOUS') for y in ast.walk(req))
                return (ok, fl)
            if n == 'ravel':
                return (True, x[1])
            if n == 'pad':
                return x
            if n in ('cross',):
                return (False, x[1])
            if n in TRIG:
                return (x[0], True)
            if n in ('hstack', 'vstack', 'concatenate', 'stack', 'column_stack', 'dot', 'tile',
                     'repeat', 'where', 'moveaxis', 'transpose', 'copy'):
                flts = [self.ev(y)[1] for y in ast.walk(e) if isinstance(y, ast.Name)]
                return (n in ('dot', 'tile', 'repeat'), bool(flts) and all(flts))
        if isinstance(e.func, ast.Attribute) and not d.startswith('numpy.'):
            v = self.ev(e.func.value)
            if n == 'flatten' or n == 'ravel':
                plain = not e.args and not e.keywords or c_order or (
                    e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value == 'C')
                return (plain, v[1])
            if n == 'copy':
                return (not e.args and not e.keywords or c_order, v[1])
            if n == 'astype':
                c = self.kw(e, 'order', 1)
                dt = self.kw(e, 'dtype', 0)
                ok = isinstance(c, ast.Constant) and c.value == 'C'
                return (ok or v[0], self.is_float(dt))
            if n == 'reshape':
                o = [k for k in e.keywords if k.arg == 'order']
                return (v[0] and not o, v[1])
            if n in ('squeeze', 'clip', 'round', 'filled'):
                return v
            if n in ('dot', 'repeat'):
                return (True, v[1])
        g = self.callee(e)
        if g is not None:
            return self.a.result(g)
        if d.startswith(CAPI) or any(d.startswith(c + '.') for c in CPP):
            return (d.startswith(CAPI), True)
        return NO

    def callee(self, e):
        fn = e.func
        if isinstance(fn, ast.Name):
            h = self.f
            while h is not None:
                if fn.id in h.nested:
                    return h.nested[fn.id]
                h = h.parent
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and \
                fn.value.id == self.f.self_name and self.f.cls is not None:
            return self.f.cls.find_method(fn.attr)
        d = self.a.dotted(fn, self.f)
        r = self.a.p.lookup(d) if d else None
        return r if isinstance(r, Func) else None

    # statements
    def scan(self, e):
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                self.ev(n)
            if isinstance(n, ast.Call) and self.on_call:
                self.on_call(self, n)

    def bind(self, t, v, value=None):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and \
                len(value.elts) == len(t.elts) else [None] * len(t.elts)
            comp = value if isinstance(value, (ast.GeneratorExp, ast.ListComp)) else None
            vals = []
            for x, y in zip(t.elts, vs):
                if y is not None:
                    vals.append(self.ev(y))
                elif comp is not None:
                    old = dict(self.env)
                    it = comp.generators[0]
                    if isinstance(it.target, ast.Name) and isinstance(it.iter, (
                            ast.Tuple, ast.List)):
                        r = None
                        for z in it.iter.elts:
                            self.env[it.target.id] = self.ev(z)
                            q = self.ev(comp.elt)
                            r = q if r is None else meet(r, q)
                        vals.append(r or NO)
                    else:
                        vals.append(self.ev(comp.elt))
                    self.env = old
                elif isinstance(value, ast.Call) and last(value.func) == 'map' and value.args:
                    c = ast.copy_location(ast.Call(value.args[0], [ast.Constant(0)], []), value)
                    vals.append(self.call(c))
                elif isinstance(v, Many) and len(v.elts) == len(t.elts):
                    vals.append(v.elts[len(vals)])
                else:
                    vals.append(NO)
            for x, v_ in zip(t.elts, vals):
                self.bind(x, v_)

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.Assign):
            self.scan(s.value)
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.scan(s.value)
                self.bind(s.target, self.ev(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            self.scan(s.value)
            if isinstance(s.target, ast.Name) and isinstance(s.op, (ast.MatMult,)):
                self.env[s.target.id] = NO
        elif isinstance(s, ast.Return):
            self.scan(s.value)
            self.returns.append(self.ev(s.value) if s.value is not None else NO)
        elif isinstance(s, ast.If):
            self.scan(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            e1, out1 = self.env, ends(s.body)
            self.env = dict(e0)
            self.block(s.orelse)
            e2, out2 = self.env, ends(s.orelse)
            none = none_test(s.test)
            if out1:
                pass
            elif out2:
                self.env = e1
            else:
                self.env = {k: meet(e1.get(k, NO), e2.get(k, NO)) if not (
                    none and none[0] == k) else none_meet(none, e1, e2, k)
                    for k in set(e1) | set(e2)}
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.scan(s.iter)
            it = s.iter
            if isinstance(s.target, ast.Name):
                self.env[s.target.id] = NO
            e0 = dict(self.env)
            self.block(s.body)
            self.env = {k: meet(self.env.get(k, NO), e0.get(k, NO)) for k in set(e0) | set(
                self.env)}
            self.block(s.orelse)
            del it
        elif isinstance(s, ast.While):
            self.scan(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            self.env = {k: meet(self.env.get(k, NO), e0.get(k, NO)) for k in set(e0) | set(
                self.env)}
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.scan(it.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Expr):
            self.scan(s.value)
        elif isinstance(s, ast.Match):
            for c in s.cases:
                self.block(c.body)


def none_test(t):
    """(name, +1) when the test is true for None, (name, -1) when it is true for not None"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
            isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        return (t.left.id, 1 if isinstance(t.ops[0], ast.Is) else -1)
    return None


def none_meet(none, e1, e2, k):
    a, b = e1.get(k, NO), e2.get(k, NO)
    return meet(a, b)


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def handed(p, f, name, depth=0):
    """every value a parameter of a helper of its module can have, [] when unknown"""
    if f.public and f.parent is None or depth > 3:
        return []
    out, a = [], f.node.args
    pos = a.posonlyargs + a.args
    dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    dflt.update((k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
    i = next((j for j, x in enumerate(pos) if x.arg == name), None)
    sites = [(g, n) for g in p.functions.values() if g.module is f.module and not g.is_lambda
             for n in par.own(g.node)]
    for g, n in sites:
        if isinstance(n, ast.Call) and last(n.func) == f.name:
            v = next((k.value for k in n.keywords if k.arg == name), None)
            if v is None and i is not None and i < len(n.args):
                v = n.args[i]
            if v is None:
                v = dflt.get(name)
            if v is None:
                return []
            if isinstance(v, ast.Name) and v.id in g.all_params:
                vs = handed(p, g, v.id, depth + 1)
                if not vs:
                    return []
                out += vs
            else:
                out.append(v)
    return out


# -------------------------------------------------------------------- checks
def helper_params(a, p):
    """values that private helpers of modules with native calls receive: meet over all calls"""
    seen = {}

    def on_call(w, n):
        g = w.callee(n)
        if g is None or g.public and g.parent is None or g.is_lambda:
            return
        ps = g.params[1:] if g.is_method else g.params
        tab = seen.setdefault(g.qual, {})
        for i, x in enumerate(n.args):
            if i < len(ps):
                v = w.ev(x)
                tab[ps[i]] = meet(tab[ps[i]], v) if ps[i] in tab else v
        if g.parent is not None:
            for k, v in w.env.items():
                if k not in g.all_params:
                    tab['~' + k] = meet(tab['~' + k], v) if '~' + k in tab else v
        for k in n.keywords:
            if k.arg in g.all_params:
                v = w.ev(k.value)
                tab[k.arg] = meet(tab[k.arg], v) if k.arg in tab else v
    mods = [m for m in p.modules.values() if any(
        d.startswith(('hexrd.core.extensions', 'ctypes')) for d in m.imports.values())]
    for _ in range(4):
        seen.clear()
        for f in p.functions.values():
            if f.module in mods and not f.is_lambda:
                Walk(a, f, on_call).go()
        a.params = {q: dict(t) for q, t in seen.items()}
        a.memo = {}
    return mods


def native(rep, p):
    ent = entries(p)
    names = exported(p)
    for n in names:
        rep.count('C entry points')
        if n not in ent:
            raise AnalysisError(f"the argument list of the C entry point {n} was not recognised")
    a = Abs(p, rep)
    helper_params(a, p)
    found = []
    for q, f in sorted(p.functions.items()):
        if f.is_lambda:
            continue

        def on_call(w, n, f=f):
            d = a.dotted(n.func, f) or ''
            if not d.startswith(CAPI + '.'):
                return
            name = d.rpartition('.')[2]
            if name not in ent:
                return
            kinds = ent[name][0]
            rep.count('calls of C entry points')
            args = list(n.args)
            if any(isinstance(x, ast.Starred) for x in args) or n.keywords:
                exp = []
                for x in args:
                    if isinstance(x, ast.Starred) and isinstance(x.value, (ast.Tuple, ast.List)):
                        exp += x.value.elts
                    elif isinstance(x, ast.Starred):
                        for _ in range(len(kinds) - len(args) + 1):
                            exp.append(x)
                    else:
                        exp.append(x)
                args = exp
            for x, k in zip(args, kinds):
                if k == 'scalar':
                    continue
                rep.count('array arguments of C entry points')
                if isinstance(x, ast.Constant) and x.value is None:
                    continue
                v = starred(w, x) if isinstance(x, ast.Starred) else w.ev(x)
                t = ast.unparse(x)[:50]
                if not v[0]:
                    found.append((f, n, f"{name}|{t}|layout",
                                  f"{f.qual}: {t} may reach {name} without being C-contiguous"))
                if k == 'raw' and not v[1]:
                    found.append((f, n, f"{name}|{t}|type",
                                  f"{f.qual}: {t} may reach {name} with another element type than "
                                  "double; the C code does not check it"))
        Walk(a, f, on_call).go()
        # the same inside comprehensions and nested expressions is covered by scan()
    for f, n, key, msg in found:
        rep.finding('native', f"{f.qual}|{key}", f.where(n), msg)
    # the converter the other entry points rely on
    with open(os.path.join(p.root, *CSRC.split('/'), 'ndargs_helper.c')) as fh:
        h = fh.read()
    if 'nah_array_converter' not in h:
        raise AnalysisError('anchor vanished: nah_array_converter')
    conv = re.sub(r'/\*.*?\*/', ' ', h, flags=re.S)
    for what, pat in (('element type', r'PyArray_TYPE\s*\(|PyArray_DESCR|PyArray_ISFLOAT'),
                      ('array object', r'PyArray_Check'),
                      ('byte order and alignment', r'PyArray_ISBEHAVED|PyArray_ISCARRAY|'
                       r'PyArray_ISALIGNED')):
        rep.count('converter checks')
        if not re.search(pat, conv):
            rep.finding('converter', what, f"{CSRC}/ndargs_helper.c",
                        f"the array converter no longer checks the {what}")
    for name in names:
        body = ent[name][2]
        for m in re.finditer(r'nah_array\s+(\w+)\s*=\s*\{[^,]*,[^,]*,\s*([^,]+),', body):
            rep.count('converter declarations')
            if 'NAH_TYPE_SP_FP' in m.group(2) and re.search(
                    r'\(\s*double\s*\*\s*\)\s*PyArray_DATA\s*\(\s*' + m.group(1), body):
                rep.finding('converter', f"{name}|{m.group(1)}", ent[name][1],
                            f"{name} accepts single precision for {m.group(1)} and reads doubles")


def starred(w, x):
    """*args built from a list of converted arrays"""
    e = x.value
    if isinstance(e, ast.Name):
        for v in par.definitions(w.f).get(e.id, ()):
            if isinstance(v, (ast.ListComp, ast.GeneratorExp)):
                return w.ev(v.elt)
            if isinstance(v, (ast.List, ast.Tuple)):
                r = BOTH
                for y in v.elts:
                    r = meet(r, w.ev(y))
                return r
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
        return w.ev(e.elt)
    return NO


def cpp(rep, p):
    """the C++ functions take Eigen objects by value or constant reference, which pybind11
    fills with a converted copy"""
    for fn in CPPSRC:
        path = os.path.join(p.root, *fn.split('/'))
        if not os.path.exists(path):
            raise AnalysisError(f"anchor vanished: {fn}")
        with open(path) as fh:
            src = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', fh.read(), flags=re.S)
        for m in re.finditer(r'm\.def\s*\(\s*"(\w+)"\s*,\s*&(\w+)(.*?)\)\s*;', src, re.S):
            py, fun, rest = m.groups()
            rep.count('C++ entry points')
            s = re.search(r'[\w>&\]]\s+' + fun + r'\s*\(([^)]*)\)\s*(?:noexcept)?\s*\{', src)
            if not s:
                raise AnalysisError(f"the signature of {fun} was not recognised")
            for par_ in s.group(1).split(','):
                rep.count('C++ arguments')
                t = par_.strip()
                if re.search(r'Ref\s*<|Map\s*<', t) or '*' in t or re.search(
                        r'(?<!const )Eigen::\w+\s*&', t.replace('const  ', 'const ')) or (
                        'array_t' in t and 'forcecast' not in t):
                    rep.finding('eigen', f"{py}|{t.split()[-1]}", fn,
                                f"{py} takes {t} without converting the layout and element type")
            if 'noconvert' in rest:
                rep.finding('eigen', f"{py}|noconvert", fn, f"{py} no longer converts its arguments")


def ctypes_decl(rep, p):
    m = p.module('hexrd.core.convolution.convolve')
    n_ptr = 0
    a = Abs(p, rep)
    helper_params(a, p)
    funcs = {ast.unparse(t.value): [
        x for x in n.value.elts] if isinstance(n.value, (ast.List, ast.Tuple)) else []
        for n in ast.walk(m.tree) if isinstance(n, ast.Assign) for t in n.targets
        if isinstance(t, ast.Attribute) and t.attr == 'argtypes'}
    for q, f in sorted(p.functions.items()):
        if f.module is not m or f.is_lambda:
            continue

        def on_call(w, n, f=f):
            decl = funcs.get(ast.unparse(n.func))
            if not decl:
                return
            rep.count('calls of ctypes functions')
            for x, t in zip(n.args, decl):
                if not (isinstance(t, ast.Call) and last(t.func) == 'ndpointer'):
                    continue
                v = w.ev(x)
                if not v[0]:
                    rep.finding('native', f"{f.qual}|{last(n.func)}|{ast.unparse(x)[:50]}|layout",
                                f.where(n), f"{f.qual}: {ast.unparse(x)[:50]} may reach "
                                f"{last(n.func)} without being C-contiguous")
                if not v[1] and 'size_t' not in ast.unparse(t) and 'int' not in ast.unparse(
                        t.args[0] if t.args else t):
                    rep.finding('native', f"{f.qual}|{last(n.func)}|{ast.unparse(x)[:50]}|type",
                                f.where(n), f"{f.qual}: {ast.unparse(x)[:50]} may reach "
                                f"{last(n.func)} with another element type than double")
        Walk(a, f, on_call).go()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'argtypes'
                                             for t in n.targets):
            for c in ast.walk(n.value):
                if isinstance(c, ast.Call) and last(c.func) == 'ndpointer':
                    n_ptr += 1
                    rep.count('ctypes array arguments')
                    flags = [k.value for k in c.keywords if k.arg == 'flags'] + c.args[3:4]
                    dt = [k.value for k in c.keywords if k.arg == 'dtype'] + c.args[:1]
                    if not any(isinstance(x, ast.Constant) and isinstance(x.value, str) and
                               'C_CONTIGUOUS' in x.value for fl in flags for x in ast.walk(fl)):
                        rep.finding('ctypes', f"layout{n_ptr}", f"{m.relpath}:{c.lineno}",
                                    'an array argument of convolveNd_c is no longer required to be '
                                    'C-contiguous')
                    if not dt:
                        rep.finding('ctypes', f"type{n_ptr}", f"{m.relpath}:{c.lineno}",
                                    'an array argument of convolveNd_c has no declared type')
                elif isinstance(c, ast.Call) and last(c.func) == 'POINTER':
                    rep.finding('ctypes', f"pointer|{ast.unparse(c)}", f"{m.relpath}:{c.lineno}",
                                'an argument of convolveNd_c is an unchecked pointer')
    if n_ptr < 5:
        rep.finding('ctypes', 'argtypes', m.relpath,
                    f"only {n_ptr} array arguments of convolveNd_c are declared with their type and "
                    'layout, 5 are expected')


# ------------------------------------------------ element type of fresh outputs
def outputs(rep, p):
    """arrays that take the element type of an argument and are then given fractional values"""
    a = Abs(p, rep)
    for q, f in sorted(p.functions.items()):
        if f.is_lambda or not (f.public or f.name == '__init__'):
            continue
        likes = {}

        def scan_likes():
            for n in par.own(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(
                        n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    c = n.value
                    nm = last(c.func)
                    if nm not in ('empty_like', 'zeros_like', 'ones_like', 'full_like'):
                        continue
                    if any(k.arg == 'dtype' for k in c.keywords) or len(c.args) > (
                            2 if nm == 'full_like' else 1):
                        continue
                    if c.args and isinstance(c.args[0], ast.Name):
                        likes.setdefault(n.targets[0].id, []).append((nm, c.args[0].id, n))
        scan_likes()
        if not likes:
            continue
        w = Walk(a, f)
        w.env = {x: NO for x in f.all_params}
        state = {}

        class W2(Walk):
            def stmt(self, s):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                        s.targets[0], ast.Name) and s.targets[0].id in likes:
                    for nm, src, node in likes[s.targets[0].id]:
                        if node is s:
                            state[id(node)] = self.env.get(src, NO)[1]
                super().stmt(s)
        w2 = W2(a, f)
        w2.env = {x: NO for x in f.all_params}
        w2.go()
        for name, lst in likes.items():
            for nm, src, node in lst:
                rep.count('arrays allocated like another')
                if state.get(id(node)) or src not in f.all_params and not from_param(f, src):
                    continue
                hit = filled(a, f, w2, name, nm)
                if hit is not None:
                    yield f, node, name, (f"{f.qual}: {name} takes the element type of {src}, which "
                                          "the caller chooses, and is then given fractional "
                                          "values: integer input is truncated")


def from_param(f, name, depth=0):
    """a name that is a parameter seen through asarray, slicing or attribute-free views"""
    if name in f.all_params:
        return True
    ds = par.definitions(f).get(name, ())
    if not ds or depth > 4:
        return False
    for v in ds:
        while True:
            if isinstance(v, ast.Subscript):
                v = v.value
            elif isinstance(v, ast.Call) and last(v.func) in (
                    'asarray', 'atleast_1d', 'atleast_2d', 'ravel', 'flatten', 'squeeze',
                    'ascontiguousarray', 'array') and not any(
                    k.arg == 'dtype' for k in v.keywords) and len(v.args) <= 1:
                v = v.args[0] if v.args else v.func.value
            else:
                break
        if not (isinstance(v, ast.Name) and from_param(f, v.id, depth + 1)):
            return False
    return True


def filled(a, f, w, name, nm):
    for n in par.own(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                b = t
                sub = False
                while isinstance(b, ast.Subscript):
                    b, sub = b.value, True
                if isinstance(b, ast.Name) and b.id == name and sub:
                    if not integral(n.value):
                        return n
        if nm == 'empty_like' and isinstance(n, ast.Call):
            g = w.callee(n)
            for i, x in enumerate(n.args):
                if isinstance(x, ast.Name) and x.id == name and g is not None:
                    return n
    return None


def integral(v):
    if isinstance(v, ast.Constant):
        return isinstance(v.value, (int, bool))
    if isinstance(v, (ast.Compare, ast.BoolOp)):
        return True
    if isinstance(v, ast.UnaryOp):
        return integral(v.operand)
    if isinstance(v, ast.Call):
        return last(v.func) in ('isnan', 'int', 'len', 'isfinite', 'logical_and', 'logical_or',
                                'packbits', 'astype', 'bool', 'round', 'floor', 'ceil',
                                'searchsorted', 'logical_not', 'isin')
    if isinstance(v, ast.Subscript):
        return True            # elements of another array keep their own kind
    if isinstance(v, ast.Name):
        return True
    return False


def check(rep):
    rep.rule('native', 'every array argument of a call into the C extension is proven C-contiguous '
             '(ascontiguousarray, flatten, order="C", fresh allocation) on every path, and proven '
             'double where the C routine takes the object without checking its type')
    rep.rule('converter', 'the C array converter checks object kind, element type and alignment')
    rep.rule('eigen', 'C++ entry points take Eigen objects by value or constant reference, for '
             'which the binding converts layout and element type')
    rep.rule('ctypes', 'the ctypes prototype of the convolution declares type and C layout of all '
             'arrays')
    rep.rule('output', 'no public function allocates its output with the element type of an '
             'argument and fills it with fractional values')
    p = load()
    native(rep, p)
    cpp(rep, p)
    ctypes_decl(rep, p)
    for f, n, name, msg in outputs(rep, p):
        rep.finding('output', f"{f.qual}|{name}", f.where(n), msg)
    rep.need('C entry points', 12)
    rep.need('calls of C entry points', 12)
    rep.need('array arguments of C entry points', 35)
    rep.need('calls of ctypes functions', 1)
    rep.need('C++ entry points', 9)
    rep.need('arrays allocated like another', 10)
    rep.assumptions.append('NumPy functions return arrays with the layout and type their '
                           'documentation states; strings such as order="C" mean what they say')
