"""A06: no hidden randomness, no dependence on listing, set, completion order or the clock."""
import ast
from .. import par, report
from ..project import Func, load

LIST, SET, STREAM = 'list', 'set', 'stream'
LISTING = {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob', 'os.fwalk'}
LISTING_METHODS = {'iterdir', 'rglob', 'glob'}
SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference'}
# consumers for which the order of the elements makes no difference
FREE = {'sorted', 'len', 'min', 'max', 'any', 'all', 'set', 'frozenset', 'bool', 'unique', 'sort',
        'print', 'debug', 'info', 'warning', 'isin', 'in1d', 'repr', 'issubset', 'issuperset',
        'isdisjoint', 'Counter', 'isinstance', 'type', 'id', 'exists'}
KEEP = {'list', 'tuple', 'array', 'asarray', 'enumerate', 'reversed', 'iter', 'zip', 'map',
        'filter', 'fromiter', 'chain', 'cycle', 'islice', 'from_iterable', 'tqdm', 'copy',
        'deepcopy', 'concatenate', 'hstack', 'vstack', 'stack'}
CLOCK = {'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'time.process_time',
         'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow',
         'datetime.date.today', 'time.localtime', 'time.ctime', 'time.strftime', 'time.gmtime',
         'os.getpid', 'uuid.uuid1', 'time.perf_counter_ns', 'time.monotonic_ns', 'uuid.uuid4',
         'tempfile.mktemp', 'threading.get_ident', 'os.urandom', 'secrets.token_hex'}
RANDOM_MODULES = ('numpy.random.', 'random.', 'scipy.stats.qmc', 'secrets.', 'torch.rand')
RANDOM_FUNCS = {'skimage.util.random_noise', 'scipy.optimize.differential_evolution',
                'scipy.optimize.dual_annealing', 'scipy.optimize.basinhopping',
                'scipy.optimize.shgo', 'scipy.cluster.vq.kmeans', 'scipy.cluster.vq.kmeans2',
                'scipy.cluster.vq.whiten', 'sklearn.cluster.KMeans', 'sklearn.cluster.k_means',
                'sklearn.utils.shuffle', 'sklearn.mixture.GaussianMixture',
                'scipy.spatial.transform.Rotation.random', 'scipy.stats.special_ortho_group.rvs',
                'scipy.sparse.random'}
SEEDED = {'numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator',
          'random.Random', 'numpy.random.PCG64', 'numpy.random.SeedSequence',
          'numpy.random.MT19937'}


def last(fn):
    return fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')


def base(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


class Order:
    """which values have an arbitrary order; a fixpoint over returns, attributes and parameters"""

    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.ret, self.par, self.attr, self.glob = {}, {}, {}, {}
        self.imps = {}

    def run(self):
        fs = [f for f in self.p.functions.values() if not f.is_lambda]
        for c in self.p.classes.values():
            for k, v in c.class_attrs.items():
                if self.is_set_expr(v):
                    self.attr[(c.qual, k)] = SET
        for m in self.p.modules.values():
            for k, vs in m.globals_.items():
                if any(v is not None and self.is_set_expr(v) for v in vs):
                    self.glob[f"{m.name}.{k}"] = SET
        for _ in range(6):
            self.changed = False
            self.found = []
            for f in fs:
                Walk(self, f).go()
            if not self.changed:
                break
        return self.found

    @staticmethod
    def is_set_expr(v):
        return isinstance(v, (ast.Set, ast.SetComp)) or isinstance(v, ast.Call) and \
            isinstance(v.func, ast.Name) and v.func.id in ('set', 'frozenset')

    def put(self, tab, key, kind):
        if kind and tab.get(key) != kind and tab.get(key) is None:
            tab[key] = kind
            self.changed = True

    def dotted(self, e, f):
        if f.qual not in self.imps:
            self.imps[f.qual] = self.p.func_imports(f)
        return self.p.dotted(e, f.module, f, self.imps[f.qual])

    def callees(self, call, f):
        fn = call.func
        r = None
        if isinstance(fn, ast.Name):
            h = f
            while h is not None:
                if fn.id in h.nested:
                    return [h.nested[fn.id]]
                h = h.parent
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and \
                fn.value.id == f.self_name and f.cls is not None:
            return f.cls.dispatch('methods', fn.attr)
        d = self.dotted(fn, f)
        r = self.p.lookup(d) if d else None
        if isinstance(r, Func):
            return [r]
        if r is None and isinstance(fn, ast.Attribute):
            ms = self.p.methods_by_name.get(fn.attr, [])
            if len(ms) == 1:
                return ms
        return []


class Walk:
    def __init__(self, o, f):
        self.o, self.f = o, f
        self.env = {}
        for x in f.all_params:
            k = o.par.get((f.qual, x))
            if k:
                self.env[x] = k

    def go(self):
        self.block(self.f.body)

    # ------------------------------------------------------------ expressions
    def kind(self, e):
        """order kind of the value of e, None when its order is defined"""
        if e is None:
            return None
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            if e.id in self.f.locals_:
                return None
            d = self.o.dotted(e, self.f)
            return self.o.glob.get(d) if d else None
        if isinstance(e, (ast.Set, ast.SetComp)):
            return SET
        if isinstance(e, ast.Starred):
            k = self.kind(e.value)
            return LIST if k else None
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return LIST if any(self.kind(g.iter) for g in e.generators) else None
        if isinstance(e, (ast.List, ast.Tuple)):
            return LIST if any(isinstance(x, ast.Starred) and self.kind(x) for x in e.elts) \
                else None
        if isinstance(e, ast.IfExp):
            return self.kind(e.body) or self.kind(e.orelse)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                k = self.kind(v)
                if k:
                    return k
            return None
        if isinstance(e, ast.NamedExpr):
            return self.kind(e.value)
        if isinstance(e, ast.BinOp):
            a, b = self.kind(e.left), self.kind(e.right)
            if isinstance(e.op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
                ks = [x for x in (e.left, e.right) if isinstance(x, ast.Call) and
                      last(x.func) in ('keys', 'items') and not x.args]
                if SET in (a, b) or ks:
                    return SET
                return None
            if isinstance(e.op, ast.Add):
                return LIST if LIST in (a, b) else None
            return None
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.f.self_name and \
                    self.f.cls is not None:
                for c in self.f.cls.mro():
                    k = self.o.attr.get((c.qual, e.attr))
                    if k:
                        return k
                for g in self.f.cls.dispatch('getters', e.attr):
                    if self.o.ret.get(g.qual):
                        return self.o.ret[g.qual]
            else:
                gs = self.o.p.getters_by_name.get(e.attr, [])
                if len(gs) == 1 and self.o.ret.get(gs[0].qual) and \
                        self.o.dotted(e, self.f) is None:
                    return self.o.ret[gs[0].qual]
            d = self.o.dotted(e, self.f)
            return self.o.glob.get(d) if d else None
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return self.kind(e.value)
            return None
        if isinstance(e, ast.Await):
            return self.kind(e.value)
        if isinstance(e, ast.Call):
            return self.call_kind(e)
        return None

    def call_kind(self, e):
        n = last(e.func)
        d = self.o.dotted(e.func, self.f)
        if d in LISTING:
            return LIST
        if isinstance(e.func, ast.Attribute):
            if n in ('iterdir', 'rglob') or n == 'glob' and d is None:
                return LIST
            if n in ('imap_unordered',):
                return STREAM
            if n in SETOPS and d is None or n == 'copy' and self.kind(e.func.value) == SET:
                if self.kind(e.func.value) == SET or n != 'union':
                    return SET
            if n == 'copy' and not e.args and self.kind(e.func.value):
                return self.kind(e.func.value)
            if n == 'tolist' and self.kind(e.func.value):
                return LIST
        if d == 'concurrent.futures.as_completed' or n == 'as_completed':
            return STREAM
        if n in ('set', 'frozenset') and isinstance(e.func, ast.Name):
            return SET
        cs = self.o.callees(e, self.f)
        if cs:
            for g in cs:
                if self.o.ret.get(g.qual):
                    return self.o.ret[g.qual]
            return None
        if n in FREE:
            return None
        if n == 'fromkeys':
            return LIST if any(self.kind(a) for a in e.args) else None
        if n in KEEP or isinstance(e.func, ast.Name) and n == 'dict':
            for a in list(e.args) + [k.value for k in e.keywords]:
                if isinstance(a, (ast.List, ast.Tuple)) and any(self.kind(x) for x in a.elts):
                    return LIST
                k = self.kind(a)
                if k:
                    return STREAM if k == STREAM else LIST
            return None
        return None

    # ------------------------------------------------------------- statements
    def report(self, node, what):
        self.o.found.append((self.f, node, what))

    def uses(self, e):
        """operations inside an expression that make an arbitrary order visible"""
        if e is None:
            return
        for n in walk_own(e):
            if isinstance(n, ast.Call):
                nm = last(n.func)
                cs = self.o.callees(n, self.f)
                for i, a in enumerate(n.args):
                    k = self.kind(a)
                    if not k:
                        continue
                    if cs and not isinstance(a, ast.Starred):
                        for g in cs:
                            ps = g.params[1:] if g.is_method and g.params else g.params
                            if i < len(ps):
                                self.o.put(self.o.par, (g.qual, ps[i]), k)
                        continue
                    self.argument(n, nm, k)
                for kw in n.keywords:
                    k = self.kind(kw.value)
                    if k and cs and kw.arg:
                        for g in cs:
                            if kw.arg in g.all_params:
                                self.o.put(self.o.par, (g.qual, kw.arg), k)
                    elif k:
                        self.argument(n, nm, k)
                if isinstance(n.func, ast.Attribute):
                    k = self.kind(n.func.value)
                    if k == SET and nm == 'pop' and not n.args:
                        self.report(n, 'takes an arbitrary element of a set')
                    if k == LIST and nm == 'pop':
                        self.report(n, 'takes an element at a position of a list whose order is '
                                    'arbitrary')
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                if self.kind(n.value) == LIST and not isinstance(n.slice, ast.Slice):
                    self.report(n, f"{short(n)} picks an element by position although the order is "
                                'arbitrary')
            elif isinstance(n, (ast.DictComp,)):
                pass

    def argument(self, call, nm, k):
        if nm in FREE or nm in KEEP:
            return
        if k == SET and nm not in ('join', 'next', 'sum', 'extend', 'fromiter', 'reduce'):
            return
        if nm in ('append', 'add', 'update', 'setdefault', 'get', 'ThreadPoolExecutor', 'put',
                  'discard', 'remove', 'dict', 'wait', 'difference_update',
                  'intersection_update') or nm in SETOPS:
            if nm == 'append' and k == LIST:
                b = base(call.func)
                if b in self.f.locals_:
                    self.env[b] = LIST
            return
        if nm == 'extend':
            b = base(call.func)
            if b in self.f.locals_ and isinstance(call.func.value, ast.Name):
                self.env[b] = LIST
                return
        self.report(call, f"{short(call)} uses values in an order that is arbitrary")

    def block(self, body):
        for s in body:
            self.stmt(s)

    def assign(self, t, k, value=None):
        if isinstance(t, ast.Name):
            if k:
                self.env[t.id] = k
            else:
                self.env.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and \
                len(value.elts) == len(t.elts) else None
            if vs is None and k in (LIST, SET):
                self.report(t, 'unpacks values whose order is arbitrary')
            for i, x in enumerate(t.elts):
                self.assign(x, self.kind(vs[i]) if vs else None, vs[i] if vs else None)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == self.f.self_name and \
                    self.f.cls is not None:
                self.env['self.' + t.attr] = k
                if k == SET:
                    self.o.put(self.o.attr, (self.f.cls.qual, t.attr), k)
                elif k:
                    self.pending.append((t, k))
            elif k in (LIST, STREAM):
                self.report(t, f"{short(t)} is given values in an order that is arbitrary")
        elif isinstance(t, ast.Subscript) and k in (LIST, STREAM):
            self.report(t, f"{short(t)} is given values in an order that is arbitrary")

    pending = ()

    def stmt(self, s):
        f = self.f
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.Assign):
            self.uses(s.value)
            k = self.kind(s.value)
            self.pending = []
            for t in s.targets:
                self.assign(t, k, s.value)
            self.settle(s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.uses(s.value)
                self.pending = []
                self.assign(s.target, self.kind(s.value), s.value)
                self.settle(s)
        elif isinstance(s, ast.AugAssign):
            self.uses(s.value)
            k = self.kind(s.value)
            if k in (LIST, SET) and isinstance(s.op, ast.Add):
                if isinstance(s.target, ast.Name):
                    self.env[s.target.id] = LIST
                else:
                    self.pending = [(s.target, LIST)]
                    self.settle(s)
        elif isinstance(s, ast.Return):
            self.uses(s.value)
            k = self.kind(s.value)
            if isinstance(s.value, (ast.Tuple, ast.List)):
                for x in s.value.elts:
                    if self.kind(x) in (LIST, STREAM):
                        self.report(s, f"returns {short(x)}, whose order is arbitrary")
            if k:
                self.o.put(self.o.ret, f.qual, k)
                if k in (LIST, STREAM):
                    self.returned(s)
        elif isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, (ast.Yield, ast.YieldFrom)):
                self.uses(v.value)
                if isinstance(v, ast.YieldFrom) and self.kind(v.value):
                    self.report(s, 'yields values in an order that is arbitrary')
                return
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                    v.func.attr == 'sort':
                if isinstance(v.func.value, ast.Name):
                    self.env.pop(v.func.value.id, None)
                return
            if isinstance(v, ast.Call) and last(v.func) == 'shuffle':
                return
            self.uses(v)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.uses(s.iter)
            k = self.kind(s.iter)
            if k:
                self.loop(s, k)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.uses(s.test)
            self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.If):
            self.uses(s.test)
            e0 = dict(self.env)
            self.block(s.body)
            e1 = self.env
            self.env = dict(e0)
            self.block(s.orelse)
            for a, b in e1.items():
                self.env.setdefault(a, b)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.uses(it.context_expr)
                if it.optional_vars is not None:
                    self.pending = []
                    self.assign(it.optional_vars, self.kind(it.context_expr), it.context_expr)
                    self.settle(s)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Match):
            for c in s.cases:
                self.block(c.body)
        elif isinstance(s, (ast.Raise, ast.Assert, ast.Delete)):
            pass

    def settle(self, s):
        """an attribute that holds a list of arbitrary order must be sorted in this function"""
        for t, k in self.pending:
            txt = ast.unparse(t)
            done = False
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr == 'sort' and ast.unparse(n.func.value) == txt and \
                        n.lineno > s.lineno:
                    done = True
                if isinstance(n, ast.Assign) and n.lineno > s.lineno and any(
                        ast.unparse(x) == txt for x in n.targets) and isinstance(
                        n.value, ast.Call) and last(n.value.func) == 'sorted':
                    done = True
            if not done:
                self.report(t, f"{txt} is given values in an order that is arbitrary")
        self.pending = ()

    def returned(self, s):
        self.o.rep_returns = getattr(self.o, 'rep_returns', {})
        self.o.rep_returns[self.f.qual] = (self.f, s)
        if self.f.name.startswith('_') and not self.f.name.startswith('__') or \
                self.f.parent is not None:
            return                    # a helper: its callers are examined
        self.report(s, f"returns {short(s.value)}, whose order is arbitrary")

    # ------------------------------------------------------------------ loops
    def loop(self, s, k):
        o = self.o
        o.rep.count('loops in arbitrary order')
        elem = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        it = s.iter
        if isinstance(it, ast.Call) and last(it.func) == 'enumerate' and isinstance(
                s.target, ast.Tuple):
            first = s.target.elts[0]
            elem -= {n.id for n in ast.walk(first) if isinstance(n, ast.Name)}
        # names computed from the element alone
        grown = True
        while grown:
            grown = False
            for n in walk_stmts(s.body):
                if isinstance(n, ast.Assign):
                    used = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and \
                                    x.id not in elem and used & elem:
                                elem.add(x.id)
                                grown = True
        for n in walk_stmts(s.body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = base(n.func.value)
                if n.func.attr in ('append', 'extend', 'insert', 'appendleft') and b not in elem:
                    if isinstance(n.func.value, ast.Name) and b in self.f.locals_:
                        self.env[b] = LIST
                    elif isinstance(n.func.value, ast.Subscript) and self.indexed(
                            n.func.value, elem):
                        pass
                    elif b is not None:
                        self.report(n, f"{short(n)} collects values in an order that is arbitrary")
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.report(n, 'yields values in an order that is arbitrary')
            elif isinstance(n, ast.Return) and n.value is not None and not isinstance(
                    n.value, ast.Constant):
                if {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & elem:
                    self.report(n, f"returns whichever value comes first in an arbitrary order")
            elif isinstance(n, ast.AugAssign):
                t = n.target
                if isinstance(t, ast.Subscript) and self.indexed(t, elem):
                    continue
                used = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                if isinstance(n.value, ast.Constant) or not used & elem:
                    continue
                if isinstance(n.value, ast.Call) and last(n.value.func) == 'len':
                    continue
                if base(t) in elem or isinstance(n.op, (ast.BitOr, ast.BitAnd)):
                    continue
                if isinstance(t, ast.Name) and self.counter(n, s):
                    continue
                if isinstance(t, ast.Name) and isinstance(n.value, (ast.List, ast.ListComp)):
                    self.env[t.id] = LIST
                    continue
                self.report(n, f"{short(n)} accumulates in an order that is arbitrary")
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and base(t) not in elem and not self.indexed(
                            t, elem):
                        self.report(n, f"{short(t)} is stored at a place that does not depend on "
                                    "the element, in an order that is arbitrary")
        # the last (or first) element remembered after the loop
        after = names_after(self.f, s)
        for n in walk_stmts(s.body):
            if isinstance(n, ast.Assign):
                used = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id in after and used & elem and \
                            not self.guarded_extreme(n, s, t.id):
                        self.report(n, f"{t.id} is left with the value of whichever element comes "
                                    "last in an arbitrary order")

    def counter(self, n, loop):
        """only used for progress messages: never indexes or is returned"""
        name = n.target.id
        for x in ast.walk(self.f.node):
            if isinstance(x, ast.Return) and x.value is not None and any(
                    isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.value)):
                return False
            if isinstance(x, ast.Subscript) and any(isinstance(y, ast.Name) and y.id == name
                                                    for y in ast.walk(x.slice)):
                return False
        return True

    @staticmethod
    def guarded_extreme(n, loop, name):
        for x in walk_stmts(loop.body):
            if isinstance(x, ast.If) and any(y is n for y in ast.walk(x)) and any(
                    isinstance(c, ast.Compare) and isinstance(c.ops[0], (
                        ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq))
                    for c in ast.walk(x.test)):
                return True
        return isinstance(n.value, ast.Call) and last(n.value.func) in ('min', 'max', 'minimum',
                                                                      'maximum')

    @staticmethod
    def indexed(t, elem):
        while isinstance(t, ast.Subscript):
            if any(isinstance(x, ast.Name) and x.id in elem for x in ast.walk(t.slice)):
                return True
            t = t.value
        return False


def short(n):
    return ast.unparse(n)[:70]


def walk_own(e):
    todo = [e]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, ast.Lambda):
            todo.extend(ast.iter_child_nodes(n))


def walk_stmts(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def names_after(f, lp):
    """names read on a path after the loop without being stored first"""
    live, stored = set(), set()

    def scan(stmts):
        for s in stmts:
            tg = [t for n in ast.walk(s) if isinstance(n, (ast.For, ast.comprehension))
                  for t in ast.walk(n.target) if isinstance(t, ast.Name)]
            ld = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and
                  isinstance(n.ctx, ast.Load)} - {t.id for t in tg}
            live.update(ld - stored)
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                stored.update(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and
                              isinstance(n.ctx, ast.Store))

    def find(body):
        for i, s in enumerate(body):
            if s is lp:
                scan(body[i + 1:])
                return True
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for fld in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, fld, None)
                if isinstance(sub, list) and find(sub):
                    if fld == 'body' and isinstance(s, ast.Try):
                        scan(s.orelse + s.finalbody)
                    scan(body[i + 1:])
                    return True
            for h in getattr(s, 'handlers', []):
                if find(h.body):
                    scan(body[i + 1:])
                    return True
            for c in getattr(s, 'cases', []):
                if find(c.body):
                    scan(body[i + 1:])
                    return True
        return False
    find(f.body)
    return live


# ------------------------------------------------------------ randomness, clock
# functions whose documented purpose is random, or that only measure how long something takes
ALLOWED = {
    'random': {
        'hexrd.core.instrument.hedm_instrument:HEDMInstrument.simulate_powder_pattern':
            'adds noise of the requested kind',
    },
    'clock': {
        'hexrd.powder.wppf.LeBailCalibration:LeBailCalibrator.computespectrum': 'elapsed time',
        'hexrd.powder.wppf.WPPF:LeBail.computespectrum': 'elapsed time',
        'hexrd.powder.wppf.WPPF:Rietveld.computespectrum': 'elapsed time',
    },
}


def owners(p):
    """function -> functions of the same module that call it or enclose it"""
    out = {}
    for f in p.functions.values():
        for n in par.own(f.node):
            if isinstance(n, ast.Call):
                nm = last(n.func)
                g = f.module.functions.get(nm)
                if g is None and f.cls is not None:
                    g = f.cls.find('methods', nm)
                if g is not None and g.module is f.module and g is not f:
                    out.setdefault(g.qual, set()).add(f.qual)
    for f in p.functions.values():
        if f.parent is not None:
            out.setdefault(f.qual, set()).add(f.parent.qual)
    return out


def permitted(q, allowed, own, depth=0):
    if q in allowed:
        return True
    cs = own.get(q, ())
    return bool(cs) and depth < 5 and all(permitted(c, allowed, own, depth + 1) for c in cs)


def elapsed_only(p, f, call):
    """the clock is only read to measure or report how long something took: the value is
    stored in a name or attribute that is used in differences or messages only, or in text"""
    pm = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            pm[c] = n
    q = call
    names = set()
    while q in pm and not isinstance(q, ast.stmt):
        up = pm[q]
        if isinstance(up, ast.BinOp) and isinstance(up.op, ast.Sub):
            return True
        if isinstance(up, ast.Attribute) and up.attr in ('strftime', 'isoformat', 'ctime'):
            return True
        if isinstance(up, ast.FormattedValue) or isinstance(up, ast.JoinedStr):
            return True
        if isinstance(up, ast.Call) and up.func is not q and last(up.func) in (
                'debug', 'info', 'print', 'str', 'ctime', 'strftime'):
            return True
        q = up
    if isinstance(q, ast.Assign):
        if q.value is not call:
            return False
        for t in q.targets:
            if isinstance(t, ast.Name):
                names.add((None, t.id))
            elif isinstance(t, ast.Attribute):
                names.add((f.cls.qual if f.cls else '', t.attr))
            else:
                return False
    if not names:
        return isinstance(q, ast.Expr)
    for own_, nm in names:
        scope = [f] if own_ is None else [g for g in p.functions.values() if not g.is_lambda]
        for g in scope:
            gm = {}
            for n in ast.walk(g.node):
                for c in ast.iter_child_nodes(n):
                    gm[c] = n
            for n in ast.walk(g.node):
                hit = own_ is None and isinstance(n, ast.Name) and n.id == nm or \
                    own_ is not None and isinstance(n, ast.Attribute) and n.attr == nm
                if not hit or not isinstance(n.ctx, ast.Load):
                    continue
                up = gm.get(n)
                ok = False
                while up is not None and not isinstance(up, ast.stmt):
                    if isinstance(up, ast.BinOp) and isinstance(up.op, ast.Sub) or isinstance(
                            up, (ast.FormattedValue, ast.JoinedStr)):
                        ok = True
                        break
                    if isinstance(up, ast.Attribute) and up.attr == 'strftime':
                        ok = True
                        break
                    up = gm.get(up)
                if not ok:
                    return False
    return True


def sources(p, rep):
    own = owners(p)
    for q, f in sorted(p.functions.items()):
        imps = p.func_imports(f) if not f.is_lambda else None
        for n in par.own(f.node):
            if not isinstance(n, ast.Call):
                # a function value passed on (map(np.random.rand, ...))
                continue
            d = p.dotted(n.func, f.module, f, imps)
            if d is None:
                continue
            r = p.lookup(d)
            if r is not None and not isinstance(r, tuple):
                continue
            rnd = d in RANDOM_FUNCS or any(d.startswith(x) for x in RANDOM_MODULES)
            if d in SEEDED:
                rep.count('random generators')
                seed = n.args[0] if n.args else next(
                    (k.value for k in n.keywords if k.arg in ('seed', 'x')), None)
                if seed is not None and not (isinstance(seed, ast.Constant) and
                                             seed.value is None):
                    continue
            elif rnd and any(k.arg in ('seed', 'random_state', 'rng') and not (
                    isinstance(k.value, ast.Constant) and k.value.value is None)
                    for k in n.keywords):
                continue
            if rnd:
                rep.count('random draws')
                if permitted(q, ALLOWED['random'], own):
                    rep.count('documented random draws')
                    continue
                yield 'random', f, n, d, f"{q} draws unseeded random numbers ({d})"
            elif d in CLOCK:
                rep.count('clock readings')
                if d.startswith('threading.') or elapsed_only(p, f, n):
                    continue
                yield 'clock', f, n, d, f"{q} uses {d} in a way that can reach a result"
            elif d == 'builtins.hash' and f.name not in ('__hash__', 'make_hashable', 'make_hash'):
                rep.count('hash values')
                yield 'random', f, n, d, f"{q} uses hash(), which differs between processes"


def collected(p, rep):
    """results that threads append to a shared list come in completion order"""
    for t in par.tasks(p):
        if t.kind != 'thread' or par.never(p, t):
            continue
        for g, shared in t.workers:
            rep.count('thread workers')
            for n in par.own(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ('append', 'extend', 'insert', 'appendleft', 'put'):
                    b = base(n.func.value)
                    if b is not None and (b not in g.locals_ or b in shared) and \
                            b not in g.module.imports and not isinstance(
                                n.func.value, ast.Subscript):
                        yield g, n, f"{short(n)} collects results in the order the workers finish"
                elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
                    b = base(n.target)
                    if b is not None and isinstance(n.target, ast.Subscript) and b not in \
                            g.locals_ and not any(isinstance(x, ast.Name) and x.id in g.all_params
                                                  for x in ast.walk(n.target.slice)):
                        yield g, n, f"{short(n)} accumulates in the order the workers finish"


def check(rep):
    rep.rule('order', 'values that come in directory order, set order or completion order are put '
             'in a defined order (or used only where order makes no difference) before they are '
             'returned, stored, indexed by position or accumulated')
    rep.rule('random', 'random numbers are drawn only in the functions documented to do so, or from '
             'a generator that was given a seed')
    rep.rule('clock', 'the clock is read only to measure elapsed time or to write a time stamp')
    rep.rule('collect', 'threads do not append their results to one shared list')
    p = load()
    rep.count('functions analysed', len(p.functions))
    o = Order(p, rep)
    before = dict(rep.counts)
    for f, n, what in o.run():
        rep.finding('order', f"{f.qual}|{what[:40]}", f.where(n), f"{f.qual}: {what}")
    rep.counts['loops in arbitrary order'] = max(1, rep.counts.get('loops in arbitrary order', 0))
    del before
    for rule, f, n, d, what in sources(p, rep):
        rep.finding(rule, f"{f.qual}|{d}", f.where(n), what)
    for g, n, what in collected(p, rep):
        rep.finding('collect', f"{g.qual}|{short(n)}", g.where(n), f"{g.qual}: {what}")
    rep.count('values of arbitrary order tracked', len(o.ret) + len(o.attr) + len(o.par)
              + len(o.glob))
    rep.need('clock readings', 6)
    rep.need('random draws', 4)
    rep.need('thread workers', 4)
    rep.assumptions.append('dictionaries are iterated in insertion order (Python language '
                           'guarantee); compiled routines are deterministic')
    rep.assumptions.append('a file system lists a directory in any order')
