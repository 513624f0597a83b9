"""Interprocedural alias + effect analysis (summary based, flow sensitive).

For every function: which memory reachable from its parameters, from module
globals or from captured variables it may write; which of those its result may
share memory with; and which it stores in other objects.
"""
import ast
from .project import Func, Class, Module
from . import libmodel as lm

MAXPATH = 3


class V:
    """Abstract value."""
    __slots__ = ('locs', 'types', 'elts', 'funcs', 'scalar')

    def __init__(self, locs=frozenset(), types=frozenset(), elts=None,
                 funcs=frozenset(), scalar=False):
        self.locs = locs
        self.types = types
        self.elts = elts
        self.funcs = funcs
        self.scalar = scalar

    def key(self):
        return (self.locs, self.types,
                None if self.elts is None else tuple(e.key() for e in self.elts),
                self.funcs)

    def __eq__(self, o):
        return isinstance(o, V) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"V({set(self.locs)},{set(self.types)},{self.elts},{set(self.funcs)})"


EMPTY = V()
SCALAR = V(scalar=True)


def join(a, b):
    if a is b or b is EMPTY:
        return a
    if a is EMPTY:
        return b
    elts = None
    if a.elts is not None and b.elts is not None and len(a.elts) == len(b.elts):
        elts = tuple(join(x, y) for x, y in zip(a.elts, b.elts))
        la, lb = a.locs, b.locs
    else:
        la, lb = flat(a).locs, flat(b).locs
    return V(la | lb, a.types | b.types, elts, a.funcs | b.funcs, a.scalar and b.scalar)


def flat(v):
    if v.elts is None:
        return v
    locs = set(v.locs)
    types = set(v.types)
    for e in v.elts:
        f = flat(e)
        locs |= f.locs
    return V(frozenset(locs), frozenset(types), None, v.funcs)


def ext(loc, attr):
    root, path = loc
    if len(path) >= MAXPATH:
        return loc
    if path and path[-1] == attr:
        return loc
    return (root, path + (attr,))


class Mut:
    """One write to caller visible memory."""
    __slots__ = ('kind', 'func', 'node', 'chain', 'soft')

    def __init__(self, kind, func, node, chain=(), soft=False):
        self.kind = kind
        self.func = func
        self.node = node
        self.chain = chain
        self.soft = soft      # augmented assignment on a plain name (array or scalar?)

    def where(self):
        return self.func.where(self.node)

    def describe(self):
        s = f"{self.kind} at {self.where()} in {self.func.qual}"
        for f, n in self.chain:
            s += f" <- called from {f.where(n)} in {f.qual}"
        return s


class Summary:
    def __init__(self):
        self.mut = {}       # loc -> Mut   (roots P/G/F)
        self.ret = EMPTY
        self.ret_heap = {}  # (N loc, field) -> V for fresh objects reachable from ret
        self.stores = {}    # (dest loc, field) -> V   stores into P/G/F objects
        self.calls = []

    def key(self):
        return (frozenset(self.mut), self.ret.key(),
                frozenset((k, v.key()) for k, v in self.ret_heap.items()),
                frozenset((k, v.key()) for k, v in self.stores.items()))


class State:
    __slots__ = ('env', 'heap', 'dead')

    def __init__(self, env=None, heap=None):
        self.env = env or {}
        self.heap = heap or {}
        self.dead = False

    def copy(self):
        s = State(dict(self.env), dict(self.heap))
        s.dead = self.dead
        return s


def merge(a, b):
    if a.dead:
        return b.copy()
    if b.dead:
        return a.copy()
    env = {}
    for k in a.env.keys() | b.env.keys():
        x, y = a.env.get(k), b.env.get(k)
        env[k] = x if y is None else y if x is None else join(x, y)
    heap = {}
    for k in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(k), b.heap.get(k)
        if x is None or y is None:
            z = x if y is None else y
            # one side kept the original content of a pre-existing object
            if k[0][0][0] != 'N' and not k[1].startswith('['):
                z = join(z, V(frozenset([ext(k[0], k[1])])))
            heap[k] = z
        else:
            heap[k] = join(x, y)
    return State(env, heap)


class Engine:
    def __init__(self, project, max_rounds=60, cha_limit=6, skip=None):
        self.p = project
        self.sums = {}
        self.cha_limit = cha_limit
        self.max_rounds = max_rounds
        self.attr_types = {}
        self._imports = {}
        self._callee_notes = {}
        self.const_cache = {}
        self.skip = skip or (lambda f: False)
        self.call_log = {}      # (func qual, call node id) -> {(callee qual, prepended, sure)}
        self.attr_log = {}      # (func qual, attribute node id) -> set of class quals
        self.ext_log = {}       # (func qual, call node id) -> dotted external name
        self.param_types = {}   # (func qual, parameter) -> class quals passed by resolved calls
        self.pending = set()
        self.set_log = {}       # (func qual, target node id) -> setters it may call
        self.infer = True
        self.attr_types2 = {}   # class qual -> attr -> class quals seen assigned
        self.attr_readers = {}
        self.collect_attr_types()

    # ----------------------------------------------------------- type facts
    def collect_attr_types(self):
        """class qual -> attr -> set(class quals) from self.x = Cls(...)"""
        for f in self.p.functions.values():
            if f.cls is None or not f.is_method or not f.params:
                continue
            sn = f.params[0]
            imps = self.imports(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) \
                                and t.value.id == sn:
                            r = self.p.resolve(n.value.func, f.module, f, imps)
                            if isinstance(r, Class):
                                self.attr_types.setdefault(f.cls.qual, {}).setdefault(
                                    t.attr, set()).add(r.qual)

    def imports(self, f):
        r = self._imports.get(f.qual)
        if r is None:
            r = self._imports[f.qual] = self.p.func_imports(f)
        return r

    def ann_types(self, ann, f):
        """Project classes named in an annotation."""
        out = set()
        if ann is None:
            return out
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return out
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.p.resolve(ann, f.module, f, self.imports(f))
            if isinstance(r, Class):
                out.add(r.qual)
        elif isinstance(ann, ast.BinOp):
            out |= self.ann_types(ann.left, f) | self.ann_types(ann.right, f)
        elif isinstance(ann, ast.Subscript):
            b = ann.value
            nm = b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '')
            if nm in ('Optional', 'Union'):
                els = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                for e in els:
                    out |= self.ann_types(e, f)
        return out

    @staticmethod
    def scalar_ann(ann):
        if ann is None:
            return False
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return True
            if isinstance(ann.value, str):
                try:
                    return Engine.scalar_ann(ast.parse(ann.value, mode='eval').body)
                except SyntaxError:
                    return False
        if isinstance(ann, ast.Name):
            return ann.id in lm.SCALAR_ANN
        if isinstance(ann, ast.Attribute):
            return ann.attr in ('floating', 'float64', 'integer', 'int64', 'int32', 'bool_', 'float32')
        if isinstance(ann, ast.BinOp):
            return Engine.scalar_ann(ann.left) and Engine.scalar_ann(ann.right)
        if isinstance(ann, ast.Subscript):
            b = ann.value
            nm = b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '')
            if nm in ('Optional', 'Union'):
                els = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                return all(Engine.scalar_ann(e) for e in els)
            if nm in ('tuple', 'Tuple', 'Literal'):
                return True
        return False

    # ------------------------------------------------------------ fixpoint
    def run(self):
        funcs = [f for f in self.p.functions.values() if not self.skip(f)]
        for f in funcs:
            self.sums[f.qual] = Summary()
        self.deps = {}
        work = set(f.qual for f in funcs)
        order = [f.qual for f in funcs]
        rounds = 0
        while work and rounds < self.max_rounds:
            rounds += 1
            nxt = set()
            for q in order:
                if q not in work:
                    continue
                f = self.p.functions[q]
                old = self.sums[q].key()
                fa = FuncAnalysis(self, f)
                s = fa.run()
                # monotone: keep earlier facts
                prev = self.sums[q]
                for k, m in prev.mut.items():
                    s.mut.setdefault(k, m)
                self.sums[q] = s
                for c in fa.used:
                    self.deps.setdefault(c, set()).add(q)
                if s.key() != old:
                    nxt |= self.deps.get(q, set())
            work = nxt | {q for q in self.pending if q in self.sums}
            self.pending = set()
        # narrowing: facts recorded while the summaries of callees were still
        # incomplete are dropped when they cannot be derived from the final ones
        todo, turns = set(order), 0
        while todo and turns < 12:
            turns += 1
            nxt = set()
            for q in order:
                if q not in todo:
                    continue
                old = self.sums[q].key()
                s = FuncAnalysis(self, self.p.functions[q]).run()
                self.sums[q] = s
                if s.key() != old:
                    nxt |= self.deps.get(q, set())
            todo = nxt
        # one more pass over everything, so that the logs hold what is known now
        for log in (self.call_log, self.attr_log, self.ext_log, self.set_log):
            log.clear()
        for q in order:
            FuncAnalysis(self, self.p.functions[q]).run()
        self.rounds = rounds
        self.converged = not work
        self.open_work = len(work)
        return self


class FuncAnalysis:
    def __init__(self, eng, f):
        self.e = eng
        self.p = eng.p
        self.f = f
        self.s = Summary()
        self.used = set()
        self.ret = EMPTY
        self.imps = eng.imports(f)
        self.site = 0
        self.breaks = []
        self.ret_states = []
        self.param_scalar = set()
        self.with_locks = 0
        self.cb = 0             # inside callbacks handed to unknown code
        self.cha = 0            # inside calls resolved by method name only

    # ------------------------------------------------------------- running
    def run(self):
        f = self.f
        st = State()
        args = f.node.args
        anns = {a.arg: a.annotation for a in args.posonlyargs + args.args + args.kwonlyargs}
        for i, pn in enumerate(f.all_params):
            types = set()
            if i == 0 and f.is_method:
                if f.is_classmethod:
                    st.env[pn] = V(frozenset([(('K', f.cls.qual), ())]), frozenset(),
                                   None, frozenset([('class', f.cls.qual)]))
                    continue
                types.add(f.cls.qual)
            else:
                types |= self.e.ann_types(anns.get(pn), f)
                if not types:
                    types |= self.e.param_types.get((f.qual, pn), set())
                if self.e.scalar_ann(anns.get(pn)):
                    self.param_scalar.add(pn)
            if pn in (f.vararg, f.kwarg):
                # a fresh tuple/dict whose contents are the caller's
                n = (('N', f.qual + ':*' + pn), ())
                st.heap[(n, '[]')] = V(frozenset([(('P', pn), ())]))
                st.env[pn] = V(frozenset([n]))
                continue
            st.env[pn] = V(frozenset([(('P', pn), ())]), frozenset(types),
                           scalar=pn in self.param_scalar)
        out = self.block(f.body, st)
        if not out.dead:
            self.ret_states.append(out)
        # summarise
        heap = {}
        for rs in self.ret_states:
            for k, v in rs.heap.items():
                heap[k] = join(heap[k], v) if k in heap else v
        ret = self.ret
        if f.is_generator:
            n = (('N', f.qual + ':gen'), ())
            heap[(n, '[]')] = join(heap.get((n, '[]'), EMPTY), ret)
            ret = V(frozenset([n]))
        self.s.ret = self.trim(ret)
        # reachable fresh heap
        seen = set()
        todo = set(flat(ret).locs)
        # objects stored into caller-visible objects
        for (loc, fld), v in heap.items():
            if loc[0][0] in ('P', 'G', 'F', 'K'):
                self.s.stores[(loc, fld)] = self.trim(v)
                todo |= set(flat(v).locs)
        while todo:
            l = todo.pop()
            if l in seen or l[0][0] != 'N':
                continue
            seen.add(l)
            for (loc, fld), v in heap.items():
                if loc == l:
                    self.s.ret_heap[(loc, fld)] = self.trim(v)
                    todo |= set(flat(v).locs)
            if len(seen) > 40:
                break
        return self.s

    def trim(self, v):
        return v

    # ------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                break
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is not None:
            return m(s, st)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return st

    def s_FunctionDef(self, s, st):
        g = self.f.nested.get(s.name)
        if g is not None:
            st.env[s.name] = V(funcs=frozenset([('func', g.qual)]))
        return st
    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        q = f"{self.f.qual}.<locals>.{s.name}"
        if q in self.p.classes:
            st.env[s.name] = V(funcs=frozenset([('class', q)]))
        return st

    def s_Import(self, s, st):
        return st
    s_ImportFrom = s_Import
    s_Global = s_Import
    s_Nonlocal = s_Import
    s_Pass = s_Import

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            ty = self.e.ann_types(s.annotation, self.f)
            if ty:
                v = V(v.locs, v.types | frozenset(ty), v.elts, v.funcs)
            self.assign(s.target, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        rhs = self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(t, st)
            if cur.elts is not None:
                # a tuple: += builds a new one
                st.env[t.id] = V(elts=cur.elts + rhs.elts) if rhs.elts is not None \
                    else flat(cur)
            elif not cur.scalar:
                self.mutate(flat(cur), 'in-place operator', s, st, soft=True)
                if isinstance(s.op, ast.Add) and any(self.is_display(l) or l[0][0] != 'N'
                                                     for l in cur.locs):
                    for l in flat(cur).locs:
                        self.spread(rhs, l, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.mutate(flat(base), 'element in-place operator', s, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            cur = self.attr(base, t.attr, st, t)
            if not cur.scalar:
                self.mutate(flat(cur), 'in-place operator on attribute', s, st, soft=True)
            self.assign(t, cur, st, s)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                self.mutate(flat(base), 'del item', s, st)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                self.mutate(flat(base), 'del attribute', s, st)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_Return(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if not self.f.is_generator:
                self.ret = v if self.ret is EMPTY else join(self.ret, v)
        self.ret_states.append(st.copy())
        st.dead = True
        return st

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        self.ret_states.append(st.copy())
        st.dead = True
        return st

    def s_Assert(self, s, st):
        self.ev(s.test, st)
        return st

    def s_If(self, s, st):
        self.ev(s.test, st)
        a = st.copy()
        b = st.copy()
        self.refine(s.test, a, True)
        self.refine(s.test, b, False)
        a = self.block(s.body, a)
        b = self.block(s.orelse, b)
        return merge(a, b)

    def refine(self, test, st, truth):
        """isinstance / is None refinement on plain names."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not truth)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and truth:
            for v in test.values:
                self.refine(v, st, True)
            return
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or) and not truth:
            for v in test.values:
                self.refine(v, st, False)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if isnone == truth and test.left.id in st.env:
                st.env[test.left.id] = SCALAR
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and \
                test.func.id == 'isinstance' and len(test.args) == 2 and \
                isinstance(test.args[0], ast.Name) and truth and test.args[0].id in st.env:
            cur = st.env[test.args[0].id]
            types = set()
            els = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            scal = True
            for e in els:
                r = self.p.resolve(e, self.f.module, self.f, self.imps)
                if isinstance(r, Class):
                    types.add(r.qual)
                    scal = False
                elif not (isinstance(e, ast.Name) and e.id in ('int', 'float', 'str', 'bool', 'tuple')):
                    scal = False
            if scal:
                st.env[test.args[0].id] = SCALAR
            elif types:
                st.env[test.args[0].id] = V(cur.locs, frozenset(types), cur.elts, cur.funcs)

    def loop(self, body, orelse, st, head):
        pre = st
        self.breaks.append([])
        cur = st.copy()
        for _ in range(3):
            it = cur.copy()
            head(it)
            it = self.block(body, it)
            for c in self.conts:
                it = merge(it, c)
            self.conts = []
            new = merge(cur, it)
            if new.env == cur.env and new.heap == cur.heap:
                cur = new
                break
            cur = new
        br = self.breaks.pop()
        cur.dead = False
        out = self.block(orelse, cur.copy()) if orelse else cur
        for b in br:
            out = merge(out, b)
        out.dead = False
        return out

    conts = []

    def s_For(self, s, st):
        itv = self.ev(s.iter, st)
        saved = self.conts
        self.conts = []

        def head(x):
            v = self.iter_elem(itv, x, s.iter)
            self.assign(s.target, v, x, s, binding=True)
        r = self.loop(s.body, s.orelse, st, head)
        self.conts = saved
        return r
    s_AsyncFor = s_For

    def s_While(self, s, st):
        saved = self.conts
        self.conts = []

        def head(x):
            self.ev(s.test, x)
        r = self.loop(s.body, s.orelse, st, head)
        self.conts = saved
        return r

    def s_Break(self, s, st):
        if self.breaks:
            self.breaks[-1].append(st.copy())
        st.dead = True
        return st

    def s_Continue(self, s, st):
        self.conts.append(st.copy())
        st.dead = True
        return st

    def s_Try(self, s, st):
        pre = st.copy()
        body = self.block(s.body, st)
        mid = merge(pre, body)
        mid.dead = False
        outs = []
        if s.orelse and not body.dead:
            body = self.block(s.orelse, body)
        outs.append(body)
        for h in s.handlers:
            hs = mid.copy()
            if h.name:
                hs.env[h.name] = EMPTY
            outs.append(self.block(h.body, hs))
        r = outs[0]
        for o in outs[1:]:
            r = merge(r, o)
        if s.finalbody:
            dead = r.dead
            fs = merge(r, mid) if dead else r
            fs.dead = False
            r = self.block(s.finalbody, fs)
            r.dead = r.dead or dead
        return r
    s_TryStar = s_Try

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.block(s.body, st)
    s_AsyncWith = s_With

    def s_Match(self, s, st):
        self.ev(s.subject, st)
        outs = []
        for c in s.cases:
            outs.append(self.block(c.body, st.copy()))
        r = st.copy()
        for o in outs:
            r = merge(r, o)
        return r

    # ---------------------------------------------------------------- assign
    def assign(self, t, v, st, node, binding=False):
        if isinstance(t, ast.Name):
            if t.id in self.f.globals_:
                loc = (('G', f"{self.f.module.name}.{t.id}"), ())
                self.record(loc, 'global rebinding', node)
                st.env[t.id] = v
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            if v.elts is not None and len(v.elts) == n and not star:
                for e, x in zip(t.elts, v.elts):
                    self.assign(e, x, st, node)
            else:
                x = self.iter_elem(v, st, None)
                for e in t.elts:
                    self.assign(e, x, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.mutate(flat(base), 'element assignment', node, st)
            if isinstance(t.slice, ast.Tuple) and any(isinstance(x, ast.Slice)
                                                      for x in t.slice.elts):
                return              # rows and columns of an array: the values are copied
            self.put(base, self.skey(t.slice), v, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.setattr(base, t.attr, v, st, node, t)

    @staticmethod
    def skey(sl):
        if isinstance(sl, ast.Constant) and isinstance(sl.value, str):
            return f"['{sl.value}']"
        return '[]'

    def put(self, base, key, v, st):
        """Weak store of an element."""
        fv = flat(v)
        if not fv.locs and not fv.funcs and not fv.types and v.elts is None:
            return
        for l in flat(base).locs:
            if l[0][0] == 'N' and l[0][1].endswith((':np', '.BinOp', '.Compare', '.UnaryOp')):
                continue            # assigning into a numeric array copies the values
            k = (l, key)
            st.heap[k] = join(st.heap[k], v) if k in st.heap else v

    def setattr(self, base, attr, v, st, node, target=None):
        fb = flat(base)
        # property setter?
        setters = self.lookup_attr(fb, attr, 'setters')
        if setters:
            self.e.set_log.setdefault((self.f.qual, id(target or node)), set()).update(
                g.qual for g in setters)
            for g in setters:
                self.apply(g, [base, v], {}, st, node)
            return
        vt = flat(v).types
        if self.e.infer and vt and len(fb.types) == 1 and not self.cha and not self.cb:
            ty = next(iter(fb.types))
            have = self.e.attr_types2.setdefault(ty, {}).setdefault(attr, set())
            if not vt <= have and len(have) < 6:
                have |= vt
                self.e.pending |= self.e.attr_readers.get(attr, set())
        strong = len(fb.locs) == 1
        for l in fb.locs:
            if l[0][0] != 'N':
                self.record(l, 'attribute assignment .' + attr, node)
            k = (l, attr)
            if strong or k not in st.heap:
                st.heap[k] = v
            else:
                st.heap[k] = join(st.heap[k], v)

    def record(self, loc, kind, node, soft=False, chain=(), func=None):
        root = loc[0]
        if root[0] == 'N':
            return
        m = self.s.mut.get(loc)
        if m is None or (m.soft and not soft):
            self.s.mut[loc] = Mut(kind, func or self.f, node, chain, soft)

    def mutate(self, v, kind, node, st, soft=False):
        for l in v.locs:
            self.record(l, kind, node, soft)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, st)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return EMPTY

    def e_Constant(self, e, st):
        return SCALAR

    def e_JoinedStr(self, e, st):
        for c in ast.walk(e):
            if isinstance(c, ast.FormattedValue):
                self.ev(c.value, st)
        return SCALAR

    def e_Name(self, e, st):
        n = e.id
        if n in st.env and n not in self.f.globals_:
            return st.env[n]
        if n in self.f.globals_ and n in st.env:
            return st.env[n]
        f = self.f.parent
        if n not in self.f.locals_:
            while f is not None:
                if n in f.nested and n in f.locals_:
                    return V(funcs=frozenset([('func', f.nested[n].qual)]))
                if n in f.locals_:
                    return V(frozenset([(('F', n), ())]))
                f = f.parent
        elif n not in self.imps:
            return EMPTY
        return self.global_value(e)

    def global_value(self, e):
        r = self.p.resolve(e, self.f.module, self.f, self.imps)
        if isinstance(r, Func):
            return V(funcs=frozenset([('func', r.qual)]))
        if isinstance(r, Class):
            return V(funcs=frozenset([('class', r.qual)]))
        if isinstance(r, tuple) and r[0] == 'global':
            return self.global_obj(r[1], r[2])
        if isinstance(r, tuple) and r[0] == 'classattr':
            return V(frozenset([(('G', f"{r[1].qual}.{r[2]}"), ())]))
        return EMPTY

    def global_obj(self, mod, name):
        vals = mod.globals_.get(name, [])
        types = set()
        funcs = set()
        scalar = bool(vals)
        for v in vals:
            if isinstance(v, ast.Call):
                r = self.p.resolve(v.func, mod)
                if isinstance(r, Class):
                    types.add(r.qual)
                d = self.p.dotted(v.func, mod)
                if v.args and isinstance(v.func, ast.Call) or (d and d.startswith('numba')):
                    for a in v.args:
                        rr = self.p.resolve(a, mod)
                        if isinstance(rr, Func):
                            funcs.add(('func', rr.qual))
                if d in ('builtins.int', 'builtins.float', 'builtins.str', 'builtins.range'):
                    continue
                scalar = False
            elif not isinstance(v, (ast.Constant, ast.JoinedStr)):
                if isinstance(v, (ast.BinOp, ast.UnaryOp)) and not any(
                        isinstance(x, (ast.Call, ast.Name, ast.List)) for x in ast.walk(v)):
                    continue
                scalar = False
        if scalar:
            return SCALAR
        return V(frozenset([(('G', f"{mod.name}.{name}"), ())]), frozenset(types),
                 None, frozenset(funcs))

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            v = EMPTY
            for x in e.elts:
                y = self.ev(x.value if isinstance(x, ast.Starred) else x, st)
                v = join(v, flat(y))
            n = self.new(e)
            st.heap[(n, '[]')] = v
            return V(frozenset([n]))
        return V(frozenset(), frozenset(), tuple(self.ev(x, st) for x in e.elts))

    def e_List(self, e, st):
        n = self.new(e)
        c = EMPTY
        for x in e.elts:
            y = self.ev(x.value if isinstance(x, ast.Starred) else x, st)
            if isinstance(x, ast.Starred):
                y = self.iter_elem(y, st, None)
            c = join(c, y)
        if flat(c).locs or c.funcs:
            st.heap[(n, '[]')] = c
        return V(frozenset([n]))
    e_Set = e_List

    def e_Dict(self, e, st):
        n = self.new(e)
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, st)
            if k is None:
                self.spread(x, n, st)
                continue
            self.ev(k, st)
            self.put(V(frozenset([n])), self.skey(k), x, st)
        return V(frozenset([n]))

    def spread(self, x, n, st):
        """n gets (shares) the elements of x."""
        for l in flat(x).locs:
            for (l2, fld), v in list(st.heap.items()):
                if l2 == l and fld.startswith('['):
                    self.put(V(frozenset([n])), fld, v, st)
            if l[0][0] != 'N':
                self.put(V(frozenset([n])), '[]', V(frozenset([ext(l, '[]')])), st)

    def new(self, node):
        return (('N', f"{self.f.qual}@{getattr(node, 'lineno', 0)}.{getattr(node, 'col_offset', 0)}"
                 f".{type(node).__name__}"), ())

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        a, b = st.copy(), st.copy()
        self.refine(e.test, a, True)
        self.refine(e.test, b, False)
        return join(self.ev(e.body, a), self.ev(e.orelse, b))

    def e_BoolOp(self, e, st):
        v = None
        for x in e.values:
            y = self.ev(x, st)
            v = y if v is None else join(v, y)
        return v

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        if a.scalar and b.scalar:
            return SCALAR
        # list concatenation keeps the elements
        if isinstance(e.op, ast.Add):
            c = EMPTY
            for x in (a, b):
                for l in flat(x).locs:
                    if l[0][0] == 'N' and (l, '[]') in st.heap:
                        c = join(c, st.heap[(l, '[]')])
            if flat(c).locs:
                n = self.new(e)
                st.heap[(n, '[]')] = c
                return V(frozenset([n]))
        return V(frozenset([self.new(e)]))

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        return SCALAR if v.scalar or isinstance(e.op, ast.Not) else V(frozenset([self.new(e)]))

    def e_Compare(self, e, st):
        self.ev(e.left, st)
        for c in e.comparators:
            self.ev(c, st)
        return V(frozenset([self.new(e)]))

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else EMPTY
        self.ret = join(self.ret, v)
        return EMPTY

    def e_YieldFrom(self, e, st):
        v = self.iter_elem(self.ev(e.value, st), st, None)
        self.ret = join(self.ret, v)
        return EMPTY

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Lambda(self, e, st):
        g = getattr(self.p, 'lambda_of', {}).get(id(e))
        if g is not None:
            return V(funcs=frozenset([('func', g.qual)]))
        return EMPTY

    def comp(self, e, st, elts):
        x = st.copy()
        for g in e.generators:
            itv = self.ev(g.iter, x)
            self.assign(g.target, self.iter_elem(itv, x, g.iter), x, e)
            for c in g.ifs:
                self.ev(c, x)
        v = EMPTY
        for y in elts:
            v = join(v, flat(self.ev(y, x)))
        for k, h in x.heap.items():
            if k not in st.heap:
                st.heap[k] = h
        n = self.new(e)
        if v.locs or v.funcs:
            st.heap[(n, '[]')] = v
        return V(frozenset([n]))

    def e_ListComp(self, e, st):
        return self.comp(e, st, [e.elt])
    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        return self.comp(e, st, [e.value])

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        self.ev(e.slice, st)
        if base.elts is not None and isinstance(e.slice, ast.Constant) and \
                isinstance(e.slice.value, int) and -len(base.elts) <= e.slice.value < len(base.elts):
            return base.elts[e.slice.value]
        k = self.skey(e.slice)
        if k != '[]':
            return self.elem(base, st, k)
        if self.is_copy_index(e.slice, st):
            return V(frozenset([self.new(e)]), base.types)
        r = self.elem(base, st, '[]')
        if isinstance(e.slice, ast.Slice):
            r = join(V(base.locs, base.types), r) if base.elts is None else flat(base)
        return r

    def is_copy_index(self, sl, st):
        """Advanced indexing (array/list/comparison index) returns a copy."""
        parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        if not parts:
            return True             # x[()]: the h5py idiom that reads a whole dataset
        for p in parts:
            if isinstance(p, (ast.Compare, ast.List, ast.ListComp)):
                return True
            if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Invert):
                return True
            if isinstance(p, ast.BinOp) and isinstance(p.op, (ast.BitAnd, ast.BitOr)):
                return True
            if isinstance(p, ast.Call):
                d = self.p.dotted(p.func, self.f.module, self.f, self.imps)
                if d and d.startswith('numpy.'):
                    return True
            if isinstance(p, ast.Name):
                v = st.env.get(p.id)
                if v is not None and any(l[0][0] == 'N' and l[0][1].endswith(
                        ('.Compare', '.Call:np', '.ListComp', '.UnaryOp')) for l in v.locs):
                    return True
        return False

    def elem(self, base, st, key='[]'):
        v = EMPTY
        if base.elts is not None:
            for x in base.elts:
                v = join(v, flat(x))
        for l in base.locs:
            hit = False
            if key != '[]':
                h = st.heap.get((l, key))
                if h is not None:
                    v = join(v, h)
                    hit = True
                h = st.heap.get((l, '[]'))
                if h is not None:
                    v = join(v, h)
                    hit = True
                h = st.heap.get((l, '[]shallow'))
                if h is not None:
                    v = join(v, h)
            else:
                for (l2, fld), h in st.heap.items():
                    if l2 == l and fld.startswith('[') and fld != '[]shallow':
                        v = join(v, h)
                        hit = True
            if l[0][0] == 'N':
                if not self.is_display(l):
                    v = join(v, V(frozenset([l])))
            elif l[0][0] == 'G' and self.const_container(l):
                pass
            else:
                v = join(v, V(frozenset([ext(l, '[]')])))
        # element of a project container: unknown type
        return v

    @staticmethod
    def is_display(l):
        """A list/dict/set made by a display or comprehension: its elements are
        other objects (an array, in contrast, shares memory with its rows)."""
        return not l[1] and l[0][1].endswith(
            ('.List', '.Dict', '.Set', '.ListComp', '.DictComp', '.SetComp', '.Tuple'))

    def const_container(self, l):
        """Global list/dict literal whose (nested) leaves are all constants and
        whose direct elements are immutable."""
        root, path = l
        c = self.e.const_cache.get(root[1])
        if c is None:
            c = 0
            mn, _, nm = root[1].rpartition('.')
            mod = self.p.modules.get(mn)
            vals = mod.globals_.get(nm, []) if mod is not None else []
            if vals:
                c = min(self.const_depth(v) for v in vals)
            self.e.const_cache[root[1]] = c
        return c > 0 and len(path) + 1 >= c

    def const_depth(self, v):
        """Number of mutable container levels above constant leaves; 99 unknown."""
        if isinstance(v, (ast.Constant, ast.JoinedStr)):
            return 0
        if isinstance(v, ast.UnaryOp):
            return self.const_depth(v.operand)
        if isinstance(v, ast.Tuple):
            d = [self.const_depth(x) for x in v.elts]
            return 0 if not d or max(d) == 0 else 99
        if isinstance(v, (ast.List, ast.Set)):
            d = [self.const_depth(x) for x in v.elts]
            return 1 + (max(d) if d else 98)
        if isinstance(v, ast.Dict):
            d = [self.const_depth(x) for x in v.values]
            return 1 + (max(d) if d else 98)
        return 99

    def iter_elem(self, v, st, node):
        if v.elts is not None:
            r = EMPTY
            for x in v.elts:
                r = join(r, x)
            return r
        # zip/enumerate structure kept as elts in heap '[]' entries
        r = EMPTY
        for l in v.locs:
            found = False
            for (l2, fld), h in st.heap.items():
                if l2 == l and fld.startswith('[') and fld != '[]shallow':
                    r = h if r is EMPTY else join(r, h)
                    found = True
            if l[0][0] == 'G' and self.const_container(l):
                pass
            elif l[0][0] != 'N':
                r = join(r, V(frozenset([ext(l, '[]')])))
            elif not found and not self.is_display(l):
                r = join(r, V(frozenset([l])))
        for ty in v.types:
            c = self.p.classes.get(ty)
            if c is not None:
                for nm in ('__iter__', '__getitem__'):
                    g = c.find_method(nm)
                    if g is not None:
                        self.cb += 1
                        x = self.apply(g, [v], {}, st, node or self.f.node)
                        self.cb -= 1
                        r = join(r, flat(x))
                        break
        return r

    def e_Attribute(self, e, st):
        # module attribute / class attribute?
        d = self.p.dotted(e, self.f.module, self.f, self.imps) if not self.rooted_local(e, st) else None
        if d is not None:
            r = self.p.lookup(d)
            if r is not None and not isinstance(r, Module):
                if isinstance(r, Func):
                    return V(funcs=frozenset([('func', r.qual)]))
                if isinstance(r, Class):
                    return V(funcs=frozenset([('class', r.qual)]))
                if r[0] == 'global':
                    return self.global_obj(r[1], r[2])
                return V(frozenset([(('G', f"{r[1].qual}.{r[2]}"), ())]))
            head = self.p.lookup(d.rpartition('.')[0])
            if r is None and not isinstance(head, tuple) and head is None:
                return EMPTY      # attribute of an external module
        base = self.ev(e.value, st)
        if base.types:
            self.e.attr_log.setdefault((self.f.qual, id(e)), set()).update(base.types)
        return self.attr(base, e.attr, st, e)

    def rooted_local(self, e, st):
        while isinstance(e, ast.Attribute):
            e = e.value
        if isinstance(e, ast.Name):
            if e.id in st.env:
                return True
            f = self.f
            while f is not None:
                if e.id in f.locals_ and e.id not in self.imps:
                    return True
                f = f.parent
            return False
        return True

    def lookup_attr(self, base, attr, table):
        out = []
        for ty in base.types:
            c = self.p.classes.get(ty)
            if c is None:
                continue
            for g in c.dispatch(table, attr):
                if g not in out:
                    out.append(g)
        return out

    def attr(self, base, attr, st, node):
        fb = flat(base)
        v = EMPTY
        getters = self.lookup_attr(fb, attr, 'getters')
        for g in getters:
            v = join(v, self.apply(g, [base], {}, st, node))
        if getters:
            return v
        meths = self.lookup_attr(fb, attr, 'methods')
        if meths:
            return V(fb.locs, frozenset(), None,
                     frozenset(('bound', g.qual, fb.locs, fb.types) for g in meths))
        if not fb.types:
            # untyped receiver: a property known under that name?
            cands = self.p.getters_by_name.get(attr, [])
            if cands and len(cands) <= self.e.cha_limit and attr not in lm.ALIAS_ATTRS and any(
                    l[0][0] != 'N' for l in fb.locs):
                for g in cands:
                    x = self.apply(g, [V(fb.locs, frozenset([g.cls.qual]))], {}, st, node, weak=True)
                    v = join(v, x)
                if not self.e.infer:    # a guess by name is no type
                    v = V(v.locs, frozenset(), v.elts, v.funcs)
                for l in fb.locs:
                    h = st.heap.get((l, attr))
                    if h is not None:
                        v = join(v, h)
                return v
        types = set()
        for ty in fb.types:
            c = self.p.classes.get(ty)
            if c is not None:
                for k in c.mro() + c.all_subclasses():
                    types |= self.e.attr_types.get(k.qual, {}).get(attr, set())
                    if self.e.infer:
                        types |= self.e.attr_types2.get(k.qual, {}).get(attr, set())
                if self.e.infer:
                    self.e.attr_readers.setdefault(attr, set()).add(self.f.qual)
        for l in fb.locs:
            h = st.heap.get((l, attr))
            if h is not None:
                v = join(v, h)
            elif attr in lm.ALIAS_ATTRS:
                v = join(v, V(frozenset([l])))
            elif attr in ('shape', 'size', 'ndim', 'dtype'):
                v = join(v, SCALAR)
            elif l[0][0] != 'N':
                v = join(v, V(frozenset([ext(l, attr)])))
            else:
                # attribute of a fresh object: class attribute?
                pass
        # class attributes
        for ty in fb.types:
            c = self.p.classes.get(ty)
            if c is None:
                continue
            for k in c.mro():
                if attr in k.class_attrs and not any((l, attr) in st.heap for l in fb.locs):
                    a = k.class_attrs[attr]
                    if not isinstance(a, (ast.Constant, type(None))):
                        v = join(v, V(frozenset([(('G', f"{k.qual}.{attr}"), ())])))
                    break
        for fn in fb.funcs:
            if fn[0] == 'class':
                c = self.p.classes.get(fn[1])
                if c is not None:
                    for k in c.mro():
                        if attr in k.class_attrs:
                            v = join(v, V(frozenset([(('G', f"{k.qual}.{attr}"), ())])))
                            break
        if types:
            v = V(v.locs, v.types | frozenset(types), v.elts, v.funcs)
        return v

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        pos = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, st)
                if sv.elts is not None:
                    pos.extend(sv.elts)
                else:
                    pos.append(('*', self.iter_elem(sv, st, None)))
            else:
                pos.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                self.unpack_kw(v, kw, st)
            else:
                kw[k.arg] = v
        return self.call(e, pos, kw, st)

    def unpack_kw(self, v, kw, st):
        for l in v.locs:
            found = False
            for (l2, fld), h in st.heap.items():
                if l2 == l and fld.startswith("['"):
                    kw[fld[2:-2]] = join(kw.get(fld[2:-2], EMPTY), h)
                    found = True
                elif l2 == l and fld == '[]':
                    kw['**'] = join(kw.get('**', EMPTY), h)
                    found = True
            if l[0][0] != 'N':
                kw['**'] = join(kw.get('**', EMPTY), V(frozenset([ext(l, '[]')])))

    def call(self, e, pos, kw, st):
        fn = e.func
        # ---- method call?
        if isinstance(fn, ast.Attribute):
            if self.rooted_local(fn, st):
                return self.method_call(e, fn, pos, kw, st)
            d = self.p.dotted(fn, self.f.module, self.f, self.imps)
            r = self.p.lookup(d) if d else None
            if isinstance(r, Func):
                if r.cls is not None and r.kind in ('method',) and not r.is_static:
                    if r.is_classmethod:
                        return self.apply(r, [EMPTY] + pos, kw, st, e)
                    return self.apply(r, pos, kw, st, e)
                return self.apply(r, pos, kw, st, e)
            if isinstance(r, Class):
                return self.construct(r, pos, kw, st, e)
            if r is None and d:
                head = self.p.lookup(d.rpartition('.')[0])
                if not (isinstance(head, tuple)):
                    return self.external(d, e, pos, kw, st)
            return self.method_call(e, fn, pos, kw, st)
        if isinstance(fn, ast.Name):
            d = None
            if not self.rooted_local(fn, st):
                d = self.p.dotted(fn, self.f.module, self.f, self.imps)
                r = self.p.lookup(d) if d else None
                if isinstance(r, Func):
                    return self.apply(r, pos, kw, st, e)
                if isinstance(r, Class):
                    return self.construct(r, pos, kw, st, e)
                if r is None and d:
                    return self.external(d, e, pos, kw, st)
            v = self.ev(fn, st)
            return self.call_value(v, e, pos, kw, st)
        v = self.ev(fn, st)
        return self.call_value(v, e, pos, kw, st)

    def call_value(self, v, e, pos, kw, st):
        r = EMPTY
        for fnv in v.funcs:
            if fnv[0] == 'func':
                g = self.p.functions[fnv[1]]
                r = join(r, self.apply(g, pos, kw, st, e))
            elif fnv[0] == 'bound':
                g = self.p.functions[fnv[1]]
                r = join(r, self.apply(g, [V(fnv[2], fnv[3])] + pos, kw, st, e))
            elif fnv[0] == 'class':
                r = join(r, self.construct(self.p.classes[fnv[1]], pos, kw, st, e))
            elif fnv[0] == 'partial':
                k2 = dict(fnv[3])
                k2.update(kw)
                self.cha += 1
                r = join(r, self.call_value(V(funcs=frozenset([fnv[1]])), e,
                                            list(fnv[2]) + pos, k2, st))
                self.cha -= 1
        for ty in v.types:
            c = self.p.classes.get(ty)
            g = c.find_method('__call__') if c else None
            if g is not None:
                r = join(r, self.apply(g, [v] + pos, kw, st, e))
        return r

    def construct(self, c, pos, kw, st, node):
        n = self.new(node)
        o = V(frozenset([n]), frozenset([c.qual]))
        for k in [x for x in st.heap if x[0] == n]:
            del st.heap[k]
        g = c.find_method('__init__')
        if g is not None:
            self.apply(g, [o] + pos, kw, st, node)
        else:
            # dataclass style: arguments become attributes
            for v in pos:
                if not isinstance(v, tuple):
                    self.put(o, '[]', v, st)
            for k, v in kw.items():
                if flat(v).locs:
                    st.heap[(n, k)] = v
        return o

    def apply(self, g, pos, kw, st, node, weak=False):
        """Apply the summary of project function g at this call site."""
        self.used.add(g.qual)
        if isinstance(node, ast.Call) and not self.cb:
            self.e.call_log.setdefault((self.f.qual, id(node)), set()).add(
                (g.qual, len(pos) - len(node.args), not (weak or self.cha)))
        s = self.e.sums.get(g.qual)
        if s is None:
            return EMPTY
        bind = {}
        params = list(g.params)
        extra = EMPTY
        i = 0
        for v in pos:
            if isinstance(v, tuple) and v and v[0] == '*':
                for q in params[i:]:
                    bind[q] = join(bind.get(q, EMPTY), v[1])
                extra = join(extra, flat(v[1]))
                continue
            if i < len(params):
                bind[params[i]] = v
            else:
                extra = join(extra, flat(v))
            i += 1
        star = kw.get('**')
        for k, v in kw.items():
            if k == '**':
                continue
            if k in params or k in g.kwonly:
                bind[k] = v
            else:
                extra = join(extra, flat(v))
        if star is not None:
            for q in params + g.kwonly:
                if q not in bind:
                    bind[q] = star
            extra = join(extra, flat(star))
        if self.e.infer and not weak and not self.cha and not self.cb:
            for q, v in bind.items():
                if not g.params or q != g.params[0] or not g.is_method:
                    t = flat(v).types
                    if t:
                        have = self.e.param_types.setdefault((g.qual, q), set())
                        if not t <= have and len(have) < 8:
                            have |= t
                            self.e.pending.add(g.qual)
        for q in params + g.kwonly:
            if q not in bind and q in g.defaults:
                bind[q] = self.default_value(g, q)
        if g.vararg:
            bind[g.vararg] = extra
        if g.kwarg:
            bind[g.kwarg] = join(bind.get(g.kwarg, EMPTY), extra)
        return self.instantiate(g, s, bind, st, node)

    def default_value(self, g, q):
        d = g.defaults[q]
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
            return V(frozenset([(('G', f"{g.qual}(default {q})"), ())]))
        if isinstance(d, (ast.Name, ast.Attribute)):
            r = self.p.resolve(d, g.module)
            if isinstance(r, tuple) and r[0] == 'global':
                return self.global_obj(r[1], r[2])
            if isinstance(r, Func):
                return V(funcs=frozenset([('func', r.qual)]))
        return SCALAR

    def instantiate(self, g, s, bind, st, node):
        sitekey = f"{self.f.qual}@{getattr(node, 'lineno', 0)}.{getattr(node, 'col_offset', 0)}>"

        depth = {}

        def maploc(l):
            root, path = l
            if root[0] == 'P':
                v = bind.get(root[1])
                if v is None:
                    return EMPTY
                if not path:
                    return v
                r = v
                for a in path:
                    if a.startswith('['):
                        r = self.elem(r, st, a) if a != '[]' else self.elem(r, st)
                    else:
                        fb = flat(r)
                        nv = EMPTY
                        for x in fb.locs:
                            h = st.heap.get((x, a))
                            if h is not None:
                                nv = join(nv, h)
                            elif x[0][0] != 'N':
                                nv = join(nv, V(frozenset([ext(x, a)])))
                        r = nv
                return V(r.locs, frozenset(), r.elts, r.funcs)
            if root[0] == 'F':
                # variable of the function enclosing g
                if g.parent is not None and root[1] in g.parent.locals_:
                    if g.parent is self.f:
                        v = st.env.get(root[1], EMPTY)
                    elif self.f.parent is g.parent:
                        v = V(frozenset([(root, ())]))
                    else:
                        return EMPTY
                else:
                    v = V(frozenset([(root, ())]))
                r = v
                for a in path:
                    r = self.elem(r, st) if a.startswith('[') else self.attr_raw(r, a, st)
                return r
            if root[0] == 'N':
                key = root[1]
                if key.count('>') >= 2:
                    key2 = key
                else:
                    key2 = sitekey + key
                return V(frozenset([(('N', key2), path)]))
            return V(frozenset([l]))

        def mappart(x):
            fn = next(iter(mapv(V(funcs=frozenset([x[1]]))).funcs), x[1])
            return ('partial', fn,
                    tuple((y[0], mapv(y[1])) if isinstance(y, tuple) else mapv(y)
                          for y in x[2]),
                    tuple((k, (y[0], mapv(y[1])) if isinstance(y, tuple) else mapv(y))
                          for k, y in x[3]))

        def mapv(v):
            if v.elts is not None:
                elts = tuple(mapv(x) for x in v.elts)
            else:
                elts = None
            locs = set()
            types = set(v.types)
            funcs = set(v.funcs)
            res = []
            for l in v.locs:
                m = maploc(l)
                if m.elts is not None and elts is None and len(v.locs) == 1:
                    elts = m.elts
                    locs |= m.locs
                else:
                    locs |= flat(m).locs
                types |= m.types
                funcs |= m.funcs
            fs = set()
            for x in funcs:
                if x[0] == 'bound':
                    bl = set()
                    for l in x[2]:
                        bl |= flat(maploc(l)).locs
                    fs.add(('bound', x[1], frozenset(bl), x[3]))
                elif x[0] == 'partial':
                    fs.add(mappart(x))
                else:
                    fs.add(x)
            return V(frozenset(locs), frozenset(types), elts, frozenset(fs), v.scalar)

        for l, m in s.mut.items():
            root, path = l
            if root[0] in ('P', 'F'):
                tv = maploc(l)
                chain = m.chain
                if len(chain) < 4:
                    chain = chain + ((self.f, node),)
                for t in flat(tv).locs:
                    # scalars bound to the parameter cannot be mutated by `+=`
                    if m.soft and root[0] == 'P' and (tv.scalar or tv.elts is not None):
                        continue        # nor can tuples
                    self.record(t, m.kind, m.node, m.soft, chain, m.func)
            elif root[0] in ('G', 'K'):
                chain = m.chain
                if len(chain) < 4:
                    chain = chain + ((self.f, node),)
                self.record(l, m.kind, m.node, m.soft, chain, m.func)
        newheap = []
        for (l, fld), v in s.stores.items():
            tv = flat(maploc(l))
            mv = mapv(v)
            for t in tv.locs:
                newheap.append((t, fld, mv, len(tv.locs) == 1))
        for (l, fld), v in s.ret_heap.items():
            for t in flat(maploc(l)).locs:
                newheap.append((t, fld, mapv(v), False))
        for t, fld, mv, strong in newheap:
            k = (t, fld)
            if k in st.heap and (not strong or fld.startswith('[')):
                st.heap[k] = join(st.heap[k], mv)
            else:
                st.heap[k] = mv
        return mapv(s.ret)

    def attr_raw(self, v, a, st):
        nv = EMPTY
        for x in flat(v).locs:
            h = st.heap.get((x, a))
            if h is not None:
                nv = join(nv, h)
            elif x[0][0] != 'N':
                nv = join(nv, V(frozenset([ext(x, a)])))
        return nv

    # --------------------------------------------------------- method calls
    def method_call(self, e, fn, pos, kw, st):
        # super().m(...)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and \
                fn.value.func.id == 'super' and self.f.cls is not None:
            for b in self.f.cls.mro()[1:]:
                if fn.attr in b.methods:
                    sv = st.env.get(self.f.params[0], EMPTY) if self.f.params else EMPTY
                    return self.apply(b.methods[fn.attr], [sv] + pos, kw, st, e)
            return EMPTY
        base = self.ev(fn.value, st)
        fb = flat(base)
        name = fn.attr
        if fb.types:
            self.e.attr_log.setdefault((self.f.qual, id(fn)), set()).update(fb.types)
        r = EMPTY
        handled = False
        # callables held in class objects: Cls.method
        for x in fb.funcs:
            if x[0] == 'class':
                c = self.p.classes.get(x[1])
                g = c.find_method(name) if c else None
                if g is not None:
                    handled = True
                    if g.is_static:
                        r = join(r, self.apply(g, pos, kw, st, e))
                    elif g.is_classmethod:
                        r = join(r, self.apply(g, [V(funcs=frozenset([x]))] + pos, kw, st, e))
                    else:
                        r = join(r, self.apply(g, pos, kw, st, e))
        meths = self.lookup_attr(fb, name, 'methods')
        for g in meths:
            handled = True
            if g.is_static:
                r = join(r, self.apply(g, pos, kw, st, e))
            elif g.is_classmethod:
                r = join(r, self.apply(g, [EMPTY] + pos, kw, st, e))
            else:
                r = join(r, self.apply(g, [base] + pos, kw, st, e))
        if handled:
            return r
        # attribute holding a callable
        hv = EMPTY
        for l in fb.locs:
            h = st.heap.get((l, name))
            if h is not None:
                hv = join(hv, h)
        if hv.funcs:
            return self.call_value(hv, e, pos, kw, st)
        typed = bool(fb.types)
        if not typed:
            r = self.generic_method(e, base, name, pos, kw, st)
            if r is not None:
                return r
            cands = [g for g in self.p.methods_by_name.get(name, [])
                     if not g.is_static and not g.is_classmethod]
            if cands and len(cands) <= self.e.cha_limit and fb.locs and not name.startswith('__'):
                r = EMPTY
                self.cha += 1
                for g in cands:
                    r = join(r, self.apply(g, [V(fb.locs, frozenset([g.cls.qual]))] + pos, kw, st, e))
                self.cha -= 1
                if not self.e.infer:
                    r = V(r.locs, frozenset(), r.elts, r.funcs)
                return r
        else:
            r = self.generic_method(e, base, name, pos, kw, st)
            if r is not None:
                return r
        return self.unknown_call(e, pos, kw, st)

    def unknown_call(self, e, pos, kw, st):
        """Callbacks handed to unknown code are assumed to be called."""
        for v in list(pos) + list(kw.values()):
            if isinstance(v, tuple):
                continue
            self.invoke_callbacks(v, e, st)
        return V(frozenset([self.new(e)]))

    def invoke_callbacks(self, v, e, st, args=None):
        if v.funcs and not v.types:
            for x in v.funcs:
                if x[0] in ('func', 'bound', 'partial'):
                    self.cb += 1
                    self.call_value(V(funcs=frozenset([x])), e, args or [], {}, st)
                    self.cb -= 1

    def generic_method(self, e, base, name, pos, kw, st):
        fb = flat(base)
        a0 = pos[0] if pos and not isinstance(pos[0], tuple) else (pos[0][1] if pos else EMPTY)
        for k in ('out',):
            if k in kw:
                self.mutate(flat(kw[k]), f'out= argument of .{name}()', e, st)
        if name in ('map', 'submit', 'imap', 'imap_unordered', 'starmap', 'apply_async', 'map_async') and pos:
            fv = pos[0] if not isinstance(pos[0], tuple) else EMPTY
            if fv.funcs:
                if name in ('submit', 'apply_async'):
                    args = pos[1:]
                else:
                    args = [self.iter_elem(x, st, None) if not isinstance(x, tuple) else x[1]
                            for x in pos[1:]]
                self.cb += 1
                r = self.call_value(fv, e, args, kw if name == 'submit' else {}, st)
                self.cb -= 1
                n = self.new(e)
                st.heap[(n, '[]')] = r
                return V(frozenset([n]))
        if name in ('copy', '__copy__'):
            n = self.new(e)
            sh = EMPTY
            for l in fb.locs:
                for (l2, fld), h in list(st.heap.items()):
                    if l2 == l and fld.startswith('['):
                        st.heap[(n, fld)] = h
                if l[0][0] != 'N':
                    sh = join(sh, V(frozenset([ext(l, '[]')])))
            if sh.locs:
                st.heap[(n, '[]shallow')] = sh
            return V(frozenset([n]), fb.types)
        if name == 'astype':
            c = next((k for k in e.keywords if k.arg == 'copy'), None)
            if c is not None and isinstance(c.value, ast.Constant) and c.value.value is False:
                return join(V(fb.locs), V(frozenset([self.new(e)])))
            return V(frozenset([self.new(e)]))
        if name in lm.MUT_METHODS and fb.locs and not fb.types:
            soft = name in lm.AMBIGUOUS_MUT
            self.mutate(fb, f'.{name}() call', e, st)
            if name in ('append', 'add', 'appendleft', 'insert', 'setdefault'):
                v = pos[-1] if pos and not isinstance(pos[-1], tuple) else EMPTY
                self.put(V(fb.locs), '[]', v, st)
            elif name in ('extend', 'update', 'extendleft'):
                for l in fb.locs:
                    if not isinstance(a0, tuple):
                        self.spread(a0, l, st)
                for k, v in kw.items():
                    self.put(V(fb.locs), f"['{k}']", v, st)
            if name in ('pop', 'popitem', 'setdefault', 'popleft'):
                return self.elem_keys(base, e, st)
            return SCALAR
        if name in ('get', 'values', 'items', '__getitem__', 'setdefault'):
            if name == 'get':
                v = self.elem_keys(base, e, st)
                if len(pos) > 1 and not isinstance(pos[1], tuple):
                    v = join(v, pos[1])
                return v
            ev = self.elem_keys(base, None, st)
            n = self.new(e)
            st.heap[(n, '[]')] = ev if name == 'values' else V(
                frozenset(), frozenset(), (SCALAR, ev))
            if name == '__getitem__':
                return ev
            return V(frozenset([n]))
        if name == 'keys':
            return V(frozenset([self.new(e)]))
        if name in lm.ALIAS_METHODS:
            return V(fb.locs, frozenset(), None)
        if name in ('tolist', 'flatten', 'dot', 'sum', 'mean', 'min', 'max', 'std', 'astype',
                    'conj', 'any', 'all', 'nonzero', 'cumsum', 'argsort', 'join', 'split',
                    'strip', 'format', 'lower', 'upper', 'replace', 'startswith', 'endswith',
                    'getVal', 'item', 'prod', 'round', 'clip', 'repeat', 'take', 'toarray',
                    'todense', 'index', 'count'):
            if name in ('sum', 'dot'):
                return V(frozenset([self.new(e)]))
            return V(frozenset([self.new(e)]))
        return None

    def elem_keys(self, base, e, st):
        key = '[]'
        if e is not None and e.args and isinstance(e.args[0], ast.Constant) and \
                isinstance(e.args[0].value, str):
            key = f"['{e.args[0].value}']"
        v = self.elem(base, st, key)
        for l in base.locs:
            h = st.heap.get((l, '[]shallow'))
            if h is not None:
                v = join(v, h)
        return v

    # ------------------------------------------------------- external calls
    def external(self, d, e, pos, kw, st):
        if isinstance(e, ast.Call):
            self.e.ext_log[(self.f.qual, id(e))] = d
        pv = [x[1] if isinstance(x, tuple) else x for x in pos]
        last = d.rpartition('.')[2]
        a0 = pv[0] if pv else EMPTY
        if 'out' in kw:
            self.mutate(flat(kw['out']), f'out= argument of {last}()', e, st)
            return flat(kw['out'])
        for k in e.keywords:
            if k.arg in lm.OVERWRITE_KW and isinstance(k.value, ast.Constant) and k.value.value is True:
                self.mutate(flat(a0), f'{k.arg}=True in {last}()', e, st)
        if d.startswith('numpy.'):
            sub = d[len('numpy.'):]
            if sub in lm.NP_ALIAS0:
                return V(flat(a0).locs, frozenset(), None, scalar=False)
            if sub in ('array',):
                c = next((k for k in e.keywords if k.arg == 'copy'), None)
                if c is not None and isinstance(c.value, ast.Constant) and not c.value.value:
                    return join(V(flat(a0).locs), V(frozenset([self.npnew(e)])))
                return V(frozenset([self.npnew(e)]))
            if sub in lm.NP_MUT_ARG:
                self.mutate(flat(a0), f'{sub}()', e, st)
                return SCALAR
            if sub.endswith('.at') or sub in ('add.at', 'subtract.at'):
                self.mutate(flat(a0), f'{sub}()', e, st)
                return SCALAR
            if sub == 'nan_to_num':
                c = next((k for k in e.keywords if k.arg == 'copy'), None)
                if c is not None and isinstance(c.value, ast.Constant) and c.value.value is False:
                    self.mutate(flat(a0), 'nan_to_num(copy=False)', e, st)
                    return V(flat(a0).locs)
            # ufunc with positional out
            if sub in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power',
                       'logical_and', 'logical_or', 'maximum', 'minimum', 'arctan2', 'mod') and len(pv) == 3:
                self.mutate(flat(pv[2]), f'positional out of {sub}()', e, st)
                return flat(pv[2])
            if sub in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'abs', 'arccos', 'arcsin', 'radians',
                       'degrees', 'deg2rad', 'rad2deg', 'negative', 'square') and len(pv) == 2:
                self.mutate(flat(pv[1]), f'positional out of {sub}()', e, st)
                return flat(pv[1])
            if sub == 'clip' and len(pv) == 4:
                self.mutate(flat(pv[3]), 'positional out of clip()', e, st)
            if sub in ('vectorize',) and a0.funcs:
                return V(funcs=a0.funcs)
            if sub in ('apply_along_axis', 'apply_over_axes') and a0.funcs:
                self.cb += 1
                self.call_value(a0, e, pv[2:3], {}, st)
                self.cb -= 1
            if sub == 'meshgrid':
                c = next((k for k in e.keywords if k.arg == 'copy'), None)
                if c is not None and isinstance(c.value, ast.Constant) and c.value.value is False:
                    v = EMPTY
                    for x in pv:
                        v = join(v, V(flat(x).locs))
                    return v
            for v in pv:
                self.invoke_callbacks(v, e, st)
            return V(frozenset([self.npnew(e)]))
        if d.startswith('builtins.'):
            n = last
            if n in ('int', 'float', 'str', 'bool', 'len', 'abs', 'round', 'range', 'isinstance', 'complex',
                     'repr', 'hash', 'id', 'type', 'ord', 'chr', 'any', 'all'):
                return SCALAR if n != 'abs' or a0.scalar else V(frozenset([self.new(e)]))
            if n in ('min', 'max'):
                if len(pv) == 1:
                    return self.iter_elem(a0, st, None)
                v = EMPTY
                for x in pv:
                    v = join(v, flat(x))
                return v
            if n == 'next':
                return self.iter_elem(a0, st, None)
            if n in ('iter',):
                return a0
            if n == 'zip':
                nn = self.new(e)
                st.heap[(nn, '[]')] = V(frozenset(), frozenset(),
                                        tuple(flat(self.iter_elem(x, st, None)) for x in pv))
                return V(frozenset([nn]))
            if n == 'enumerate':
                nn = self.new(e)
                st.heap[(nn, '[]')] = V(frozenset(), frozenset(), (SCALAR, self.iter_elem(a0, st, None)))
                return V(frozenset([nn]))
            if n == 'map' and pv:
                args = [self.iter_elem(x, st, None) for x in pv[1:]]
                self.cb += 1
                r = self.call_value(a0, e, args, {}, st)
                self.cb -= 1
                nn = self.new(e)
                st.heap[(nn, '[]')] = flat(r)
                return V(frozenset([nn]))
            if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'filter'):
                src = a0 if n != 'filter' else (pv[1] if len(pv) > 1 else EMPTY)
                nn = self.new(e)
                v = self.iter_elem(src, st, None)
                if flat(v).locs or v.funcs:
                    st.heap[(nn, '[]')] = v
                if 'key' in kw:
                    self.invoke_callbacks(kw['key'], e, st, [v])
                return V(frozenset([nn]))
            if n == 'dict':
                nn = self.new(e)
                nn = ((nn[0][0], nn[0][1] + '.Dict'), nn[1])
                for x in pv[:1]:
                    self.spread(x, nn, st)
                for k, v in kw.items():
                    if k != '**':
                        self.put(V(frozenset([nn])), f"['{k}']", v, st)
                return V(frozenset([nn]))
            if n == 'getattr':
                if len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                    v = self.attr(a0, e.args[1].value, st, e)
                    if len(pv) > 2:
                        v = join(v, pv[2])
                    return v
                v = EMPTY
                for l in flat(a0).locs:
                    if l[0][0] != 'N':
                        v = join(v, V(frozenset([ext(l, '?')])))
                return v
            if n == 'setattr':
                at = '?'
                if len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                    at = e.args[1].value
                self.setattr(a0, at, pv[2] if len(pv) > 2 else EMPTY, st, e)
                return SCALAR
            if n == 'delattr':
                self.mutate(flat(a0), 'delattr', e, st)
                return SCALAR
            if n == 'vars':
                return V(flat(a0).locs)
            for v in pv:
                self.invoke_callbacks(v, e, st)
            return V(frozenset([self.new(e)]))
        if d in ('functools.partial',) and pv:
            fs = set()
            for x in a0.funcs:
                fs.add(('partial', x, tuple(pv[1:]), tuple(sorted(
                    ((k, v) for k, v in kw.items()), key=lambda t: t[0]))))
            return V(funcs=frozenset(fs))
        if d in ('copy.deepcopy',):
            return V(frozenset([self.new(e)]), flat(a0).types)
        if d in ('copy.copy',):
            nn = self.new(e)
            self.spread(a0, nn, st)
            for l in flat(a0).locs:
                for (l2, fld), h in list(st.heap.items()):
                    if l2 == l and not fld.startswith('['):
                        st.heap[(nn, fld)] = h
            return V(frozenset([nn]), flat(a0).types)
        if d.startswith('itertools.'):
            v = EMPTY
            for x in pv:
                v = join(v, flat(self.iter_elem(x, st, None)))
            nn = self.new(e)
            st.heap[(nn, '[]')] = v
            return V(frozenset([nn]))
        if d in ('random.shuffle', 'numpy.random.shuffle', 'heapq.heappush', 'heapq.heapify', 'heapq.heappop'):
            self.mutate(flat(a0), d, e, st)
            return SCALAR
        if last in ('njit', 'jit', 'lru_cache', 'cache', 'wraps', 'vectorize', 'memoize') and a0.funcs:
            return V(funcs=a0.funcs)
        if d in ('types.SimpleNamespace', 'argparse.Namespace'):
            nn = self.new(e)
            for k, v in kw.items():
                if k != '**':
                    st.heap[(nn, k)] = v
            return V(frozenset([nn]))
        if last == 'tqdm' or d.endswith('tqdm.tqdm'):
            return V(flat(a0).locs, a0.types, a0.elts)
        for v in list(pv) + list(kw.values()):
            self.invoke_callbacks(v, e, st)
        return V(frozenset([self.new(e)]))

    def npnew(self, e):
        n = self.new(e)
        return (('N', n[0][1] + ':np'), ())


def run(project, infer=True, **kw):
    e = Engine(project, **kw)
    e.infer = infer
    return e.run()


if __name__ == '__main__':
    import sys
    import time
    from . import project
    t = time.time()
    p = project.load()
    eng = run(p)
    print('rounds', eng.rounds, 'converged', eng.converged, f'{time.time()-t:.1f}s')
    nf = 0
    for q, s in eng.sums.items():
        f = p.functions[q]
        if not f.public or '<locals>' in q:
            continue
        for (root, path), m in sorted(s.mut.items(), key=str):
            if root[0] == 'P' and not (root[1] == 'self'):
                nf += 1
                print(f"{q}  {root[1]}{'.'.join(('',)+path)}  {'SOFT ' if m.soft else ''}{m.describe()}")
    print(nf)
