"""Interprocedural dependence analysis.

For every function: which inputs (parameters, attributes of them, variables of
an enclosing function) can flow into each result, into each attribute or array
the function writes, and into each argument of each call it makes; separately
by data flow (d) and by control (c: tests that decide whether or which value
arises, comparison results, array sizes).

Two strengths share one interpreter.  `strict` keeps only flows that are
explicit in the text (used to write down what the unchanged tree does);
`loose` adds everything that might flow (aliases, uncertain call targets,
shapes, None tests), and is used to ask whether a recorded flow still exists.
loose is a superset of strict on the same source by construction.
"""
import ast
from .project import Func, Class

DEPTH = 3
SHAPE_ATTRS = {'shape', 'ndim', 'dtype', 'size', 'itemsize', 'nbytes', 'flags', 'strides'}
NONE_FUNCS = {'isinstance', 'issubclass', 'hasattr', 'callable', 'type', 'id', 'len', 'repr',
              'print', 'vars', 'dir', 'super', 'locals', 'globals', 'hash'}
SIZE_LAST = {'zeros', 'ones', 'empty', 'full', 'eye', 'identity', 'range', 'arange_', 'ndarray',
             'indices'}
LIKE_LAST = {'zeros_like', 'ones_like', 'empty_like', 'full_like', 'shape', 'ndim', 'size'}
PRED_LAST = {'isnan', 'isfinite', 'isinf', 'isclose', 'allclose', 'isin', 'in1d', 'array_equal',
             'startswith', 'endswith', 'exists', 'is_file', 'isfile', 'is_dir', 'isdir', 'isdigit',
             'signbit', 'iscomplexobj', 'isscalar', 'logical_not', 'logical_and', 'logical_or',
             'logical_xor', 'greater', 'less', 'equal', 'not_equal', 'greater_equal',
             'less_equal', 'any', 'all'}
NOEFFECT_BASES = ('logging.', 'warnings.')
MUTATORS = {'append', 'extend', 'insert', 'update', 'add', 'setdefault', 'fill', 'put',
            'appendleft', 'extendleft', '__setitem__', 'itemset', 'create_dataset',
            'create_group', 'write', 'set_data', 'add_many', 'addmany'}
LOGNAMES = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'warn'}
E0 = frozenset()


class V:
    """d: data atoms; c: control atoms; e: the atoms of d that name the value
    itself (extendable by attribute access); o: local objects it may be;
    t: element values of a tuple; f: function quals it may call; s: the input
    paths this value has been stored at (writing into it writes there)."""
    __slots__ = ('d', 'c', 'e', 'o', 't', 'f', 's')

    def __init__(self, d=E0, c=E0, e=E0, o=E0, t=None, f=E0, s=E0):
        self.d = d
        self.c = c
        self.e = e
        self.o = o
        self.t = t
        self.f = f
        self.s = s

    def key(self):
        return (self.d, self.c, self.e, self.o,
                None if self.t is None else tuple(x.key() for x in self.t), self.f, self.s)

    def __eq__(self, other):
        return self is other or (isinstance(other, V) and self.key() == other.key())

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return f"V(d={sorted(self.d)}, c={sorted(self.c)}, o={len(self.o)}, t={self.t})"


N = V()


def join(a, b):
    if a is b or b is N:
        return a
    if a is N:
        return b
    t = None
    if a.t is not None and b.t is not None and len(a.t) == len(b.t):
        t = tuple(join(x, y) for x, y in zip(a.t, b.t))
    elif a.t is not None or b.t is not None:
        a, b = flat(a), flat(b)
    return V(a.d | b.d, a.c | b.c, a.e | b.e, a.o | b.o, t, a.f | b.f, a.s | b.s)


def flat(v):
    if v.t is None:
        return v
    d, c, o, f = set(v.d), set(v.c), set(v.o), set(v.f)
    for x in v.t:
        x = flat(x)
        d |= x.d
        c |= x.c
        o |= x.o
        f |= x.f
    return V(frozenset(d), frozenset(c), v.e, frozenset(o), None, frozenset(f), v.s)


def ctl(v, c):
    if not c or c <= v.c:
        return v
    return V(v.d, v.c | c, v.e, v.o,
             None if v.t is None else tuple(ctl(x, c) for x in v.t), v.f, v.s)


def as_ctl(v):
    v = flat(v)
    return V(c=v.c | v.d)


def data(vs):
    d, c, o, f = set(), set(), set(), set()
    for v in vs:
        v = flat(v)
        d |= v.d
        c |= v.c
        o |= v.o
        f |= v.f
    return V(frozenset(d), frozenset(c), E0, frozenset(o), None, frozenset(f))


def extend(atom, attr):
    n = atom.count('\x1f')
    if n >= DEPTH or (n and attr in atom.split('\x1f')[1:]):
        return atom
    return atom + '\x1f' + attr


class Summary:
    __slots__ = ('ret', 'writes', 'must', 'sites', 'bounds', 'noret', 'raises', 'own',
                 'exact')

    def __init__(self):
        self.ret = N
        self.noret = False    # every path ends in an exception
        self.raises = {}      # exception class name -> V: the inputs that decide it
        self.own = {}         # the same for raise and assert statements of this function
        self.writes = {}
        self.must = frozenset()
        self.bounds = {}      # callee qual -> [({param: V}, control)]
        self.exact = {}       # (node, callee qual) -> {param: everything that decides its value}
        self.sites = []       # (callee name, resolved quals, {param: V}, node)

    def key(self):
        return (self.ret.key(), tuple(sorted((k, v.key()) for k, v in self.writes.items())
                                      ) if False else
                {k: v.key() for k, v in self.writes.items()}, self.must, self.noret,
                {k: v.key() for k, v in self.raises.items()})


class St:
    __slots__ = ('env', 'heap', 'w', 'must', 'dead')

    def __init__(self):
        self.env = {}
        self.heap = {}     # objid -> V content ; (objid, attr) -> V
        self.w = {}        # written paths rooted in inputs: atom -> V
        self.must = set()
        self.dead = False

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.w = dict(self.w)
        s.must = set(self.must)
        s.dead = self.dead
        return s


class Deps:
    def __init__(self, project, effects, strict):
        self.p = project
        self.e = effects
        self.strict = strict
        self.sums = {}
        self.callers = {}

    def run(self, maxpass=6):
        funcs = order(self.p, self.e)
        work = list(funcs)
        for i in range(maxpass):
            changed = []
            todo = set(f.qual for f in work)
            for f in funcs:
                if f.qual not in todo:
                    continue
                old = self.sums.get(f.qual)
                s = Interp(self, f).run()
                if old is None or old.key() != s.key():
                    changed.append(f.qual)
                self.sums[f.qual] = s
            nxt = set()
            for q in changed:
                nxt |= self.callers.get(q, set())
            if i == 0:
                # bottom-up order: only cycles and forward references remain
                nxt = {q for q in nxt}
            if not nxt:
                break
            work = [f for f in funcs if f.qual in nxt]
        return self


def order(p, e):
    """Callees before callers as far as the call graph is acyclic."""
    succ = {}
    for (q, _), ts in e.call_log.items():
        succ.setdefault(q, set()).update(t[0] for t in ts)
    for (q, _), ts in e.set_log.items():
        succ.setdefault(q, set()).update(ts)
    for f in p.functions.values():
        for g in f.nested.values():
            succ.setdefault(f.qual, set()).add(g.qual)
    seen, out = set(), []
    for root in sorted(p.functions):
        if root in seen:
            continue
        stack = [(root, iter(sorted(succ.get(root, ()))))]
        seen.add(root)
        while stack:
            q, it = stack[-1]
            for n in it:
                if n not in seen and n in p.functions:
                    seen.add(n)
                    stack.append((n, iter(sorted(succ.get(n, ())))))
                    break
            else:
                stack.pop()
                out.append(p.functions[q])
    return out


class Interp:
    def __init__(self, eng, f):
        self.eng = eng
        self.p = eng.p
        self.e = eng.e
        self.f = f
        self.strict = eng.strict
        self.ret = None
        self.sites = {}
        self.exact = {}
        self.bounds = {}
        self.exits = []
        self.raises = {}
        self.own = {}
        self.handlers = []
        self.ctx = E0
        self.loops = []
        self.imps = self.e.imports(f)
        self.lambda_of = getattr(self.p, 'lambda_of', {})

    def run(self):
        st = St()
        for q in self.f.all_params:
            st.env[q] = V(frozenset([q]), E0, frozenset([q]))
        self.block(self.f.body, st)
        if not st.dead:
            self.exits.append(st)
        s = Summary()
        s.ret = self.ret if self.ret is not None else N
        s.noret = not self.exits and not self.f.is_generator
        w, must = {}, None
        for x in self.exits:
            for k, v in x.w.items():
                w[k] = join(w[k], v) if k in w else v
            must = set(x.must) if must is None else must & x.must
        s.writes = w
        s.must = frozenset(must or ())
        s.raises = self.raises
        s.own = self.own
        s.sites = list(self.sites.values())
        s.bounds = self.bounds
        s.exact = self.exact
        return s

    # ------------------------------------------------------------ statements
    def block(self, body, st):
        for s in body:
            if st.dead:
                return
            self.stmt(s, st)

    def merge(self, st, branches, test):
        """st becomes the join of the branch states, controlled by `test`."""
        live = [b for b in branches if not b.dead]
        t = test
        if not live:
            st.dead = True
            self.absorb(st, branches[0])
            st.dead = True
            return
        if len(live) == 1 and self.strict and len(branches) > 1:
            # the other branch raised or returned
            self.absorb(st, live[0])
            return
        a = live[0]
        for b in live[1:]:
            a = self.join2(a, b, t)
        if len(live) == 1:
            a = self.join2(st, a, t, onlyctl=True) if not self.strict else a
        self.absorb(st, a)

    def absorb(self, st, a):
        st.env, st.heap, st.w, st.must, st.dead = a.env, a.heap, a.w, a.must, a.dead

    def join2(self, a, b, t, onlyctl=False):
        r = St()
        for nm, x, y in (('env', a.env, b.env), ('heap', a.heap, b.heap), ('w', a.w, b.w)):
            out = {}
            for k in x.keys() | y.keys():
                u, v = x.get(k), y.get(k)
                if onlyctl:
                    if v is None:
                        continue
                    out[k] = v if u is v or u == v else ctl(v, t)
                    continue
                if u is v or u == v:
                    out[k] = u
                elif u is None:
                    out[k] = ctl(v, t)
                elif v is None:
                    out[k] = ctl(u, t)
                else:
                    out[k] = ctl(join(u, v), t)
            setattr(r, nm, out)
        r.must = (b.must if onlyctl else a.must & b.must)
        r.dead = False
        return r

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is not None:
            m(s, st)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_AugAssign(self, s, st):
        v = self.ev(s.value, st)
        if isinstance(s.target, ast.Name):
            old = self.name(s.target.id, st)
            nv = V(*[getattr(data([old, v]), a) for a in ('d', 'c')], old.e, old.o, None, E0, old.s)
            st.env[s.target.id] = nv
            self.mutate(old, v, st)
        else:
            old = self.ev(s.target, st)
            self.assign(s.target, data([old, v]), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if t.id in self.f.globals_:
                return
            if t.id in self.f.nonlocals_:
                self.write('~' + t.id, v, st, strong=True)
                st.env[t.id] = v
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if v.t is not None and len(v.t) == n and not any(
                    isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.t):
                    self.assign(x, V(y.d, y.c | v.c, y.e, y.o, y.t, y.f, y.s), st)
            else:
                fv = flat(v)
                ev = V(fv.d, fv.c, fv.e, fv.o, None, fv.f, fv.s)
                for x in t.elts:
                    self.assign(x, ev, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, flat(v), st)
        elif isinstance(t, ast.Attribute):
            base = flat(self.ev(t.value, st))
            self.store_attr(base, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            iv = self.ev(t.slice, st)
            key = const_key(t.slice)
            nv = flat(v)
            nv = V(nv.d | flat(iv).d, nv.c | flat(iv).c, E0, nv.o, None, nv.f)
            paths = flat(base).e | flat(base).s
            if key is not None and paths:
                for a in paths:
                    self.write(extend(a, key), nv, st, strong=len(paths) == 1)
                    if a in st.w:
                        st.w[a] = data([st.w[a], self.eff(nv, st)])
                self.mutate_objs(flat(base).o, nv, st, key)
                self.taint_name(t.value, nv, st)
                return
            self.mutate(base, nv, st, key)
            self.taint_name(t.value, nv, st)

    def taint_name(self, e, v, st):
        """x[..] = v : the variable x now also depends on v."""
        while isinstance(e, (ast.Subscript, ast.Attribute)) and not isinstance(e, ast.Name):
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and \
                    e.value.id == self.f.self_name:
                return
            e = e.value
        if isinstance(e, ast.Name) and e.id in st.env:
            o = st.env[e.id]
            n = flat(self.eff(v, st))
            st.env[e.id] = V(o.d | n.d, o.c | n.c, o.e, o.o, o.t, o.f, o.s)

    def store_attr(self, base, attr, v, st, node):
        setters = []
        if isinstance(node.value, ast.Name) and node.value.id == self.f.self_name and \
                self.f.cls is not None:
            s = self.f.cls.find_setter(attr)
            if s is not None and s.qual != self.f.qual:
                setters = [s]
        elif not self.strict:
            setters = [self.p.functions[q] for q in sorted(
                self.e.set_log.get((self.f.qual, id(node)), ())) if q in self.p.functions]
        sure = len(setters) == 1
        for g in setters:
            self.note(g)
            self.apply(g, {g.params[0]: base, g.params[1] if len(g.params) > 1 else '?': v},
                       st, sure)
            b = {g.params[0]: base, g.params[1] if len(g.params) > 1 else '?': v}
            self.site(node, attr + '=', [g.qual], {g.params[1] if len(g.params) > 1 else '?': v},
                      st, (g.qual, {q: V(*[getattr(flat(self.eff(x, st)), k) for k in
                                           ('d', 'c')], flat(x).e) for q, x in b.items()}))
        if setters and (self.strict or self.is_self(node.value)):
            return
        for a in base.e | base.s:
            self.write(extend(a, attr), v, st, strong=len(base.e | base.s) == 1)
        for o in base.o:
            k = (o, attr)
            st.heap[k] = v if len(base.o) == 1 else join(st.heap.get(k, N), v)
            st.heap[o] = data([st.heap.get(o, N), v])
        if not base.e:
            self.taint_name(node.value, v, st)

    def is_self(self, e):
        return isinstance(e, ast.Name) and e.id == self.f.self_name

    def write(self, atom, v, st, strong=False):
        v = self.eff(v, st)
        if strong or atom not in st.w:
            st.w[atom] = v
        else:
            o = st.w[atom]
            st.w[atom] = join(flat(o), flat(v)) if (o.t is None) != (v.t is None) else join(o, v)
        if strong or True:
            st.must.add(atom)

    def mutate(self, base, v, st, key=None):
        b = flat(base)
        for a in b.e | b.s:
            k = extend(a, key) if key is not None else a
            if k in st.w:
                st.w[k] = join(flat(st.w[k]), data([self.eff(v, st)]))
            else:
                st.w[k] = data([self.eff(v, st)])
            st.must.add(k)
        self.mutate_objs(b.o, v, st, key)

    def mutate_objs(self, objs, v, st, key=None):
        v = data([v])
        for o in objs:
            st.heap[o] = data([st.heap.get(o, N), v])
            if key is not None:
                st.heap[(o, key)] = join(st.heap.get((o, key), N), v)

    def eff(self, v, st):
        """v with the contents of the local objects it may be."""
        if v.t is not None:
            return V(v.d, v.c, v.e, v.o, tuple(self.eff(x, st) for x in v.t), v.f, v.s)
        if not v.o:
            return v
        seen, todo = set(), list(v.o)
        d, c = set(v.d), set(v.c)
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            h = st.heap.get(o)
            if h is not None:
                d |= h.d
                c |= h.c
                todo.extend(h.o)
        return V(frozenset(d), frozenset(c), v.e, v.o, None, v.f, v.s)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else N
        v = ctl(self.eff(v, st), self.ctx)
        self.ret = v if self.ret is None else self.joinret(self.ret, v)
        self.exits.append(st.copy())
        st.dead = True

    def joinret(self, a, b):
        if a.t is not None and b.t is not None and len(a.t) != len(b.t):
            a, b = flat(a), flat(b)
        if (a.t is None) != (b.t is None):
            # None or an early default next to a tuple: keep the tuple
            if a.t is None and not a.d:
                return ctl(b, a.c)
            if b.t is None and not b.d:
                return ctl(a, b.c)
        return join(a, b)

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
            self.raised(exc_name(s.exc), self.ctx, own=True)
        st.dead = True

    def raised(self, name, atoms, own=False):
        for names, back in reversed(self.handlers):
            if not back and any(catches(self.p, self.f, n, name) for n in names):
                return
        v = V(c=frozenset(atoms))
        self.raises[name] = join(self.raises.get(name, N), v)
        if own:
            self.own[name] = join(self.own.get(name, N), v)

    def raised_by(self, g, bind, st):
        s = self.eng.sums.get(g.qual)
        if s is None:
            return
        for name, v in s.raises.items():
            x = flat(self.subst(v, g, bind, st))
            self.raised(name, x.d | x.c | self.ctx)

    def s_If(self, s, st):
        t = flat(self.eff(self.ev(s.test, st), st))
        tc = t.d | t.c
        a, b = st.copy(), st.copy()
        old = self.ctx
        self.ctx = old | tc
        self.block(s.body, a)
        self.ctx = old | tc
        self.block(s.orelse, b)
        self.ctx = old
        if has_loop_exit(s) and self.loops:
            self.loops[-1] |= tc
        if (a.dead != b.dead) and returns(s):
            # the rest runs only when the early return was not taken
            self.ctx = old | tc
        elif (a.dead != b.dead) and not self.strict:
            self.ctx = old | tc
        both = not a.dead and not b.dead
        self.merge(st, [a, b], tc)
        if both and s.orelse:
            # the test chooses between values that look alike (two constants)
            for k in stored_names(s.body) & stored_names(s.orelse):
                if k in st.env and not tc <= st.env[k].c:
                    st.env[k] = ctl(st.env[k], tc)

    def s_Match(self, s, st):
        t = flat(self.eff(self.ev(s.subject, st), st))
        tc = t.d | t.c
        br = []
        old = self.ctx
        self.ctx = old | tc
        for c in s.cases:
            a = st.copy()
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    a.env[n.name] = t
            self.block(c.body, a)
            br.append(a)
        self.ctx = old
        br.append(st.copy())
        self.merge(st, br, tc)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        self.loop(s, st, it)

    s_AsyncFor = s_For

    def iter_target(self, s, it, st):
        f = flat(it)
        # enumerate / zip keep the elements apart
        e = s.iter if hasattr(s, 'iter') else None
        self.assign_iter(s.target, e, f, st)

    def assign_iter(self, target, e, f, st):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                isinstance(target, (ast.Tuple, ast.List)):
            if e.func.id == 'enumerate' and len(target.elts) == 2 and e.args:
                src = flat(self.ev(e.args[0], st))
                self.assign(target.elts[0], N if self.strict else as_ctl(src), st)
                self.assign_iter(target.elts[1], e.args[0], src, st)
                return
            if e.func.id == 'zip' and len(target.elts) == len(e.args) and \
                    not any(isinstance(a, ast.Starred) for a in e.args):
                for t, a in zip(target.elts, e.args):
                    self.assign_iter(t, a, flat(self.ev(a, st)), st)
                return
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr == 'items' and isinstance(target, (ast.Tuple, ast.List)) and \
                len(target.elts) == 2 and not e.args:
            src = flat(self.ev(e.func.value, st))
            self.assign(target.elts[0], V(src.d, src.c), st)
            self.assign(target.elts[1], src, st)
            return
        self.assign(target, V(f.d, f.c, f.e, f.o, None, f.f, f.s), st)

    def loop(self, s, st, it):
        it = flat(self.eff(it, st))
        tc = it.d | it.c
        old = self.ctx
        self.loops.append(set(tc))
        before = st.copy()
        cur = st.copy()
        for _ in range(3):
            b = cur.copy()
            if isinstance(s, (ast.For, ast.AsyncFor)):
                self.iter_target(s, it, b)
            else:
                t = flat(self.eff(self.ev(s.test, b), b))
                self.loops[-1] |= t.d | t.c
            self.ctx = old | frozenset(self.loops[-1])
            self.block(s.body, b)
            self.ctx = old
            b.dead = False
            n = self.join2(cur, b, frozenset(self.loops[-1]))
            if n.env == cur.env and n.heap == cur.heap and n.w == cur.w:
                cur = n
                break
            cur = n
        lc = frozenset(self.loops.pop())
        r = self.join2(before, cur, lc)
        if always_entered(s):
            r.must = set(b.must) if not has_break(s) else r.must
        if self.loops and has_loop_exit_deep(s):
            self.loops[-1] |= lc
        self.absorb(st, r)
        st.dead = False
        if s.orelse:
            self.block(s.orelse, st)
        if contains_return(s):
            self.ctx = old | lc

    def s_While(self, s, st):
        t = self.ev(s.test, st)
        self.loop(s, st, t)

    def s_Break(self, s, st):
        st.dead = True

    s_Continue = s_Break

    def s_Try(self, s, st):
        before = st.copy()
        a = st.copy()
        n = len(self.handlers)
        for h in s.handlers:
            self.handlers.append((handler_names(h), reraises(h)))
        self.block(s.body, a)
        del self.handlers[n:]
        hs = []
        for h in s.handlers:
            b = self.join2(before, a, E0)
            b.must = set(before.must)
            b.dead = False
            if h.name:
                b.env[h.name] = N
            self.block(h.body, b)
            hs.append(b)
        if not a.dead:
            self.block(s.orelse, a)
        live = [x for x in [a] + hs if not x.dead]
        if not live:
            st.dead = True
            self.absorb(st, a)
            if s.finalbody:
                st.dead = False
                self.block(s.finalbody, st)
            st.dead = True
            return
        r = live[0]
        for x in live[1:]:
            r = self.join2(r, x, E0)
        self.absorb(st, r)
        self.block(s.finalbody, st)

    s_TryStar = s_Try

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        n = len(self.handlers)
        for it in s.items:
            c = it.context_expr
            if isinstance(c, ast.Call) and exc_name(c) == 'suppress':
                self.handlers.append(([exc_name(a) for a in c.args], False))
        self.block(s.body, st)
        del self.handlers[n:]

    s_AsyncWith = s_With

    def s_FunctionDef(self, s, st):
        g = self.f.nested.get(s.name)
        if g is not None:
            st.env[s.name] = V(f=frozenset([g.qual]))
        for d in s.decorator_list:
            self.ev(d, st)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        pass

    def s_Import(self, s, st):
        pass

    s_ImportFrom = s_Global = s_Nonlocal = s_Pass = s_Import

    def s_Assert(self, s, st):
        t = flat(self.eff(self.ev(s.test, st), st))
        self.raised('AssertionError', t.d | t.c | self.ctx, own=True)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                base = flat(self.ev(t.value, st))
                for a in base.e:
                    self.write(extend(a, t.attr), N, st)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                self.mutate(base, self.ev(t.slice, st), st)

    # ----------------------------------------------------------- expressions
    def name(self, n, st):
        if n in st.env:
            return st.env[n]
        f = self.f.parent
        if n in self.f.locals_:
            return N
        while f is not None:
            if n in f.locals_:
                if n in f.nested:
                    return V(f=frozenset([f.nested[n].qual]))
                a = '~' + n
                if a in st.w:
                    return st.w[a]
                return V(frozenset([a]), E0, frozenset([a]))
            f = f.parent
        r = self.p.resolve(ast.Name(id=n, ctx=ast.Load()), self.f.module, self.f, self.imps)
        if isinstance(r, Func):
            return V(f=frozenset([r.qual]))
        return N

    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is not None:
            return m(e, st)
        return data([self.ev(c, st) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)])

    def e_Constant(self, e, st):
        return N

    def e_Name(self, e, st):
        return self.name(e.id, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Attribute(self, e, st):
        base = self.ev(e.value, st)
        b = flat(base)
        if not (b.d or b.c or b.o):
            return N
        if e.attr in SHAPE_ATTRS and not self.typed(e):
            if self.strict:
                return N
            return V(c=b.d | b.c)
        return self.read_attr(base, e.attr, st)

    def typed(self, e):
        return bool(self.e.attr_log.get((self.f.qual, id(e))))

    def read_attr(self, base, attr, st):
        b = flat(base)
        out = None
        ee, sh = set(), set()
        for a in b.e:
            x = extend(a, attr)
            if x in st.w:
                y = st.w[x]
                y = V(y.d, y.c, y.e, y.o, y.t, y.f, y.s | {x})
                out = y if out is None else join(out, y)
                if not self.strict and x not in st.must:
                    ee.add(x)
                elif x in st.w and not covers(st, x):
                    ee.add(x)
            else:
                ee.add(x)
        for a in b.s:
            x = extend(a, attr)
            if x in st.w:
                y = st.w[x]
                y = V(y.d, y.c, y.e, y.o, y.t, y.f, y.s | {x})
                out = y if out is None else join(out, y)
            else:
                sh.add(x)
        rest = set(b.d) - set(b.e)
        objs = set()
        known = False
        for o in b.o:
            h = st.heap.get((o, attr))
            if h is not None:
                out = h if out is None else join(out, h)
                known = True
        if known and not b.e:
            if self.strict:
                return out
            # the object may also have got its attribute in other ways
            r = self.eff(V(frozenset(rest), b.c, E0, b.o), st)
            return join(out, V(r.d, r.c, E0, r.o)) if not known else ctl(out, E0)
        if b.o and not known:
            x = self.eff(V(E0, E0, E0, b.o), st)
            rest |= x.d
            objs = b.o
        r = V(frozenset(rest | ee), b.c, frozenset(ee), frozenset(objs), None, E0, frozenset(sh))
        return r if out is None else join(flat(out) if out.t is not None and (ee or rest) else out, r) \
            if (ee or rest or b.c or sh) else out

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        iv = flat(self.ev(e.slice, st))
        if base.t is not None:
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                    -len(base.t) <= e.slice.value < len(base.t):
                x = base.t[e.slice.value]
                return V(x.d, x.c | base.c, x.e, x.o, x.t, x.f, x.s)
            if isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.operand, ast.Constant) \
                    and isinstance(e.slice.operand.value, int):
                i = -e.slice.operand.value
                if -len(base.t) <= i < len(base.t):
                    x = base.t[i]
                    return V(x.d, x.c | base.c, x.e, x.o, x.t, x.f, x.s)
            base = flat(base)
        key = const_key(e.slice)
        if key is not None:
            return self.read_attr(base, key, st)
        return V(base.d | iv.d, base.c | iv.c, base.e, base.o, None, base.f, base.s)

    def e_Slice(self, e, st):
        return data([self.ev(x, st) for x in (e.lower, e.upper, e.step) if x is not None])

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return data([self.ev(x, st) for x in e.elts])
        return V(t=tuple(self.ev(x, st) for x in e.elts))

    def e_List(self, e, st):
        v = data([self.ev(x, st) for x in e.elts])
        o = self.obj(e)
        st.heap[o] = data([V(v.d, v.c, E0, v.o)])
        if e.elts and len(e.elts) <= 8 and not any(isinstance(x, ast.Starred) for x in e.elts):
            return V(E0, E0, E0, frozenset([o]), tuple(self.ev(x, st) for x in e.elts), v.f)
        return V(v.d, v.c, E0, frozenset([o]) | v.o, None, v.f)

    def e_Set(self, e, st):
        v = data([self.ev(x, st) for x in e.elts])
        o = self.obj(e)
        return V(v.d, v.c, E0, frozenset([o]), None, v.f)

    def e_Dict(self, e, st):
        o = self.obj(e)
        vs = []
        st.heap[o] = N
        for k, x in zip(e.keys, e.values):
            v = self.ev(x, st)
            if k is not None:
                vs.append(self.ev(k, st))
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    st.heap[(o, '[' + k.value + ']')] = v
            vs.append(v)
        v = data(vs)
        st.heap[o] = V(v.d, v.c, E0, v.o)
        return V(E0, E0, E0, frozenset([o]), None, v.f)

    def obj(self, e):
        return f"{self.f.qual}@{getattr(e, 'lineno', 0)}.{getattr(e, 'col_offset', 0)}"

    def e_Starred(self, e, st):
        return flat(self.ev(e.value, st))

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        if a.t is not None and b.t is not None and isinstance(e.op, ast.Add):
            return V(a.d | b.d, a.c | b.c, E0, a.o | b.o, a.t + b.t, a.f | b.f)
        r = data([a, b])
        if isinstance(e.op, (ast.BitAnd, ast.BitOr)) or self.strict:
            return V(r.d, r.c, E0, E0 if self.strict else r.o)
        return V(self.eff(r, st).d, self.eff(r, st).c)

    def e_UnaryOp(self, e, st):
        v = data([self.eff(self.ev(e.operand, st), st)])
        if isinstance(e.op, ast.Not):
            return as_ctl(v)
        return V(v.d, v.c)

    def e_BoolOp(self, e, st):
        vs = [self.ev(x, st) for x in e.values]
        r = vs[0]
        for v in vs[1:]:
            r = join(flat(r), flat(v))
        if not self.strict:
            r = V(r.d, r.c | r.d, r.e, r.o, None, r.f, r.s)
        return r

    def e_Compare(self, e, st):
        vs = [self.eff(self.ev(x, st), st) for x in [e.left] + e.comparators]
        if all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops) and any(
                isinstance(x, ast.Constant) and x.value is None for x in e.comparators):
            return N if self.strict else as_ctl(data(vs))
        return as_ctl(data(vs))

    def e_IfExp(self, e, st):
        t = flat(self.eff(self.ev(e.test, st), st))
        a, b = self.ev(e.body, st), self.ev(e.orelse, st)
        return ctl(join(a, b), t.d | t.c)

    def e_Lambda(self, e, st):
        g = self.lambda_of.get(id(e))
        if g is None:
            return N
        self.note(g)
        ls = self.eng.sums.get(g.qual)
        if ls is not None:
            # calls made by a lambda count as calls of the function that contains it
            b = {q: N for q in g.all_params}
            for name, quals, args, node in ls.sites:
                self.site(node, name, quals,
                          {k: self.subst(v, g, b, st) for k, v in args.items()}, st)
        return V(f=frozenset([g.qual]))

    def e_JoinedStr(self, e, st):
        return data([self.ev(x.value, st) for x in e.values if isinstance(x, ast.FormattedValue)])

    def comp(self, e, st, elts):
        s2 = st.copy()
        c = E0
        for g in e.generators:
            it = flat(self.eff(self.ev(g.iter, s2), s2))
            self.assign_iter(g.target, g.iter, it, s2)
            c |= it.c | it.d
            for i in g.ifs:
                t = flat(self.ev(i, s2))
                c |= t.d | t.c
        v = data([self.eff(self.ev(x, s2), s2) for x in elts])
        for k, x in s2.heap.items():
            if k not in st.heap:
                st.heap[k] = x
        for k, x in s2.w.items():
            st.w[k] = x
        return V(v.d, v.c | c, E0, frozenset([self.obj(e)]) | v.o, None, v.f)

    def e_ListComp(self, e, st):
        return self.comp(e, st, [e.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        return self.comp(e, st, [e.key, e.value])

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else N
        v = ctl(self.eff(v, st), self.ctx)
        self.ret = v if self.ret is None else self.joinret(self.ret, v)
        return N

    def e_YieldFrom(self, e, st):
        v = flat(self.eff(self.ev(e.value, st), st))
        v = ctl(v, self.ctx)
        self.ret = v if self.ret is None else self.joinret(self.ret, v)
        return N

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # ----------------------------------------------------------------- calls
    def note(self, g):
        self.eng.callers.setdefault(g.qual, set()).add(self.f.qual)

    def e_Call(self, e, st):
        fn = e.func
        pos = [self.ev(a, st) for a in e.args]
        kws = [(k.arg, self.ev(k.value, st)) for k in e.keywords]
        recv = None
        if isinstance(fn, ast.Attribute):
            if is_super(fn.value):
                sn = self.f.params[0] if self.f.params else None
                recv = st.env.get(sn, N) if sn else N
            else:
                recv = self.ev(fn.value, st)
            last = fn.attr
        elif isinstance(fn, ast.Name):
            last = fn.id
        else:
            last = ''
            recv = self.ev(fn, st)
        targets = self.e.call_log.get((self.f.qual, id(e)), ())
        ts = [(self.p.functions[q], k, s) for q, k, s in targets if q in self.p.functions]
        sure = [x for x in ts if x[2]]
        use = sure if self.strict else ts
        use = [x for x in use if 0 <= x[1] <= 1]
        if self.strict and len(sure) != len(ts):
            use = []
        stars = any(isinstance(a, ast.Starred) for a in e.args) or any(k is None for k, _ in kws)
        if use:
            r = None
            for g, k, s in use:
                self.note(g)
                first = None
                ctor = g.name == '__init__' and not (isinstance(fn, ast.Attribute) and
                                                     fn.attr == '__init__')
                if g.is_method and (k == 1 or (stars and not self.static_ref(fn, g))):
                    if ctor:
                        o = self.obj(e)
                        first = V(o=frozenset([o]))
                    elif g.is_classmethod:
                        first = N
                    else:
                        first = recv if recv is not None else N
                elif ctor and g.is_method:
                    first = V(o=frozenset([self.obj(e)]))
                bind = self.bind(g, first, pos, kws, e)
                v = self.apply(g, bind, st, s and len(use) == 1)
                self.raised_by(g, bind, st)
                if ctor:
                    v = first
                    if not self.strict:
                        x = data(pos + [b for _, b in kws])
                        st.heap[self.obj(e)] = data([st.heap.get(self.obj(e), N), x])
                self.site(e, site_name(g), [g.qual],
                          {q: x for q, x in bind.items() if q != g.self_name}, st,
                          (g.qual, {q: V(*[getattr(flat(self.eff(x, st)), k) for k in
                                           ('d', 'c')], flat(x).e) for q, x in bind.items()}))
                r = v if r is None else join(flat(r) if (r.t is None) != (v.t is None) else r, v)
            if len(sure) == len(ts) and all(
                    g.qual in self.eng.sums and self.eng.sums[g.qual].noret for g, _, _ in use):
                st.dead = True
            if not self.strict and len(sure) != len(ts):
                r = join(flat(r), self.unknown(e, last, recv, pos, kws, st))
            return r
        return self.unknown(e, last, recv, pos, kws, st)

    def static_ref(self, fn, g):
        r = self.p.resolve(fn, self.f.module, self.f, self.imps) if isinstance(
            fn, (ast.Name, ast.Attribute)) else None
        return isinstance(r, Func)

    def bind(self, g, first, pos, kws, e):
        b = {}
        params = list(g.params)
        i = 0
        extra = []
        if first is not None and params:
            b[params[0]] = first
            i = 1
        for a, v in zip(e.args, pos):
            if isinstance(a, ast.Starred):
                for q in params[i:]:
                    b[q] = join(flat(b.get(q, N)), flat(v))
                extra.append(v)
                i = len(params) if False else i
                continue
            if i < len(params):
                b[params[i]] = v
            else:
                extra.append(v)
            i += 1
        for k, v in kws:
            if k is None:
                for q in params[i:] + g.kwonly:
                    if q not in b:
                        fv = flat(v)
                        b[q] = V(fv.d, fv.c, E0, fv.o)
                extra.append(v)
            elif k in params or k in g.kwonly:
                b[k] = v
            else:
                extra.append(v)
        if g.vararg and extra:
            b[g.vararg] = data(extra)
        if g.kwarg and extra:
            b[g.kwarg] = data(extra)
        return b

    def site(self, node, name, quals, args, st, bound=None):
        if bound is not None:
            self.bounds.setdefault(bound[0], []).append((bound[1], self.ctx))
            x = self.exact.setdefault((id(node), bound[0]), {})
            for k, v in bound[1].items():
                x[k] = x.get(k, frozenset()) | v.d | (v.c - self.ctx)
        args = {k: ctl(V(flat(v).d, flat(v).c), self.ctx) for k, v in
                ((k, self.eff(v, st)) for k, v in args.items())}
        k = (id(node), name)
        old = self.sites.get(k)
        if old is not None:
            q = list(old[1]) + [x for x in quals if x not in old[1]]
            a = dict(old[2])
            for p_, v in args.items():
                a[p_] = join(a[p_], v) if p_ in a else v
            self.sites[k] = (name, q, a, node)
        else:
            self.sites[k] = (name, list(quals), args, node)

    def subst(self, v, g, bind, st):
        if v.t is not None:
            return V(*[getattr(self.subst(V(v.d, v.c, v.e), g, bind, st), a)
                       for a in ('d', 'c', 'e', 'o')],
                     tuple(self.subst(x, g, bind, st) for x in v.t), v.f)
        d, c, ee, f, sh = set(), set(), set(), set(v.f), set()
        o = {'>' + x for x in v.o if x.count('>') < 2 and x.startswith(('>', g.qual + '@'))}
        for a in v.s:
            x = flat(self.atom(a, g, bind, st))
            sh |= x.e | x.s
        t = None
        for a in v.d:
            x = self.atom(a, g, bind, st)
            if a in v.e and len(v.d) == 1 and x.t is not None:
                t = x.t
            fx = flat(self.eff(x, st))
            d |= fx.d
            c |= fx.c
            if a in v.e:
                ee |= fx.e
                o |= fx.o
            elif not self.strict:
                pass
            f |= fx.f if a in v.e else set()
        for a in v.c:
            x = flat(self.eff(self.atom(a, g, bind, st), st))
            c |= x.d | x.c
        return V(frozenset(d), frozenset(c), frozenset(ee), frozenset(o), t, frozenset(f),
                 frozenset(sh))

    def atom(self, a, g, bind, st):
        root, *path = a.split('\x1f')
        if root.startswith('~'):
            n = root[1:]
            if g.parent is self.f or (g.parent is not None and n in self.f.locals_ and
                                      is_ancestor(self.f, g)):
                v = st.env.get(n, N)
            elif self.f.parent is not None and outer_has(self.f, n):
                v = self.name(n, st) if n not in self.f.locals_ else V(frozenset([root]))
            else:
                return N
        else:
            v = bind.get(root, N)
        for x in path:
            v = self.read_attr(v, x, st)
        return v

    def apply(self, g, bind, st, sure):
        s = self.eng.sums.get(g.qual)
        if s is None:
            r = data(list(bind.values()))
            return V(r.d, r.c) if not self.strict else N
        wr = []
        for a, v in s.writes.items():
            wr.append((a, self.subst(v, g, bind, st)))
        ret = self.subst(s.ret, g, bind, st)
        for a, v in wr:
            root, *path = a.split('\x1f')
            if root.startswith('~'):
                n = root[1:]
                if n in self.f.locals_ and is_ancestor(self.f, g):
                    if not path:
                        st.env[n] = join(flat(st.env.get(n, N)), flat(v)) if n in st.env else v
                        continue
                    base = st.env.get(n, N)
                else:
                    base = self.name(n, st)
            else:
                base = bind.get(root, N)
            if root == g.self_name and not path:
                pass
            for x in path[:-1]:
                base = self.read_attr(base, x, st)
            b = flat(base)
            if path:
                must = a in s.must and sure
                for at in b.e | b.s:
                    k = extend(at, path[-1])
                    had = k in st.must
                    self.write(k, v, st, strong=must and len(b.e | b.s) == 1)
                    if not must and not had:
                        st.must.discard(k)
                for o in b.o:
                    k = (o, path[-1])
                    if k in st.heap and not must:
                        st.heap[k] = join(flat(st.heap[k]), flat(v))
                    else:
                        st.heap[k] = v
                    st.heap[o] = data([st.heap.get(o, N), v])
            else:
                for at in b.e | b.s:
                    had = at in st.must
                    self.mutate(V(e=frozenset([at])), v, st)
                    if not (a in s.must and sure) and not had:
                        st.must.discard(at)
                self.mutate_objs(b.o, v, st)
                # plain local arrays: the variable itself
                for nm, x in list(st.env.items()):
                    if x is bind.get(root) and x is not N:
                        fv = flat(v)
                        st.env[nm] = V(x.d | fv.d, x.c | fv.c, x.e, x.o, x.t, x.f, x.s)
        return ret

    def unknown(self, e, last, recv, pos, kws, st):
        fn = e.func
        ext = self.e.ext_log.get((self.f.qual, id(e)))
        if ext is None and isinstance(fn, (ast.Name, ast.Attribute)):
            ext = self.p.dotted(fn, self.f.module, self.f, self.imps)
        args = pos + [v for _, v in kws]
        is_ext = bool(ext)
        lastname = ext.rpartition('.')[2] if ext else last
        if ext == 'builtins.super':
            return N
        if (ext and ext.startswith(NOEFFECT_BASES)) or (
                last in LOGNAMES and isinstance(fn, ast.Attribute) and
                'log' in ast.unparse(fn.value).lower()):
            return N
        if ext and ext.startswith('builtins.') and lastname in NONE_FUNCS:
            return N if self.strict else as_ctl(data([self.eff(a, st) for a in args]))
        # compiled helpers and calls on values of unknown type, by name
        if ext and 'extensions' in ext:
            a = {f"arg{i}": v for i, v in enumerate(pos)}
            a.update({k: v for k, v in kws if k})
            self.site(e, lastname, ['ext:' + lastname], a, st)
        elif not is_ext and isinstance(fn, ast.Attribute) and last in self.p.methods_by_name and \
                not last.startswith('__'):
            cands = self.p.methods_by_name[last]
            a = {}
            for i, v in enumerate(pos):
                if isinstance(e.args[i], ast.Starred):
                    break
                nm = {(g.params[1:] if g.is_method else g.params)[i:i + 1][0]
                      if len(g.params[1:] if g.is_method else g.params) > i else None
                      for g in cands}
                a[nm.pop() if len(nm) == 1 and None not in nm else f"arg{i}"] = v
            a.update({k: v for k, v in kws if k})
            self.site(e, last, ['meth:' + last], a, st)
        allv = [self.eff(a, st) for a in args]
        if is_ext and lastname in SIZE_LAST and not ext.startswith('hexrd'):
            if lastname == 'full' and len(allv) > 1:
                r = data(allv[1:])
                c = data(allv[:1])
                return V(r.d, r.c | c.c | c.d, E0, frozenset([self.obj(e)]))
            r = data(allv)
            if lastname == 'range':
                if self.strict and not stars_in(e):
                    # the bound decides how often, not which values
                    i = 0 if len(allv) == 1 else 1
                    b, r = data(allv[i:i + 1]), data(allv[:i] + allv[i + 1:])
                    return V(r.d, r.c | b.c | b.d)
                return V(r.d, r.c)
            return V(E0, r.c | r.d, E0, frozenset([self.obj(e)]))
        if is_ext and lastname in LIKE_LAST:
            o = frozenset([self.obj(e)])
            if lastname == 'full_like':
                r = data(allv[1:])
                return V(r.d, r.c, E0, o)
            r = data(allv)
            return V(o=o) if self.strict else V(E0, r.c | r.d, E0, o)
        rv = self.eff(flat(recv), st) if recv is not None else N
        if lastname in PRED_LAST:
            return as_ctl(data(allv + [rv]))
        # values called or passed on: their own flows
        extra = []
        fs = set()
        for a in args + ([recv] if recv is not None and not isinstance(fn, ast.Attribute) else []):
            fs |= flat(a).f
        if isinstance(fn, ast.Name):
            fs |= flat(self.name(fn.id, st)).f
        others = data([V(flat(a).d, flat(a).c) for a in allv])
        for q in sorted(fs):
            g = self.p.functions.get(q)
            if g is None:
                continue
            self.note(g)
            b = {x: others for x in g.all_params}
            r = self.apply(g, b, st, False)
            extra.append(flat(r))
        # d.get('key') and getattr(x, 'name') read one entry
        if isinstance(fn, ast.Attribute) and last in ('get', 'pop') and e.args and \
                const_key(e.args[0]) and recv is not None:
            r = self.read_attr(recv, const_key(e.args[0]), st)
            if not self.strict and not flat(recv).o:
                r = join(flat(r), V(rv.d, rv.c))
            return join(flat(r), flat(data(pos[1:]))) if len(pos) > 1 else r
        if ext == 'builtins.getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            r = self.read_attr(pos[0], str(e.args[1].value), st)
            return r
        if ext == 'builtins.setattr' and len(e.args) == 3:
            if isinstance(e.args[1], ast.Constant):
                for a in flat(pos[0]).e:
                    self.write(extend(a, str(e.args[1].value)), pos[2], st)
                return N
            self.mutate(pos[0], data(pos[1:]), st)
            return N
        # in-place effects
        if recv is not None and isinstance(fn, ast.Attribute) and not is_ext:
            if last in MUTATORS or not self.strict:
                av = data(allv)
                if last in MUTATORS or flat(recv).o or not flat(recv).e:
                    if last in MUTATORS:
                        self.mutate(recv, V(av.d, av.c, E0, av.o), st)
                    else:
                        self.mutate_objs(flat(recv).o, V(av.d, av.c, E0, av.o), st)
                    if args:
                        self.taint_name(fn.value, V(av.d, av.c, E0, av.o), st)
        outs = [v for k, v in kws if k == 'out']
        for o in outs:
            av = data(allv)
            self.mutate(o, V(av.d, av.c), st)
            k = next(x for x in e.keywords if x.arg == 'out')
            self.taint_name(k.value, V(av.d, av.c), st)
        if is_ext and lastname in ('copyto', 'fill_diagonal', 'put', 'place', 'putmask') and pos:
            av = data(allv[1:])
            self.mutate(pos[0], V(av.d, av.c), st)
            self.taint_name(e.args[0], V(av.d, av.c), st)
        if is_ext and not self.strict and pos and not (ext or '').startswith(
                ('numpy.', 'builtins.', 'scipy.', 'math.')):
            # an unknown library function may write into what it is given
            av = data(allv)
            for a, x in zip(e.args, pos):
                if isinstance(a, ast.Name) and flat(x).o:
                    self.mutate_objs(flat(x).o, V(av.d, av.c), st)
        if is_ext and ('extensions' in ext or ext.startswith('numba')) and pos:
            av = data(allv)
            for a, x in zip(e.args, pos):
                if flat(x).o:
                    self.mutate_objs(flat(x).o, V(av.d, av.c), st)
        r = data(allv + ([rv] if recv is not None else []) + extra)
        objs = frozenset([self.obj(e)])
        if not self.strict or lastname in ALIAS_LAST:
            objs |= r.o
        ee = E0
        sh = E0
        if recv is not None and isinstance(fn, ast.Attribute) and last in (
                'values', 'items', 'reshape', 'ravel', 'squeeze', 'view', '__getitem__', 'get',
                'setdefault'):
            sh = flat(recv).s
        if recv is not None and isinstance(fn, ast.Attribute) and last in (
                'copy', 'values', 'items', 'keys', 'reshape', 'ravel', 'flatten', 'astype',
                'squeeze', 'tolist', 'view', '__getitem__', 'get', 'pop'):
            ee = flat(recv).e
        if is_ext and pos and lastname in ALIAS_LAST:
            ee = flat(pos[0]).e
        return V(r.d, r.c, ee & r.d, objs, None, E0, sh)


ALIAS_LAST = {'asarray', 'atleast_1d', 'atleast_2d', 'ascontiguousarray', 'array', 'copy',
              'deepcopy', 'list', 'tuple', 'dict', 'set', 'sorted', 'reversed', 'iter',
              'reshape', 'ravel', 'squeeze', 'transpose', 'asanyarray', 'asfortranarray',
              'float64', 'values', 'items'}


def exc_name(e):
    if isinstance(e, ast.Call):
        e = e.func
    elif isinstance(e, ast.Name) and e.id[:1].islower():
        return '?'              # an exception held in a variable, whatever its name
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.Name):
        return e.id
    return '?'


def handler_names(h):
    if h.type is None:
        return ['BaseException']
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [exc_name(t) for t in ts]


def reraises(h):
    """the handler raises again whenever it ends: its last statement is a raise."""
    def ends(body):
        if not body:
            return False
        x = body[-1]
        if isinstance(x, ast.Raise):
            return True
        if isinstance(x, ast.If):
            return ends(x.body) and ends(x.orelse)
        return False
    if ends(h.body):
        # the caught exception itself, or one the handler names
        return all(r.exc is None or (isinstance(r.exc, ast.Name) and r.exc.id == h.name)
                   for r in ast.walk(h) if isinstance(r, ast.Raise))
    return False


def catches(p, f, handler, name):
    if handler in ('BaseException', name):
        return True
    import builtins
    b, h = getattr(builtins, name, None), getattr(builtins, handler, None)
    if isinstance(b, type) and isinstance(h, type):
        return issubclass(b, h)
    if handler == 'Exception':
        return name not in ('SystemExit', 'KeyboardInterrupt', 'GeneratorExit')
    for c in p.classes.values():
        if c.name == name:
            names = {k.name for k in c.mro()}
            for k in c.mro():
                for x in k.node.bases:
                    names.add(exc_name(x))
            if handler in names:
                return True
            if isinstance(h, type) and any(
                    isinstance(getattr(builtins, n, None), type) and
                    issubclass(getattr(builtins, n), h) for n in names):
                return True
    return False


def covers(st, x):
    return x in st.must


def is_super(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'super'


def site_name(g):
    if g.name == '__init__' and g.cls is not None:
        return g.cls.name
    return g.name


def const_key(s):
    if isinstance(s, ast.Constant) and isinstance(s.value, str):
        return '[' + s.value + ']'
    return None


def is_ancestor(f, g):
    x = g.parent
    while x is not None:
        if x is f:
            return True
        x = x.parent
    return False


def outer_has(f, n):
    x = f.parent
    while x is not None:
        if n in x.locals_:
            return True
        x = x.parent
    return False


def walk_own(s):
    st = [s]
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                st.append(c)


def stars_in(e):
    return any(isinstance(a, ast.Starred) for a in e.args) or bool(e.keywords)


def stored_names(body):
    return {n.id for s in body for n in ast.walk(s)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def has_loop_exit(s):
    """break/continue of the innermost loop inside an if statement."""
    st = list(s.body) + list(s.orelse)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor, ast.FunctionDef, ast.ClassDef)):
            continue
        st.extend(c for c in ast.iter_child_nodes(n) if isinstance(c, (ast.stmt, ast.ExceptHandler)))
    return False


def has_loop_exit_deep(s):
    return False


def has_break(s):
    return any(isinstance(n, (ast.Break, ast.Continue)) for n in walk_own(s))


def returns(s):
    return any(isinstance(n, ast.Return) for n in walk_own(s))


def contains_return(s):
    return returns(s)


def always_entered(s):
    """for x in (a, b): -- a literal, non-empty sequence."""
    if isinstance(s, ast.For) and isinstance(s.iter, (ast.Tuple, ast.List)) and s.iter.elts:
        return True
    if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
        return True
    return False
