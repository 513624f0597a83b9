"""Syntax-directed definite-assignment analysis of one function body.

State: names bound on every path, plus, per branch condition (by text), the
names bound on every path on which that condition had that value (so that
`if c: x = ...` followed by `if c: use(x)` is understood).
Loops are assumed to run at least once for the question asked here (a name
bound only inside a loop counts as bound behind it).
"""
import ast

TERMINATORS = {'sys.exit', 'os._exit', 'os.abort', 'exit', 'quit'}


class S:
    __slots__ = ('defs', 'cond', 'vals', 'facts')

    def __init__(self, defs, cond=None, vals=None, facts=None):
        self.defs = defs
        self.cond = cond or {}
        self.vals = vals or {}      # name -> constant value known on this path
        self.facts = facts or set()  # formulas (negation normal form) true on this path

    def copy(self):
        return S(set(self.defs), {k: set(v) for k, v in self.cond.items()}, dict(self.vals),
                 set(self.facts))


def nnf(test, truth):
    """Negation normal form as text."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return nnf(test.operand, not truth)
    if isinstance(test, ast.BoolOp):
        conj = isinstance(test.op, ast.And) == truth
        parts = sorted(nnf(v, truth) for v in test.values)
        return '(' + (' and ' if conj else ' or ').join(parts) + ')'
    k, pol = cond_key(test)
    return k if pol == truth else f"(not {k})"


def cond_key(test):
    pol = True
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        pol = not pol
        test = test.operand
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = test.ops[0]
        l, r = ast.unparse(test.left), ast.unparse(test.comparators[0])
        if isinstance(op, ast.IsNot):
            return f"{l} is {r}", not pol
        if isinstance(op, ast.NotEq):
            return f"{l} == {r}", not pol
        if isinstance(op, ast.NotIn):
            return f"{l} in {r}", not pol
        return ast.unparse(test), pol
    return ast.unparse(test), pol


def names_in(text_expr):
    return {n.id for n in ast.walk(text_expr) if isinstance(n, ast.Name)}


def facts(test, truth):
    """Atomic (text, polarity) facts implied by test having that truth value."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return facts(test.operand, not truth)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == truth:
            out = []
            for v in test.values:
                out += facts(v, truth)
            return out + [(ast.unparse(test), truth)]
        return [(ast.unparse(test), truth)]
    k, pol = cond_key(test)
    return [(k, pol == truth)]


def meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    cond = {}
    for k in a.cond.keys() | b.cond.keys():
        v = (a.cond.get(k, set()) | a.defs) & (b.cond.get(k, set()) | b.defs)
        if v:
            cond[k] = v
    return S(a.defs & b.defs, cond, {k: v for k, v in a.vals.items()
                                     if k in b.vals and b.vals[k] == v}, a.facts & b.facts)


class Definite:
    """report(name, node, how) is called for loads of possibly unbound locals."""

    def __init__(self, func, terminates=None):
        self.func = func
        self.locals_ = func.locals_
        self.terminates = terminates or (lambda call: False)
        self.reports = {}
        self.loops = []
        self.atoms = {}

    def run(self):
        st = S(set(self.func.all_params))
        self.block(self.func.body, st)
        return self.reports

    # ---- expressions
    def use(self, e, st, bound=frozenset()):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals_ and e.id not in st.defs \
                    and e.id not in bound:
                self.reports.setdefault(e.id, e)
            return
        if isinstance(e, ast.Lambda):
            return      # evaluated later
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, st, bound)
            self.bind(e.target.id, st)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for g in e.generators:
                self.use(g.iter, st, b)
                b |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for c in g.ifs:
                    self.use(c, st, b)
            if isinstance(e, ast.DictComp):
                self.use(e.key, st, b)
                self.use(e.value, st, b)
            else:
                self.use(e.elt, st, b)
            return
        if isinstance(e, ast.BoolOp):
            s2 = st.copy()
            for i, v in enumerate(e.values):
                self.use(v, s2, bound)
                if i == 0:
                    st.defs |= s2.defs
                self.assume(v, isinstance(e.op, ast.And), s2)
            return
        if isinstance(e, ast.IfExp):
            self.use(e.test, st, bound)
            a, b = st.copy(), st.copy()
            self.assume(e.test, True, a)
            self.assume(e.test, False, b)
            self.use(e.body, a, bound)
            self.use(e.orelse, b, bound)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.slice if hasattr(ast, 'slice') else ast.expr)):
                self.use(c, st, bound)

    def bind(self, name, st, value=None):
        st.defs.add(name)
        # conditions that mention the name are no longer what they were
        for k in list(st.cond):
            if name in self.atom_names(k[0]):
                del st.cond[k]
        st.facts = {k for k in st.facts if name not in self.atom_names(k)}
        st.vals.pop(name, None)
        if isinstance(value, ast.Constant):
            st.vals[name] = value.value

    def atom_names(self, text):
        r = self.atoms.get(text)
        if r is None:
            try:
                r = names_in(ast.parse(text, mode='eval'))
            except SyntaxError:
                r = set()
            self.atoms[text] = r
        return r

    def target(self, t, st, value=None):
        if isinstance(t, ast.Name):
            self.bind(t.id, st, value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, st)
        elif isinstance(t, ast.Starred):
            self.target(t.value, st)
        else:
            self.use_target(t, st)

    def use_target(self, t, st):
        if isinstance(t, ast.Attribute):
            self.use(t.value, st)
            # an attribute of a name that occurs in a condition may change it
            for k in list(st.cond):
                if f".{t.attr}" in k[0]:
                    del st.cond[k]
            st.facts = {k for k in st.facts if f".{t.attr}" not in k}
        elif isinstance(t, ast.Subscript):
            self.use(t.value, st)
            self.use(t.slice, st)

    def assume(self, test, truth, st):
        for k in facts(test, truth):
            st.defs |= st.cond.get(k, set())
        st.facts.add(nnf(test, truth))
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == truth:
            for v in test.values:
                st.facts.add(nnf(v, truth))
        return st

    def infeasible(self, test, truth, st):
        """test cannot have this truth value on this path (known constants)."""
        v = self.const_truth(test, st)
        return v is not None and v != truth

    def const_truth(self, test, st):
        if isinstance(test, ast.Constant):
            return bool(test.value)
        if nnf(test, True) in st.facts:
            return True
        if nnf(test, False) in st.facts:
            return False
        if isinstance(test, ast.Name) and test.id in st.vals:
            return bool(st.vals[test.id])
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            v = self.const_truth(test.operand, st)
            return None if v is None else not v
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name) and test.left.id in st.vals and \
                isinstance(test.comparators[0], ast.Constant):
            a, b = st.vals[test.left.id], test.comparators[0].value
            op = test.ops[0]
            if isinstance(op, (ast.Is, ast.Eq)):
                return a == b and type(a) is type(b)
            if isinstance(op, (ast.IsNot, ast.NotEq)):
                return not (a == b and type(a) is type(b))
        return None

    # ---- statements; return the state behind, None when it is not reached
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is not None:
            return m(s, st)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.use(c, st)
        return st

    def s_Expr(self, s, st):
        self.use(s.value, st)
        if isinstance(s.value, ast.Call) and (
                ast.unparse(s.value.func) in TERMINATORS or self.terminates(s.value)):
            return None
        return st

    def s_Assign(self, s, st):
        self.use(s.value, st)
        for t in s.targets:
            self.target(t, st, s.value)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.use(s.value, st)
            self.target(s.target, st, s.value)
        return st

    def s_AugAssign(self, s, st):
        self.use(s.value, st)
        if isinstance(s.target, ast.Name):
            self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            self.bind(s.target.id, st)
        else:
            self.use_target(s.target, st)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                st.defs.discard(t.id)
                for v in st.cond.values():
                    v.discard(t.id)
            else:
                self.use_target(t, st)
        return st

    def s_Return(self, s, st):
        self.use(s.value, st)
        return None

    def s_Raise(self, s, st):
        self.use(s.exc, st)
        self.use(s.cause, st)
        return None

    def s_Assert(self, s, st):
        self.use(s.test, st)
        self.use(s.msg, st.copy())
        if isinstance(s.test, ast.Constant) and not s.test.value:
            return None
        return self.assume(s.test, True, st)

    def s_Import(self, s, st):
        for a in s.names:
            st.defs.add(a.asname or a.name.split('.')[0])
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        for d in s.decorator_list:
            self.use(d, st)
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
            self.use(d, st)
        st.defs.add(s.name)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        for d in s.decorator_list + s.bases:
            self.use(d, st)
        st.defs.add(s.name)
        return st

    def s_If(self, s, st):
        self.use(s.test, st)
        a = st.copy() if not self.infeasible(s.test, True, st) else None
        b = st.copy() if not self.infeasible(s.test, False, st) else None
        if a is not None:
            self.assume(s.test, True, a)
        if b is not None:
            self.assume(s.test, False, b)
        before = set(st.defs)
        assigned = stores(s)
        a2 = self.block(s.body, a) if a is not None else None
        b2 = self.block(s.orelse, b) if b is not None else None
        out = meet(a2, b2)
        if out is None:
            return None
        out = out.copy()
        changed = assigned & names_in(s.test)
        if not changed:
            for truth, x in ((True, a2), (False, b2)):
                if x is None:
                    continue
                for k in facts(s.test, truth):
                    # the fact identifies the branch only when its negation rules it out
                    if self.decides(s.test, truth, k):
                        new = x.defs - before
                        if new:
                            out.cond.setdefault(k, set()).update(new)
            if a2 is None or b2 is None:
                pass
            # contradiction: k known to lead to the dead branch needs nothing
            for truth, x in ((True, a2), (False, b2)):
                if x is None and (a2 is not None or b2 is not None):
                    other = b2 if truth else a2
                    for k in facts(s.test, not truth):
                        if self.decides(s.test, not truth, k):
                            out.cond.setdefault(k, set()).update(other.defs - before)
        return out

    @staticmethod
    def decides(test, truth, fact):
        """If `fact` holds, did the branch test==truth run?  Only for a fact
        that is equivalent to the test: the test itself or its atom."""
        k, pol = cond_key(test) if not isinstance(test, ast.BoolOp) else (ast.unparse(test), True)
        if fact[0] == k:
            return True
        if isinstance(test, ast.BoolOp):
            # or: any true operand decides True; and: any false operand decides False
            if isinstance(test.op, ast.Or) and truth:
                return any(fact in facts(v, True) for v in test.values)
            if isinstance(test.op, ast.And) and not truth:
                return any(fact in facts(v, False) for v in test.values)
        return False

    def loop(self, s, st, infinite=False):
        self.loops.append([])
        out = self.block(s.body, st.copy())
        brk = self.loops.pop()
        conts = [x for k, x in brk if k == 'c']
        brks = [x for k, x in brk if k == 'b']
        end = out
        for x in conts:
            end = meet(end, x)
        if end is not None:
            # bound on some way round counts (runs at least once)
            if s.orelse:
                end = self.block(s.orelse, end.copy())
        if infinite:
            end = None
        for x in brks:
            end = meet(end, x)
        return end

    def s_For(self, s, st):
        self.use(s.iter, st)
        st = st.copy()
        self.target(s.target, st)
        out = self.loop(s, st)
        return out

    s_AsyncFor = s_For

    def s_While(self, s, st):
        self.use(s.test, st)
        inf = isinstance(s.test, ast.Constant) and bool(s.test.value)
        st2 = self.assume(s.test, True, st.copy())
        out = self.loop(s, st2, inf)
        if out is None and not inf:
            return st       # body always leaves: reached when the test is false at once
        return out

    def s_Break(self, s, st):
        if self.loops:
            self.loops[-1].append(('b', st.copy()))
        return None

    def s_Continue(self, s, st):
        if self.loops:
            self.loops[-1].append(('c', st.copy()))
        return None

    def s_With(self, s, st):
        for i in s.items:
            self.use(i.context_expr, st)
            if i.optional_vars is not None:
                self.target(i.optional_vars, st)
        sup = any(isinstance(i.context_expr, ast.Call) and
                  ast.unparse(i.context_expr.func).endswith('suppress') for i in s.items)
        if sup:
            before = st.copy()
            return meet(self.block(s.body, st), before)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        pre = st.copy()
        body = self.block(s.body, st.copy())
        # at a handler: whatever was bound before the first statement that can fail
        hst = pre
        i = 0
        hs = pre.copy()
        for x in s.body:
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and \
                    harmless(x.value):
                r = self.quiet(lambda: self.stmt(x, hs))
                if r is None:
                    break
                hs = r
            else:
                break
        hst = hs
        if body is not None and s.orelse:
            body = self.block(s.orelse, body)
        out = body
        exc_ends = []
        for h in s.handlers:
            b = hst.copy()
            if h.type is not None:
                self.use(h.type, b)
            if h.name:
                b.defs.add(h.name)
            e = self.block(h.body, b)
            if e is not None:
                out = meet(out, e) if out is not None or exc_ends else e
                exc_ends.append(e)
        if s.finalbody:
            f = self.block(s.finalbody, (meet(hst.copy(), out) if out is not None else hst).copy())
            if out is None or f is None:
                return None
            out = out.copy()
            out.defs |= stores_def(s.finalbody, f) - pre.defs
            out.defs |= f.defs
        return out

    s_TryStar = s_Try

    def quiet(self, fn):
        keep = dict(self.reports)
        r = fn()
        self.reports = keep
        return r

    def s_Match(self, s, st):
        self.use(s.subject, st)
        out = None
        total = False
        any_ = False
        for c in s.cases:
            b = st.copy()
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    b.defs.add(n.name)
                if isinstance(n, ast.MatchMapping) and n.rest:
                    b.defs.add(n.rest)
            if c.guard is not None:
                self.use(c.guard, b)
            e = self.block(c.body, b)
            if e is not None:
                out = meet(out, e) if any_ else e
                any_ = True
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                total = True
        if not total:
            out = meet(out, st) if any_ else st
        return out

    def s_Global(self, s, st):
        return st

    s_Nonlocal = s_Global


def harmless(e):
    return all(isinstance(n, (ast.Constant, ast.List, ast.Dict, ast.Tuple, ast.Load, ast.Name,
                              ast.UnaryOp, ast.USub, ast.Attribute)) for n in ast.walk(e))


def stores(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
    return out


def stores_def(stmts, st):
    return set()
