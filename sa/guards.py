"""Conditions under which a function raises, in a form independent of how they are written.

A condition becomes a set of literals: comparisons with a direction that does
not change when the comparison is negated together with its branch, when its
sides are swapped, or when it is split over nested tests, named by a local
variable or wrapped in not/any/all.
"""
import ast

from . import deps

NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
SYM = {ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: '==',
       ast.IsNot: '!='}


class Lits:
    def __init__(self, p, f, known=None):
        self.p = p
        self.known = known
        self.f = f
        self.defs = {}
        self.multi = set()
        for n in ast.walk(f.node):
            ts = []
            if isinstance(n, ast.Assign):
                ts = [(t, n.value) for t in n.targets]
            elif isinstance(n, (ast.AugAssign, ast.For, ast.comprehension)):
                ts = [(n.target, None)]
            elif isinstance(n, ast.NamedExpr):
                ts = [(n.target, n.value)]
            elif isinstance(n, ast.AnnAssign):
                ts = [(n.target, n.value)]
            elif isinstance(n, (ast.withitem,)) and n.optional_vars is not None:
                ts = [(n.optional_vars, None)]
            for t, v in ts:
                if isinstance(t, ast.Name):
                    if t.id in self.defs:
                        self.multi.add(t.id)
                    self.defs[t.id] = v
                else:
                    for m in ast.walk(t):
                        if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                            self.multi.add(m.id)
                            self.defs.setdefault(m.id, None)

    def const(self, e, depth=0):
        if isinstance(e, ast.Constant):
            return (repr(e.value) if not isinstance(e.value, (int, float)) or
                    isinstance(e.value, bool) else repr(float(e.value)))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            c = self.const(e.operand)
            return '-' + c if c else None
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            cs = [self.const(x) for x in e.elts]
            return '(' + ','.join(sorted(cs)) + ')' if all(cs) else None
        if isinstance(e, ast.Name) and depth < 3:
            if e.id in self.defs and e.id not in self.multi and self.defs[e.id] is not None \
                    and e.id not in self.f.all_params:
                return self.const(self.defs[e.id], depth + 1)
            if e.id not in self.defs and e.id not in self.f.all_params:
                m = self.f.module
                v = m.globals_.get(e.id)
                v = v[0] if v and len(v) == 1 else None
                if isinstance(v, ast.AST):
                    return self.const(v, depth + 1)
        return None

    def operand(self, e, depth=0):
        c = self.const(e)
        if c:
            return c
        if isinstance(e, ast.Name):
            if e.id in self.f.all_params and e.id not in self.defs:
                return 'p:' + e.id
            if e.id in self.defs and e.id not in self.multi and self.defs[e.id] is not None \
                    and depth < 3 and e.id not in self.f.all_params:
                return self.operand(self.defs[e.id], depth + 1)
            return '*'
        if isinstance(e, ast.Attribute):
            if e.attr in ('ndim', 'shape', 'size', 'dtype'):
                return e.attr
            return '.' + e.attr.lstrip('_')
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == 'shape':
                return 'shape'
            return self.operand(e.value, depth)
        if isinstance(e, ast.Call):
            fn = e.func
            if self.fresh(fn):
                return '*'
            if isinstance(fn, ast.Name):
                if fn.id in ('float', 'int', 'str', 'abs') and len(e.args) == 1:
                    return '*'
                return fn.id + '()'
            if isinstance(fn, ast.Attribute):
                return '.' + fn.attr + '()'
        return '*'

    def fresh(self, fn):
        """a function of the project that the contract does not know."""
        if self.known is None:
            return False
        r = None
        if isinstance(fn, ast.Name):
            r = self.f.nested.get(fn.id) or self.p.resolve(fn, self.f.module, self.f, {})
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and \
                fn.value.id == self.f.self_name and self.f.cls is not None:
            r = self.f.cls.find('methods', fn.attr)
        q = getattr(r, 'qual', None)
        return q is not None and hasattr(r, 'all_params') and q not in self.known

    def cmp(self, o, a, b):
        if o in SYM:
            s = SYM[o]
            if s in ('==', '!='):
                a, b = sorted((a, b))
            return (s, a, b)
        if o in (ast.Lt, ast.LtE):
            return ('<' if o is ast.Lt else '<=', a, b)
        return ('<' if o is ast.Gt else '<=', b, a)

    def dnf(self, t, pos, depth=0):
        """Alternatives, each a set of literals that together give test t the value pos."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, (ast.Not, ast.Invert)):
            return self.dnf(t.operand, not pos, depth)
        if isinstance(t, ast.BoolOp) or (isinstance(t, ast.BinOp) and
                                         isinstance(t.op, (ast.BitAnd, ast.BitOr))):
            vals = t.values if isinstance(t, ast.BoolOp) else [t.left, t.right]
            conj = isinstance(t.op, (ast.And, ast.BitAnd)) == pos
            parts = [self.dnf(v, pos, depth) for v in vals]
            return product(parts) if conj else [c for x in parts for c in x]
        if isinstance(t, ast.NamedExpr):
            return self.dnf(t.value, pos, depth)
        if isinstance(t, ast.Compare):
            parts = []
            left = t.left
            for op, right in zip(t.ops, t.comparators):
                o = type(op) if pos else NEG[type(op)]
                parts.append([frozenset([self.cmp(o, self.operand(left), self.operand(right))])])
                left = right
            return product(parts) if pos else [c for x in parts for c in x]
        if isinstance(t, (ast.GeneratorExp, ast.ListComp)):
            parts = [self.dnf(t.elt, pos, depth)]
            if pos:
                parts += [self.dnf(c, True, depth) for g in t.generators for c in g.ifs]
            return product(parts)
        if isinstance(t, ast.Call):
            fn = t.func
            last = fn.attr if isinstance(fn, ast.Attribute) else \
                fn.id if isinstance(fn, ast.Name) else ''
            inner = None
            if last in ('any', 'all', 'bool', 'logical_not', 'logical_and', 'logical_or'):
                if last == 'logical_not' and len(t.args) == 1:
                    return self.dnf(t.args[0], not pos, depth)
                if last in ('logical_and', 'logical_or') and len(t.args) == 2:
                    return self.dnf(ast.BoolOp(ast.And() if last == 'logical_and' else ast.Or(),
                                               t.args), pos, depth)
                if len(t.args) >= 1:
                    inner = t.args[0]
                elif isinstance(fn, ast.Attribute) and not t.args:
                    inner = fn.value
            if inner is not None and last in ('any', 'all', 'bool'):
                x = self.dnf(inner, pos, depth)
                if (last == 'any') != pos and last != 'bool':
                    # every element has to satisfy it
                    x = [frozenset(('all ' + l[0],) + l[1:] for l in c) for c in x]
                return x
            if last in ('isinstance', 'issubclass') and len(t.args) == 2:
                cs = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
                names = sorted(ast.unparse(c).split('.')[-1] for c in cs)
                a = self.operand(t.args[0])
                if pos:
                    return [frozenset([(last, a, n)]) for n in names]
                return [frozenset(('not ' + last, a, n) for n in names)]
            if last == 'hasattr' and len(t.args) == 2:
                return [frozenset([('hasattr' if pos else 'not hasattr', self.operand(t.args[0]),
                                    self.operand(t.args[1]))])]
            return [frozenset([('true' if pos else 'false', '*' if self.fresh(fn) else
                                last + '()', '')])]
        if isinstance(t, ast.Name):
            if t.id in self.defs and t.id not in self.multi and self.defs[t.id] is not None and \
                    depth < 4 and t.id not in self.f.all_params:
                return self.dnf(self.defs[t.id], pos, depth + 1)
            return [frozenset([('true' if pos else 'false', self.operand(t), '')])]
        if isinstance(t, ast.Constant):
            return [frozenset()] if bool(t.value) == pos else []
        return [frozenset([('true' if pos else 'false', self.operand(t), '')])]

    def lits(self, t, pos):
        return frozenset().union(*self.dnf(t, pos))


def product(parts):
    out = [frozenset()]
    for x in parts:
        out = [a | b for a in out for b in x]
        if len(out) > 64:
            return [frozenset().union(*out)]
    return out


def ends(body):
    if not body:
        return False
    x = body[-1]
    if isinstance(x, (ast.Raise, ast.Return, ast.Continue, ast.Break)):
        return True
    if isinstance(x, ast.If):
        return ends(x.body) and ends(x.orelse)
    return False


def raises(p, f, known=None):
    """[(exception name, clauses, context literals, statement)] of the raise and assert
    statements of f: it raises when all literals of one clause hold; the context literals
    are known to hold there because of earlier exits."""
    lt = Lits(p, f, known)
    out = []

    def block(body, path, ctx):
        """path: alternatives; ctx: literals from earlier exits."""
        ctx = set(ctx)
        ret = [[frozenset()]]          # earlier return/continue in this very block
        for s in body:
            if isinstance(s, ast.Raise):
                if s.exc is not None:
                    out.append((deps.exc_name(s.exc), product([path] + ret), frozenset(ctx), s))
            elif isinstance(s, ast.Assert):
                out.append(('AssertionError', product([path, lt.dnf(s.test, False)]),
                            frozenset(ctx), s))
            elif isinstance(s, ast.If):
                yes, no = lt.dnf(s.test, True), lt.dnf(s.test, False)
                block(s.body, product([path, yes]), ctx)
                block(s.orelse, product([path, no]), ctx)
                if ends(s.body):
                    ctx |= frozenset().union(*no)
                    if not isinstance(s.body[-1], ast.Raise):
                        ret.append(no)
                if s.orelse and ends(s.orelse):
                    ctx |= frozenset().union(*yes)
                    if not isinstance(s.orelse[-1], ast.Raise):
                        ret.append(yes)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                block(s.body, path, ctx)
                block(s.orelse, path, ctx)
            elif isinstance(s, ast.While):
                block(s.body, product([path, lt.dnf(s.test, True)]), ctx)
                block(s.orelse, path, ctx)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                block(s.body, path, ctx)
            elif isinstance(s, ast.Try):
                block(s.body, path, ctx)
                for h in s.handlers:
                    block(h.body, product([path, [frozenset([('except', n, '')]) for n in
                                                  deps.handler_names(h)]]), ctx)
                block(s.orelse, path, ctx)
                block(s.finalbody, path, ctx)
            elif isinstance(s, ast.Match):
                seen = set()
                subj = lt.operand(s.subject)
                for c in s.cases:
                    ks = set()
                    for n in ast.walk(c.pattern):
                        if isinstance(n, ast.MatchValue):
                            ks.add(lt.operand(n.value))
                    pos = [frozenset([lt.cmp(ast.Eq, subj, v)]) for v in sorted(ks)]
                    neg = frozenset(lt.cmp(ast.NotEq, subj, v) for v in seen)
                    block(c.body, product([path, pos or [neg]]), ctx | neg)
                    seen |= ks
    block(f.body, [frozenset()], ())
    return out


def match(want, have, new=False):
    """does literal `have` state the recorded literal `want`?"""
    if have[0].startswith('all ') and not want[0].startswith('all '):
        return False               # now every element has to satisfy it
    if have[0].replace('all ', '') in ('true', 'false') and (
            have[1] == '*' or new and have[1].startswith('p:')):
        return True                # a test made elsewhere and handed over
    if want[0] != have[0]:
        return False
    if have[0].split()[-1] in ('==', '!=') and len(have) == 3 and \
            operands(want[1:], (have[2], have[1]), new):
        return True
    return operands(want[1:], have[1:], new)


def operands(want, have, new):
    for a, b in zip(want, have):
        if a == b or a == '*' or b == '*':
            continue
        if new and b.startswith('p:'):
            continue               # a value computed by the caller
        return False
    return True


def implied(clause, ctx, have, new=False):
    """whenever the recorded clause holds, does the current clause `have` hold?"""
    want = list(clause) + list(ctx)
    return all(any(match(w, h, new) for w in want) for h in have)
