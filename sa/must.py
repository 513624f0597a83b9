"""Calls that are made on every successful path through a function.

A loop body counts as executed (the obligation is then per element); a path that
ends in an exception counts as having made every call; so does an early return
taken because the new value equals the old one.
"""
import ast

TOP = None          # the path cannot be taken successfully


def meet(a, b):
    return b if a is TOP else a if b is TOP else a & b


def plus(a, b):
    return TOP if a is TOP or b is TOP else a | b


def equality(test):
    """+1: the test establishes that two values are equal, -1: that they differ, else 0"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return -equality(test.operand)
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and not any(
            isinstance(x, ast.Constant) for x in [test.left] + test.comparators):
        return {ast.Eq: 1, ast.Is: 1, ast.NotEq: -1, ast.IsNot: -1}.get(type(test.ops[0]), 0)
    if isinstance(test, ast.Call):
        n = test.func.attr if isinstance(test.func, ast.Attribute) else getattr(
            test.func, 'id', '')
        if n in ('array_equal', 'allclose', 'isclose', 'array_equiv'):
            return 1
        if n in ('all', 'any') and (test.args or isinstance(test.func, ast.Attribute)):
            r = equality(test.args[0] if test.args else test.func.value)
            return r if r == (1 if n == 'all' else -1) else 0
    return 0


class Must:
    def __init__(self, eng):
        self.eng = eng
        self.memo = {}
        self.maymemo = {}

    def sites(self, f):
        out = {}
        for name, quals, args, node in self.eng.sums[f.qual].sites:
            qs = [q for q in quals if q in self.eng.sums]
            if qs and len(qs) == len(quals):
                out.setdefault(id(node), set()).update(qs)
        return out

    def of(self, q):
        """functions called on every successful path, closed over callees"""
        if q in self.memo:
            return self.memo[q]
        self.memo[q] = frozenset()
        f = self.eng.p.functions[q]
        if f.is_lambda or isinstance(f.node, ast.Lambda):
            return frozenset()
        self_ = Walk(self, self.sites(f))
        r = self_.function(f.node.body)
        self.memo[q] = TOP if r is TOP or self.eng.sums[q].noret else frozenset(r)
        return self.memo[q]

    def may(self, q):
        if q in self.maymemo:
            return self.maymemo[q]
        seen, todo = set(), [q]
        while todo:
            x = todo.pop()
            for s in self.eng.sums[x].sites if x in self.eng.sums else ():
                for y in s[1]:
                    if y in self.eng.sums and y not in seen:
                        seen.add(y)
                        todo.append(y)
        self.maymemo[q] = seen
        return seen


class Walk:
    def __init__(self, m, sites):
        self.m = m
        self.s = sites

    def function(self, body):
        self.exits = []
        end = self.block(body, frozenset(), [])
        out = end
        for x in self.exits:       # TOP: that exit raises
            out = meet(out, x)
        return out

    def calls(self, e):
        """calls certainly made when e is evaluated"""
        out = frozenset()
        if e is None:
            return out
        todo = [e]
        while todo:
            n = todo.pop()
            if id(n) in self.s:
                r = TOP
                for q in self.s[id(n)]:
                    r = meet(r, plus(self.m.of(q), frozenset([q])))
                if r is TOP:
                    return TOP          # never comes back
                out |= r
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.IfExp):
                todo.append(n.test)
                x = meet(self.calls(n.body), self.calls(n.orelse))
                if x is TOP:
                    return TOP
                out |= x
            elif isinstance(n, ast.BoolOp):
                todo.append(n.values[0])
            else:
                todo.extend(ast.iter_child_nodes(n))
        return out

    def block(self, body, cur, loop):
        """calls made when the block ends normally (TOP: it does not)."""
        for s in body:
            if cur is TOP:
                return TOP
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.Return):
                self.exits.append(plus(cur, self.calls(s.value)))
                return TOP
            if isinstance(s, ast.Raise):
                return TOP
            if isinstance(s, (ast.Break, ast.Continue)):
                if loop:
                    loop[-1].append(cur)
                return TOP
            if isinstance(s, ast.If):
                cur = plus(cur, self.calls(s.test))
                if cur is TOP:
                    return TOP
                n0 = len(self.exits)
                a = self.block(s.body, cur, loop)
                n1 = len(self.exits)
                b = self.block(s.orelse, cur, loop)
                same = equality(s.test)
                if same > 0 and (b is not TOP or len(self.exits) > n1):
                    del self.exits[n0:n1]
                    a = TOP
                elif same < 0 and (a is not TOP or n1 > n0):
                    del self.exits[n1:]
                    b = TOP
                cur = meet(a, b)
                continue
            if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
                cur = plus(cur, self.calls(s.iter if not isinstance(s, ast.While) else s.test))
                if cur is TOP:
                    return TOP
                inner = loop + [[]]
                r = self.block(s.body, cur, inner)
                for x in inner[-1]:
                    r = meet(r, x)
                cur = cur if r is TOP else r
                cur = self.block(s.orelse, cur, loop) if s.orelse else cur
                continue
            if isinstance(s, (ast.With, ast.AsyncWith)):
                for it in s.items:
                    cur = plus(cur, self.calls(it.context_expr))
                cur = self.block(s.body, cur, loop)
                continue
            if isinstance(s, ast.Try):
                a = self.block(s.body, cur, loop)
                if a is not TOP and s.orelse:
                    a = self.block(s.orelse, a, loop)
                for h in s.handlers:
                    a = meet(a, self.block(h.body, cur, loop))
                cur = a if a is TOP else self.block(s.finalbody, a, loop)
                continue
            if isinstance(s, ast.Match):
                cur = plus(cur, self.calls(s.subject))
                a = TOP
                total = False
                for c in s.cases:
                    a = meet(a, self.block(c.body, cur, loop))
                    total |= isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None \
                        and c.guard is None
                cur = a if total else meet(a, cur)
                continue
            cur = plus(cur, self.calls(s))
        return cur
