"""Developer tool: behaviour-preserving rewrites applied to every function of a copy of the
package, to see whether the checks stay quiet.   refactor.py <kind> <outdir> [seed]"""
import ast, os, random, shutil, sys, builtins
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

def names(n, ctx=None):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx)):
            out.add(x.id)
    return out

def local_names(f):
    out = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    for v in (f.args.vararg, f.args.kwarg):
        if v: out.add(v.arg)
    g = set()
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): out.add(x.id)
        if isinstance(x, (ast.Global, ast.Nonlocal)): g |= set(x.names)
        if isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f: out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names: out.add(a.asname or a.name.split('.')[0])
    return out - g

BAD = (ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Import,
       ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete, ast.AsyncFunctionDef, ast.Await, ast.NamedExpr)

def simple(f):
    for x in ast.walk(f):
        if x is not f and isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)):
            return False
        if isinstance(x, ast.Name) and x.id in ('super', 'locals', 'vars', 'eval', 'exec', '__class__'):
            return False
        if isinstance(x, ast.Name) and x.id.startswith('__'): return False
        if isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__'): return False
    for d in f.decorator_list:
        s = ast.unparse(d)
        if 'jit' in s or 'vectorize' in s or 'overload' in s: return False
    return True

def must_assign(st):
    """names surely assigned by a statement"""
    if isinstance(st, ast.Assign):
        out = set()
        for t in st.targets:
            for x in ast.walk(t):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): out.add(x.id)
        return out
    if isinstance(st, (ast.AnnAssign, ast.AugAssign)) and isinstance(st.target, ast.Name) and st.value is not None:
        return {st.target.id}
    if isinstance(st, ast.If) and st.orelse:
        a = set().union(*[must_assign(s) for s in st.body]); b = set().union(*[must_assign(s) for s in st.orelse])
        return a & b
    if isinstance(st, ast.With): return set().union(*[must_assign(s) for s in st.body])
    return set()

class Extract:
    def __init__(self, rnd, nested=False): self.rnd = rnd; self.n = 0; self.new = []; self.done = 0; self.nested = nested
    def lists(self, f):
        """(statement list, names surely bound on entry)"""
        params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
        for v in (f.args.vararg, f.args.kwarg):
            if v: params.add(v.arg)
        out = []
        def rec(body, pre):
            out.append((body, set(pre)))
            pre = set(pre)
            for s in body:
                if isinstance(s, ast.If):
                    rec(s.body, pre)
                    if s.orelse: rec(s.orelse, pre)
                elif isinstance(s, ast.For): rec(s.body, pre | names(s.target))
                elif isinstance(s, ast.While): rec(s.body, pre)
                elif isinstance(s, ast.With): rec(s.body, pre | {n for i in s.items if i.optional_vars is not None for n in names(i.optional_vars)})
                pre |= must_assign(s)
        rec(f.body, params)
        return out
    def func(self, f, cls):
        if not simple(f): return
        start = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        loc = local_names(f)
        ls = self.lists(f)
        if not self.nested: ls = ls[:1]
        if len(f.body) - start < (1 if self.nested else 3): return
        for _ in range(12):
            top, pre = self.rnd.choice(ls)
            st0 = start if top is f.body else 0
            if len(top) <= st0: continue
            body = top
            i = self.rnd.choice(range(st0, len(body))); j = min(len(body), i + self.rnd.randint(1, 6))
            blk = body[i:j]
            if any(isinstance(x, BAD + (ast.Break, ast.Continue)) for s in blk for x in ast.walk(s)): continue
            if all(isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in blk): continue
            if all(isinstance(s, (ast.Raise, ast.Pass)) for s in blk): continue
            before = set(pre)
            for s in body[:i]: before |= must_assign(s)
            comp = set()
            for s in blk:
                for x in ast.walk(s):
                    if isinstance(x, ast.comprehension): comp |= names(x.target)
            stored = set()
            for s in blk:
                stored |= names(s, ast.Store)
                for x in ast.walk(s):
                    if isinstance(x, ast.ExceptHandler) and x.name: comp.add(x.name)
            if comp & stored & names_in_rest(f, blk): continue
            stored -= comp
            inside = {id(x) for s in blk for x in ast.walk(s)}
            after = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and id(x) not in inside and isinstance(x.ctx, ast.Load)}
            after |= {x.target.id for x in ast.walk(f) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and id(x) not in inside}
            outs = sorted(stored & after)
            must = set()
            for s in blk: must |= must_assign(s)
            firstread = read_before_write(blk)
            ins = sorted({x for x in (names_loaded(blk) & loc - comp) | set(outs) if (x in firstread) or (x in outs and x not in must)})
            if any(x not in before for x in ins): continue
            if any(o not in must and o not in before for o in outs): continue
            self.n += 1
            meth = cls is not None and 'self' in ins and f.args.args and f.args.args[0].arg == 'self'
            hn = f"_split_off_{self.n}_{cls.name if cls is not None else ''}_{f.name.strip('_')}"
            if meth: ins = ['self'] + [x for x in ins if x != 'self']
            args = ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in ins], kwonlyargs=[], kw_defaults=[], defaults=[])
            hb = list(blk)
            if outs:
                v = ast.Name(id=outs[0], ctx=ast.Load()) if len(outs) == 1 else ast.Tuple(elts=[ast.Name(id=o, ctx=ast.Load()) for o in outs], ctx=ast.Load())
                hb.append(ast.Return(value=v))
            h = ast.FunctionDef(name=hn, args=args, body=hb, decorator_list=[], type_params=[])
            if meth and self.nested:
                cls.body.append(h)
                fn = ast.Attribute(value=ast.Name(id='self', ctx=ast.Load()), attr=hn, ctx=ast.Load()); av = ins[1:]
            else:
                self.new.append(h); fn = ast.Name(id=hn, ctx=ast.Load()); av = ins
            call = ast.Call(func=fn, args=[ast.Name(id=x, ctx=ast.Load()) for x in av], keywords=[])
            if outs:
                t = ast.Name(id=outs[0], ctx=ast.Store()) if len(outs) == 1 else ast.Tuple(elts=[ast.Name(id=o, ctx=ast.Store()) for o in outs], ctx=ast.Store())
                st = ast.Assign(targets=[t], value=call)
            else: st = ast.Expr(value=call)
            body[i:j] = [st]
            self.done += 1
            return

def names_in_rest(f, blk):
    inside = {id(x) for s in blk for x in ast.walk(s)}
    return {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and id(x) not in inside}

def names_loaded(blk):
    out = set()
    for s in blk:
        out |= names(s, ast.Load)
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name): out.add(x.target.id)
    return out

def read_before_write(blk):
    seen, out = set(), set()
    for s in blk:
        r = names(s, ast.Load)
        for x in ast.walk(s):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name): r.add(x.target.id)
        out |= r - seen
        seen |= must_assign(s)
    return out

class Rename(ast.NodeTransformer):
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        if n.id in self.m: n.id = self.m[n.id]
        return n
    def visit_ExceptHandler(self, n):
        if n.name in self.m: n.name = self.m[n.name]
        self.generic_visit(n); return n

def rename(f):
    if not simple(f): return
    params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    for v in (f.args.vararg, f.args.kwarg):
        if v: params.add(v.arg)
    imps = set()
    for x in ast.walk(f):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names: imps.add(a.asname or a.name.split('.')[0])
        if isinstance(x, (ast.MatchAs,)): return
    m = {n: n + '_v' for n in local_names(f) - params - imps}
    for s in f.body: Rename(m).visit(s)

class Temps(ast.NodeTransformer):
    """hoist call arguments and returned expressions into variables"""
    def __init__(self): self.k = 0
    def visit_FunctionDef(self, f):
        s = [ast.unparse(d) for d in f.decorator_list]
        if any('jit' in x or 'vectorize' in x for x in s): return f
        self.generic_visit(f); return f
    def block(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            pre = []
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                self.k += 1; n = f"result_{self.k}"
                out.append(ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=s.value))
                s = ast.Return(value=ast.Name(id=n, ctx=ast.Load()))
            elif isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) and not (isinstance(s.value.func, ast.Name) and s.value.func.id in ('super',)):
                c = s.value
                ok = not isinstance(c.func, ast.Attribute) or isinstance(c.func.value, ast.Name)
                if ok:
                    for i, a in enumerate(c.args):
                        if isinstance(a, (ast.Name, ast.Constant)): continue
                        if isinstance(a, (ast.BinOp, ast.Call, ast.Attribute, ast.Subscript)) and not any(isinstance(x, (ast.Lambda, ast.NamedExpr, ast.Starred)) for x in ast.walk(a)):
                            self.k += 1; n = f"arg_{self.k}"
                            pre.append(ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=a))
                            c.args[i] = ast.Name(id=n, ctx=ast.Load())
                        else: break
            out += pre + [s]
        return out
    def generic_visit(self, n):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                if isinstance(n, (ast.Module, ast.ClassDef)):
                    setattr(n, fld, [self.visit(x) for x in b])
                else:
                    setattr(n, fld, self.block(b))
        for h in getattr(n, 'handlers', []) or []: self.generic_visit(h)
        return n

class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(op=ast.Not(), operand=n.test)
            return ast.If(test=t, body=n.orelse, orelse=n.body)
        return n

class Loops(ast.NodeTransformer):
    """x = [f(i) for i in y] -> loop;  early return -> else"""
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and s.targets[0].id not in names(s.value):
                g = s.value.generators[0]; nm = s.targets[0].id
                ren = {x: x + '_it' for x in names(g.target)}
                elt = Rename(ren).visit(s.value.elt); tgt = Rename(ren).visit(g.target)
                inner = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=nm, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[elt], keywords=[]))]
                for i in reversed(g.ifs): inner = [ast.If(test=Rename(ren).visit(i), body=inner, orelse=[])]
                for x in ast.walk(tgt):
                    if isinstance(x, ast.Name): x.ctx = ast.Store()
                out.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load())))
                out.append(ast.For(target=tgt, iter=g.iter, body=inner, orelse=[]))
                continue
            out.append(s)
        # if c: ...return   rest  ->  if c: ... else: rest
        for i, s in enumerate(out):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and i + 1 < len(out) and not any(isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal)) for y in out[i+1:] for x in ast.walk(y)):
                return out[:i] + [ast.If(test=s.test, body=s.body, orelse=self.stmts(out[i+1:]))]
        return out
    def visit_FunctionDef(self, f):
        s = [ast.unparse(d) for d in f.decorator_list]
        if any('jit' in x or 'vectorize' in x for x in s): return f
        f.body = self.stmts(f.body)
        for x in ast.walk(f):
            if x is not f and isinstance(x, (ast.If, ast.For, ast.While, ast.With)):
                nb = []
                for st in x.body:
                    nb.append(st)
                x.body = nb
        return f

class Swap(ast.NodeTransformer):
    """swap neighbouring assignments that share no names and call nothing unknown"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        b = f.body; i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i+1]
            if all(isinstance(x, ast.Assign) and all(isinstance(y, ast.Name) for y in x.targets) and not any(isinstance(y, (ast.NamedExpr, ast.Yield)) for y in ast.walk(x)) for x in (s, t)):
                if not (names(s, ast.Store) & names(t)) and not (names(t, ast.Store) & names(s)) and not any(isinstance(y, ast.Call) for y in ast.walk(s)) :
                    b[i], b[i+1] = t, s; i += 2; continue
            i += 1
        return f

FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEGS = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

class Flip(ast.NodeTransformer):
    """a < b -> b > a;  not (x in y) <-> x not in y;  a and b (tests) -> not (not a or not b);
    x += 1 -> x = x + 1 (names); x = a if c else b -> if/else"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and isinstance(n.comparators[0], (ast.Constant, ast.Name)):
            return ast.Compare(left=n.comparators[0], ops=[FLIP[type(n.ops[0])]()], comparators=[n.left])
        if len(n.ops) == 1 and type(n.ops[0]) in NEGS:
            return ast.UnaryOp(op=ast.Not(), operand=ast.Compare(left=n.left, ops=[NEGS[type(n.ops[0])]()], comparators=n.comparators))
        return n
    def neg(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): return t.operand
        return ast.UnaryOp(op=ast.Not(), operand=t)
    def test(self, t):
        if isinstance(t, ast.BoolOp):
            return self.neg(ast.BoolOp(op=ast.Or() if isinstance(t.op, ast.And) else ast.And(), values=[self.neg(v) for v in t.values]))
        return t
    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.test(n.test)
        return n
    def visit_FunctionDef(self, f):
        s = [ast.unparse(d) for d in f.decorator_list]
        if any('jit' in x or 'vectorize' in x for x in s): return f
        self.generic_visit(f)
        return f
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(test=v.test, body=[ast.Assign(targets=n.targets, value=v.body)], orelse=[ast.Assign(targets=n.targets, value=v.orelse)])
        return n

class Nest(ast.NodeTransformer):
    """if c: raise/return/continue; rest -> if not c: rest else ...; for i in range(n) -> while"""
    def visit_FunctionDef(self, f):
        s = [ast.unparse(d) for d in f.decorator_list]
        if any('jit' in x or 'vectorize' in x for x in s): return f
        self.generic_visit(f)
        return f
    def body(self, b, fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Raise, ast.Continue)) and i + 1 < len(b):
                rest = b[i+1:]
                if any(isinstance(x, (ast.FunctionDef, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)) for y in rest for x in ast.walk(y)): continue
                t = s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else ast.UnaryOp(op=ast.Not(), operand=s.test)
                return b[:i] + [ast.If(test=t, body=rest, orelse=s.body)]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and not any(isinstance(x, ast.Continue) for y in s.body for x in ast.walk(y)) and s.target.id not in {m for y in s.body for m in names(y, ast.Store)}:
                i0 = s.target.id
                n0 = i0 + '_stop'
                new = ast.parse(f'{n0} = 0\n{i0}_k = 0\nwhile {i0}_k < {n0}:\n    {i0} = {i0}_k\n    pass\n    {i0}_k = {i0}_k + 1').body
                new[0].value = s.iter.args[0]
                new[2].body = [new[2].body[0]] + s.body + [new[2].body[2]]
                return b[:i] + new + self.body(b[i+1:], fn)
        return b
    def generic_visit(self, n):
        super().generic_visit(n)
        for k in ('body', 'orelse'):
            v = getattr(n, k, None)
            if isinstance(v, list) and v and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, k, self.body(v, n))
        return n

class Inline(ast.NodeTransformer):
    """single-use local names are replaced by their expressions in the very next statement"""
    def visit_FunctionDef(self, f):
        s = [ast.unparse(d) for d in f.decorator_list]
        if any('jit' in x or 'vectorize' in x for x in s): return f
        self.generic_visit(f)
        cnt = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Name): cnt.setdefault(x.id, []).append(x)
        params = {a.arg for a in f.args.args + f.args.kwonlyargs}
        for x in ast.walk(f):
            for k in ('body', 'orelse'):
                b = getattr(x, k, None)
                if not isinstance(b, list): continue
                i = 0
                while i + 1 < len(b):
                    a, t = b[i], b[i+1]
                    if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id not in params and len(cnt.get(a.targets[0].id, ())) == 2 and isinstance(t, (ast.Assign, ast.Return, ast.Expr)) and not any(isinstance(y, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp)) for y in ast.walk(t)):
                        nm = a.targets[0].id
                        uses = [y for y in ast.walk(t) if isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Load)]
                        calls = [y for y in ast.walk(t) if isinstance(y, (ast.Call, ast.Subscript))]
                        if len(uses) == 1 and len(calls) <= 1:
                            class R(ast.NodeTransformer):
                                def visit_Name(self, y): return a.value if y is uses[0] else y
                            b[i+1] = R().visit(t); del b[i]; continue
                    i += 1
        return f

def main():
    kind, out = sys.argv[1:3]
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    src = os.environ.get('SRC', '/repo')
    if os.path.exists(out): shutil.rmtree(out)
    shutil.copytree(src, out, ignore=shutil.ignore_patterns('.git', '__pycache__', 'build', '*.so', 'tests', 'docs'), symlinks=True)
    if kind == 'keywords':
        from sa import project, effects
        from sa.checks import a01
        p, e = a01.analyse()
    tot = 0
    for dp, dn, fn in os.walk(os.path.join(out, 'hexrd')):
        for x in sorted(fn):
            if not x.endswith('.py'): continue
            path = os.path.join(dp, x)
            s = open(path).read()
            try: tree = ast.parse(s)
            except SyntaxError: continue
            if kind in ('extract', 'nested'):
                ex = Extract(rnd, kind == 'nested')
                for n in tree.body:
                    if isinstance(n, ast.FunctionDef): ex.func(n, None)
                    elif isinstance(n, ast.ClassDef):
                        for m in list(n.body):
                            if isinstance(m, ast.FunctionDef): ex.func(m, n)
                tree.body += ex.new
                # helpers before a __main__ guard or module-level uses
                tot += ex.done
            elif kind == 'rename':
                for n in ast.walk(tree):
                    if isinstance(n, ast.FunctionDef): rename(n)
            elif kind == 'temps': tree = Temps().visit(tree)
            elif kind == 'invert': tree = Invert().visit(tree)
            elif kind == 'loops': tree = Loops().visit(tree)
            elif kind == 'swap': tree = Swap().visit(tree)
            elif kind == 'flip': tree = Flip().visit(tree)
            elif kind == 'nest': tree = Nest().visit(tree)
            elif kind == 'inline': tree = Inline().visit(tree)
            elif kind == 'keywords':
                mod = os.path.relpath(path, out)[:-3].replace('/', '.')
                if mod.endswith('.__init__'): mod = mod[:-9]
                m = p.modules.get(mod)
                if m is None: continue
                pos = {}
                for (q, i), ts in e.call_log.items():
                    f = p.functions.get(q)
                    if f is None or f.module is not m: continue
                    pos[i] = ts
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call) and id(n) in pos and not any(isinstance(a, ast.Starred) for a in n.args):
                        ts = pos[id(n)]
                        if len(ts) != 1: continue
                        q, k, sure = next(iter(ts))
                        g = p.functions[q]
                        if not sure or k not in (0, 1) or g.vararg or g.posonly_n or g.decorators: continue
                        if k + len(n.args) > len(g.params): continue
                        if g.is_method and k == 0: continue
                        if any(kw.arg is None for kw in n.keywords): continue
                        keep = 1 if n.args else 0
                        n.keywords = [ast.keyword(arg=g.params[k + i], value=a) for i, a in enumerate(n.args) if i >= keep] + n.keywords
                        n.args = n.args[:keep]
                        tot += 1
                tree = m.tree
            ast.fix_missing_locations(tree)
            open(path, 'w').write(ast.unparse(tree) + '\n')
    print(kind, tot)
main()
