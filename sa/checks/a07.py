"""A07: files, pools and temporary state are given back on every way out of a function."""
import ast
import collections
import json
import os
from .. import par, report
from ..project import Class, Func, load

CON = os.path.join(report.HERE, 'contracts', 'a07_restores.json')
FILES = {'h5py.File', 'gzip.open', 'bz2.open', 'lzma.open', 'os.fdopen', 'io.open', 'tarfile.open',
         'zipfile.ZipFile', 'logging.FileHandler', 'tempfile.NamedTemporaryFile',
         'tempfile.TemporaryFile', 'tempfile.TemporaryDirectory', 'fabio.open', 'codecs.open'}
CLOSE = {'close', 'terminate', 'shutdown', '__exit__', 'cleanup'}
SAFE = {'isinstance', 'len', 'str', 'int', 'float', 'bool', 'getattr', 'hasattr', 'print', 'debug',
        'info', 'warning', 'error', 'default_timer', 'perf_counter', 'time', 'setLevel',
        'Formatter', 'setFormatter', 'addHandler', 'StreamHandler', 'append', 'list', 'dict'}
GLOBAL_SETTERS = {'os.chdir', 'numpy.seterr', 'numpy.seterrcall', 'numpy.random.seed',
                  'random.seed', 'warnings.filterwarnings', 'warnings.simplefilter',
                  'warnings.resetwarnings', 'locale.setlocale', 'sys.setrecursionlimit',
                  'numpy.set_printoptions', 'os.umask', 'logging.disable',
                  'multiprocessing.set_start_method', 'numba.set_num_threads', 'socket.setdefaulttimeout'}
# process-wide settings that are meant to stay: read once and documented
MEANT = {
    'hexrd.core.constants': 'configuration of the process at import',
}


def parents(node):
    up = {}
    for m in ast.walk(node):
        for c in ast.iter_child_nodes(m):
            up[c] = m
    return up


class Unit:
    def __init__(self, p, f):
        self.p, self.f = p, f
        self.imps = p.func_imports(f)
        self.up = parents(f.node)
        self.nodes = list(par.own(f.node))
        self.defs = par.definitions(f)

    def dotted(self, e):
        return self.p.dotted(e, self.f.module, self.f, self.imps) or ''

    def stmt(self, n):
        while not isinstance(n, ast.stmt):
            n = self.up[n]
        return n


def acquisition(u, n, openers):
    """what a call opens: None, 'file', 'archive' or 'pool'; with the place in the result"""
    if not isinstance(n, ast.Call):
        return None
    fn = n.func
    d = u.dotted(fn)
    if d in FILES:
        return ('file', None)
    if isinstance(fn, ast.Name) and fn.id == 'open' and d in ('open', 'builtins.open', ''):
        if 'open' not in u.f.module.functions and 'open' not in u.f.module.imports:
            return ('file', None)
    if d == 'builtins.open' or d == 'open' and isinstance(fn, ast.Name) and \
            'open' not in u.f.module.functions and 'open' not in u.f.module.imports:
        return ('file', None)
    if isinstance(fn, ast.Name) and fn.id == '_open' and any(
            isinstance(v, ast.Name) and v.id == 'open'
            for v in u.f.module.globals_.get('_open', ()) if v is not None):
        return ('file', None)
    if isinstance(fn, ast.Attribute) and fn.attr == 'open' and not d.startswith('hexrd'):
        # pathlib: Path(...).open(), files(...).joinpath(...).open()
        if isinstance(fn.value, ast.Call) or isinstance(fn.value, ast.Name) and \
                fn.value.id in u.defs:
            if par.last(fn.value.func if isinstance(fn.value, ast.Call) else fn.value) != 'lazy':
                return ('file', None)
    if d == 'numpy.load' and archive(u, n):
        return ('archive', None)
    if par.last(fn) in ('Pool', 'ThreadPool') and isinstance(fn, (ast.Attribute, ast.Name)) or \
            par.last(fn) in ('ThreadPoolExecutor', 'ProcessPoolExecutor'):
        return ('pool', None)
    g = callee(u, n)
    if g is not None and g.qual in openers:
        return openers[g.qual]
    return None


def callee(u, n):
    fn = n.func
    if isinstance(fn, ast.Name):
        h = u.f
        while h is not None:
            if fn.id in h.nested:
                return h.nested[fn.id]
            h = h.parent
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and \
            fn.value.id == u.f.self_name and u.f.cls is not None:
        return u.f.cls.find('methods', fn.attr)
    r = u.p.lookup(u.dotted(fn)) if u.dotted(fn) else None
    return r if isinstance(r, Func) else None


def archive(u, n):
    """an .npz archive stays open until it is closed; a plain array does not"""
    if any(k.arg == 'mmap_mode' for k in n.keywords):
        return False
    m = u.up.get(n)
    if isinstance(m, ast.keyword) and m.arg is None:
        return True
    if isinstance(m, ast.Subscript) and m.value is n:
        return isinstance(m.slice, ast.Constant) and isinstance(m.slice.value, str)
    if isinstance(m, ast.Attribute):
        return m.attr in ('files', 'keys', 'items', 'values')
    names = bound(u, n)
    for x in u.nodes:
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and \
                x.value.id in names and isinstance(x.slice, ast.Constant) and isinstance(
                x.slice.value, str):
            return True
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                x.value.id in names and x.attr in ('files', 'keys', 'items'):
            return True
    return False


def bound(u, n):
    """local names the value of the expression is given"""
    m, names = n, set()
    while m in u.up and isinstance(u.up[m], (ast.IfExp, ast.BoolOp, ast.NamedExpr)):
        m = u.up[m]
        if isinstance(m, ast.NamedExpr):
            names.add(m.target.id)
    m = u.up.get(m)
    if isinstance(m, ast.Assign):
        names |= {t.id for t in m.targets if isinstance(t, ast.Name)}
    elif isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
        names.add(m.target.id)
    # plain renamings, also in an expression that chooses
    for _ in range(3):
        for x in u.nodes:
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, (
                    ast.Name, ast.IfExp)):
                vs = [x.value] if isinstance(x.value, ast.Name) else [x.value.body, x.value.orelse]
                if any(isinstance(v, ast.Name) and v.id in names for v in vs):
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                    names |= {t.id for t in ts if isinstance(t, ast.Name)}
    return names


def is_named(e, names):
    return isinstance(e, ast.Name) and e.id in names


def closes(u, s, names, closers):
    """does this statement (or one inside it) close the handle?"""
    for x in ast.walk(s):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in CLOSE and is_named(
                    x.func.value, names):
                return True
            g = callee(u, x)
            if g is not None:
                for i, a in enumerate(x.args):
                    ps = g.params[1:] if g.is_method else g.params
                    if is_named(a, names) and i < len(ps) and (g.qual, ps[i]) in closers:
                        return True
    return False


def manages(u, w, names):
    """with v / with closing(v) / with v as w / stack.enter_context(v)"""
    for it in w.items:
        e = it.context_expr
        if is_named(e, names):
            return True
        if isinstance(e, ast.Call) and par.last(e.func) in ('closing', 'enter_context') and \
                e.args and is_named(e.args[0], names):
            return True
        if isinstance(e, ast.IfExp) and (is_named(e.body, names) or is_named(e.orelse, names)):
            return True
    return False


def quiet(s):
    """a statement that can hardly raise"""
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom,
                      ast.Global, ast.Nonlocal)):
        return True
    for x in ast.walk(s):
        if isinstance(x, ast.Call) and par.last(x.func) not in SAFE:
            return False
        if isinstance(x, (ast.Raise, ast.Assert, ast.Subscript, ast.Await, ast.Yield)):
            return False
    return True


def blocks(s):
    for n in ('body', 'orelse', 'finalbody'):
        b = getattr(s, n, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b
    for h in getattr(s, 'handlers', ()):
        yield h.body
    for c in getattr(s, 'cases', ()):
        yield c.body


def chain(u, s):
    """(block, index) of a statement and of every statement around it, innermost first"""
    out = []
    while True:
        m = u.up.get(s)
        if m is None:
            break
        holder = m
        bl = [b for b in blocks(holder)]
        if isinstance(holder, ast.ExceptHandler):
            bl = [holder.body]
        for b in bl:
            if any(x is s for x in b):
                out.append((holder, b, next(i for i, x in enumerate(b) if x is s)))
                break
        if holder is u.f.node:
            break
        s = holder
        if not isinstance(s, (ast.stmt, ast.ExceptHandler)):
            break
    return out


def protected(u, s, names, closers):
    """True: closed on every way out; 'normal': only on the normal one; None: nowhere"""
    seen_close = False
    ok_so_far = True
    for holder, b, i in chain(u, s):
        if isinstance(holder, ast.Try) and any(b is x for x in (holder.body, holder.orelse)) or \
                isinstance(holder, ast.ExceptHandler):
            t = holder if isinstance(holder, ast.Try) else u.up.get(holder)
            if isinstance(t, ast.Try) and any(closes(u, x, names, closers) for x in t.finalbody):
                return True
        if isinstance(holder, (ast.With, ast.AsyncWith)) and manages(u, holder, names):
            return True
        for x in b[i + 1:]:
            if isinstance(x, (ast.With, ast.AsyncWith)) and manages(u, x, names):
                return True if ok_so_far else 'normal'
            if isinstance(x, ast.Try) and any(closes(u, y, names, closers) for y in x.finalbody):
                return True if ok_so_far else 'normal'
            if isinstance(x, ast.If) and (nested_with(u, x.body, names, closers) or nested_with(
                    u, x.orelse, names, closers)):
                return True if ok_so_far else 'normal'
            if closes(u, x, names, closers):
                seen_close = True
                if ok_so_far and isinstance(x, (ast.Expr, ast.Assign, ast.AnnAssign, ast.Return)):
                    return True
            if not quiet(x):
                ok_so_far = False
    return 'normal' if seen_close else None


def nested_with(u, body, names, closers):
    for x in body:
        if isinstance(x, (ast.With, ast.AsyncWith)) and manages(u, x, names):
            return True
        if isinstance(x, ast.Try) and any(closes(u, y, names, closers) for y in x.finalbody):
            return True
        if not quiet(x):
            return False
    return False


def escapes(u, n, names):
    """'return', 'self', 'other' or None: where the handle goes that outlives the call"""
    up = u.up

    def carries(e):
        if e is n or is_named(e, names):
            return True
        if isinstance(e, (ast.Tuple, ast.List)):
            return any(carries(x) for x in e.elts)
        if isinstance(e, ast.IfExp):
            return carries(e.body) or carries(e.orelse)
        if isinstance(e, ast.Dict):
            return any(carries(x) for x in e.values)
        return False
    for x in u.nodes:
        if isinstance(x, (ast.Return, ast.Yield)) and x.value is not None and carries(x.value):
            return 'return' if isinstance(x, ast.Return) else 'yield'
        if isinstance(x, ast.Assign) and carries(x.value):
            for t in x.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    b = t
                    while isinstance(b, (ast.Attribute, ast.Subscript)):
                        last, b = b, b.value
                    if is_named(b, {u.f.self_name}) and isinstance(last, ast.Attribute):
                        return ('self', last.attr)
                    if is_named(b, set(u.f.all_params)) and isinstance(last, ast.Attribute):
                        return ('argument', last.attr)
                    return 'other'
        if isinstance(x, ast.Call):
            if par.last(x.func) in ('enter_context', 'push', 'callback') and any(
                    carries(a) or isinstance(a, ast.Attribute) and carries(a.value)
                    for a in x.args):
                return 'managed'
            if par.last(x.func) in ('append', 'add', 'register') and any(carries(a)
                                                                         for a in x.args):
                return 'other'
            r = u.p.lookup(u.dotted(x.func)) if u.dotted(x.func) else None
            if isinstance(r, Class) and any(carries(a) for a in list(x.args) + [
                    k.value for k in x.keywords]):
                return ('object', r)
    return None


def keeps(c):
    """does the class keep a constructor argument and close it again?"""
    g = c.find('methods', '__init__')
    return g is not None and any(class_closes(c, t.attr) for n in par.own(g.node)
                                 if isinstance(n, ast.Assign) for t in n.targets
                                 if isinstance(t, ast.Attribute))


def class_closes(c, attr):
    """a method close, __exit__ or __del__ closes self.attr, directly or through another"""
    seen = set()

    def inside(g):
        if g is None or g.qual in seen:
            return False
        seen.add(g.qual)
        local = {t.id for n in ast.walk(g.node) if isinstance(n, ast.Assign)
                 and (isinstance(n.value, ast.Attribute) and n.value.attr == attr or
                      isinstance(n.value, ast.Call) and par.last(n.value.func) == 'getattr'
                      and len(n.value.args) > 1 and isinstance(n.value.args[1], ast.Constant)
                      and n.value.args[1].value == attr)
                 for t in n.targets if isinstance(t, ast.Name)}
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                v = n.func.value
                if n.func.attr in CLOSE and (isinstance(v, ast.Attribute) and v.attr == attr or
                                             is_named(v, local)):
                    return True
                if isinstance(v, ast.Name) and v.id == g.self_name and inside(
                        c.find('methods', n.func.attr)):
                    return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and any(
                    is_named(a, local) or isinstance(a, ast.Attribute) and a.attr == attr
                    for a in n.args):
                h = g.nested.get(n.func.id) or c.module.functions.get(n.func.id)
                if h is not None and any(isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in CLOSE and is_named(
                        x.func.value, set(h.all_params)) for x in ast.walk(h.node)):
                    return True
        return False
    return any(inside(c.find('methods', m)) for m in ('close', '__exit__', '__del__', 'cleanup',
                                                      'shutdown', 'stop', 'delete', '_close'))


def closing_params(p, units):
    """(function, parameter) pairs where the function closes its parameter"""
    out = set()
    for u in units.values():
        for x in u.nodes:
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in CLOSE and isinstance(x.func.value, ast.Name) and \
                    x.func.value.id in u.f.all_params:
                out.add((u.f.qual, x.func.value.id))
    return out


def returned_place(u, n, names):
    for x in u.nodes:
        if isinstance(x, ast.Return) and x.value is not None:
            if isinstance(x.value, ast.Tuple):
                for i, e in enumerate(x.value.elts):
                    if e is n or is_named(e, names):
                        return i
    return None


def resources(rep, p, units):
    openers, closers = {}, closing_params(p, units)
    done = {}
    for _ in range(3):
        before = dict(openers)
        done = {}
        for q in sorted(units):
            u = units[q]
            for n in u.nodes:
                a = acquisition(u, n, openers)
                if a is None:
                    continue
                done[(q, n)] = (u, n, a)
        for (q, n), (u, n_, a) in done.items():
            names = names_of(u, n, a)
            if escapes(u, n, names) == 'return':
                openers[q] = (a[0], returned_place(u, n, names))
        if openers == before:
            break
    same = collections.Counter((q, par.last(n.func)) for q, n in done)
    for (q, n), (u, n_, a) in sorted(done.items(), key=lambda kv: (kv[0][0], kv[0][1].lineno)):
        kind = a[0]
        rep.count({'file': 'opened files', 'archive': 'opened archives',
                   'pool': 'started pools'}[kind])
        what = ast.unparse(n)[:70]
        m = n
        while isinstance(u.up.get(m), (ast.IfExp, ast.BoolOp)):
            m = u.up[m]
        pm = u.up.get(m)
        if isinstance(pm, ast.withitem):
            continue
        if isinstance(pm, ast.Call) and par.last(pm.func) in ('closing', 'enter_context') and \
                m in pm.args:
            continue
        names = names_of(u, n, a)
        verb = {'file': 'closed', 'archive': 'closed', 'pool': 'ended'}[kind]
        esc = escapes(u, n, names)
        key = f"{q}|{par.last(n.func)}" + (
            '' if same[(q, par.last(n.func))] == 1 else '|' + ''.join(what.split())[:60])
        if esc in ('return', 'managed', 'yield'):
            continue
        if isinstance(esc, tuple) and esc[0] == 'self' and u.f.cls is not None:
            if not any(class_closes(c, esc[1]) for c in [u.f.cls] + subclasses(p, u.f.cls)):
                yield (key, u, n, f"{q}: {what} is kept in self.{esc[1]}, which no close method of "
                       f"{u.f.cls.name} closes")
            continue
        if isinstance(esc, tuple) and esc[0] == 'argument':
            if not any(class_closes(c, esc[1]) for c in p.classes.values()
                       if c.module is u.f.module):
                yield (key, u, n, f"{q}: {what} is kept in {esc[1]} of an argument, which no close "
                       "method closes")
            continue
        if isinstance(esc, tuple) and esc[0] == 'object' and keeps(esc[1]):
            continue
        if not names:
            yield key, u, n, f"{q}: {what} is never {verb}"
            continue
        r = protected(u, u.stmt(n), names, closers)
        if r is None:
            yield key, u, n, f"{q}: {what} is never {verb}"
        elif r == 'normal':
            yield (key, u, n, f"{q}: {what} is not {verb} when a statement after it raises")


def subclasses(p, c):
    return [k for k in p.classes.values() if k is not c and c in k.mro()] if hasattr(
        c, 'mro') else []


def names_of(u, n, a):
    if a[1] is None:
        return bound(u, n)
    m = u.up.get(n)
    if isinstance(m, ast.Assign):
        for t in m.targets:
            if isinstance(t, ast.Tuple) and a[1] < len(t.elts) and isinstance(
                    t.elts[a[1]], ast.Name):
                return {t.elts[a[1]].id}
    return set()


# ------------------------------------------------------------- temporary state
def place(t):
    """text of an attribute, item or global the function can save and put back"""
    return ast.unparse(t) if isinstance(t, (ast.Attribute, ast.Subscript)) else None


def restores(u):
    """(place, saved name, restoring statement) for each save ... put back pair"""
    saved = {}
    for x in u.nodes:
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(
                x.targets[0], ast.Name):
            v = x.value
            if isinstance(v, ast.Call) and par.last(v.func) in ('copy', 'deepcopy') and (
                    v.args or isinstance(v.func, ast.Attribute)):
                v = v.args[0] if v.args else v.func.value
            if isinstance(v, (ast.Attribute, ast.Subscript)):
                saved.setdefault(x.targets[0].id, []).append((ast.unparse(v), x))
    for x in u.nodes:
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in saved:
            for t in x.targets:
                pl = place(t)
                if pl is None:
                    continue
                for sp, s in saved[x.value.id]:
                    if sp == pl and s.lineno <= x.lineno and s is not x:
                        yield pl, t, x.value.id, s, x


def changed_between(u, pl, s, x):
    return [y for y in u.nodes if isinstance(y, (ast.Assign, ast.AugAssign)) and y is not x and
            s.lineno < y.lineno <= x.lineno and any(
                ast.unparse(t) == pl for t in (y.targets if isinstance(y, ast.Assign)
                                               else [y.target]))]


def guarded(u, first, x):
    """is the restoring statement in a finally that covers everything after the change?"""
    m = x
    while m in u.up:
        t = u.up[m]
        if isinstance(t, ast.Try) and any(y is m for y in t.finalbody):
            # the change is inside the try or directly before it
            if any(first is z for b in (t.body,) for y in b for z in ast.walk(y)):
                return True
            for holder, b, i in chain(u, first):
                if any(y is t for y in b):
                    j = next(k for k, y in enumerate(b) if y is t)
                    return all(quiet(y) for y in b[i + 1:j])
            return False
        m = t
    # nothing between the change and the restoration can raise
    for holder, b, i in chain(u, first):
        if any(y is x for y in b):
            j = next(k for k, y in enumerate(b) if y is x)
            return all(quiet(y) for y in b[i + 1:j])
    return False


def tail(pl):
    return pl.rsplit('.', 1)[-1] if '.' in pl else pl


def temporary(rep, p, units):
    for q in sorted(units):
        u = units[q]
        for pl, t, name, s, x in restores(u):
            ch = changed_between(u, pl, s, x)
            if not ch:
                continue
            rep.count('places put back')
            if not guarded(u, ch[0], x):
                yield (f"{q}|{tail(pl)}", u, x, f"{q}: {pl} is changed and put back, but not when "
                       "a statement in between raises")
        # module globals a function fills and clears again
        gl = {n for x in u.nodes if isinstance(x, ast.Global) for n in x.names}
        for x in u.nodes:
            clear = None
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and \
                    x.value.value is None:
                clear = [t.id for t in x.targets if isinstance(t, ast.Name) and t.id in gl]
            elif isinstance(x, ast.Delete):
                clear = [t.id for t in x.targets if isinstance(t, ast.Name) and t.id in gl]
            for g in clear or ():
                first = filler(u, g, x)
                if first is None:
                    continue
                rep.count('globals cleared again')
                if not guarded(u, first, x):
                    yield (f"{q}|global {g}", u, x, f"{q}: the module global {g} is filled and "
                           "cleared again, but not when a statement in between raises")


def filler(u, g, x):
    """the statement before x that fills the global, itself or through a function"""
    for y in sorted((z for z in u.nodes if isinstance(z, ast.stmt)), key=lambda z: z.lineno):
        if y.lineno >= x.lineno:
            break
        if isinstance(y, ast.Assign) and any(is_named(t, {g}) for t in y.targets):
            return y
        if isinstance(y, ast.Expr) and isinstance(y.value, ast.Call):
            h = callee(u, y.value)
            if h is not None and h.module is u.f.module and any(
                    isinstance(z, ast.Global) and g in z.names for z in ast.walk(h.node)):
                return y
    return None


def managers(rep, p, units):
    """generator context managers that put something back do so when the body raises"""
    for q in sorted(units):
        u = units[q]
        if not any(par.last(d.func if isinstance(d, ast.Call) else d) == 'contextmanager'
                   for d in getattr(u.f.node, 'decorator_list', ())):
            continue
        rep.count('context managers')
        for y in u.nodes:
            if not isinstance(y, ast.Yield):
                continue
            s = u.stmt(y)
            for holder, b, i in chain(u, s):
                if isinstance(holder, ast.Try) and b is holder.body and holder.finalbody:
                    break
                rest = [x for x in b[i + 1:] if undoes(x)]
                if rest:
                    yield (q, u, rest[0], f"{q}: what follows the yield "
                           f"({ast.unparse(rest[0])[:60]}) is not done when the body raises")
                    break
                if any(isinstance(x, (ast.Return, ast.Raise)) for x in b[i + 1:]):
                    break


def undoes(x):
    if isinstance(x, ast.Assign):
        return any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in x.targets)
    if isinstance(x, ast.Delete):
        return True
    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
        return par.last(x.value.func) in CLOSE | {'join', 'chdir', 'restore', 'pop', 'remove',
                                                  'unlink', 'release'}
    if isinstance(x, (ast.If, ast.With, ast.For)):
        return any(undoes(y) for b in blocks(x) for y in b)
    return False


def process_state(rep, p, units):
    """calls that change the state of the whole process"""
    called = {}
    for u in units.values():
        for n in u.nodes:
            if isinstance(n, ast.Call):
                g = callee(u, n)
                if g is not None:
                    called.setdefault(g.qual, []).append(in_with(u, n, 'catch_warnings'))
    for q in sorted(units):
        u = units[q]
        if u.f.module.name in MEANT:
            continue
        for n in u.nodes:
            if not isinstance(n, ast.Call):
                continue
            d = u.dotted(n.func)
            if d not in GLOBAL_SETTERS:
                continue
            rep.count('process-wide settings')
            if d.startswith('warnings.') and (in_with(u, n, 'catch_warnings') or
                                              all(called.get(q, [False]))):
                continue
            if d == 'multiprocessing.set_start_method':
                continue            # once per process by construction: raises when set before
            if in_finally_pair(u, n, d):
                continue
            yield (f"{q}|{d}", u, n, f"{q}: {ast.unparse(n)[:60]} changes the state of the whole "
                   "process and nothing puts it back")


def in_with(u, n, name):
    m = n
    while m in u.up:
        m = u.up[m]
        if isinstance(m, ast.With) and any(isinstance(i.context_expr, ast.Call) and par.last(
                i.context_expr.func) == name for i in m.items):
            return True
    return False


def in_finally_pair(u, n, d):
    calls = [x for x in u.nodes if isinstance(x, ast.Call) and u.dotted(x.func) == d]
    for x in calls:
        m = u.stmt(x)
        while m in u.up:
            t = u.up[m]
            if isinstance(t, ast.Try) and any(y is m for y in t.finalbody):
                return True
            m = t
    return False


def units_of(p):
    return {q: Unit(p, f) for q, f in p.functions.items() if not f.is_lambda}


def restored_today(units):
    out = {}
    for q, u in units.items():
        s = {tail(pl) for pl, t, name, a, x in restores(u) if changed_between(u, pl, a, x)}
        if s:
            out[q] = sorted(s)
    return out


def lost(rep, p, units):
    """places put back today are still put back"""
    with open(CON) as fh:
        con = json.load(fh)
    now = restored_today(units)
    for q, places in sorted(con.items()):
        rep.count('recorded restorations')
        u = units.get(q)
        if u is None:
            continue
        todo, seen, have = [u], set(), set()
        while todo:
            v = todo.pop()
            if v.f.qual in seen:
                continue
            seen.add(v.f.qual)
            have |= set(now.get(v.f.qual, ()))
            for x in v.nodes:
                if isinstance(x, (ast.Assign, ast.AugAssign)) and v is not u:
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                    have |= {tail(place(t)) for t in ts if place(t)}
                if isinstance(x, ast.Call):
                    g = callee(v, x)
                    if g is not None and g.qual not in con and g.qual in units and \
                            g.module is u.f.module:
                        todo.append(units[g.qual])
        written = {tail(place(t)) for x in u.nodes if isinstance(x, (ast.Assign, ast.AugAssign))
                   for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if place(t)}
        for pl in places:
            if pl not in have and pl in written:
                yield (f"{q}|{pl}", u, u.f.node, f"{q}: {pl} was changed for a time and put back; "
                       "it is no longer put back")


def check(rep):
    rep.rule('close', 'every file, archive and pool a function opens for itself is closed on every '
             'way out: by with, by try/finally, or by the class that keeps it')
    rep.rule('restore', 'a place that is saved, changed and put back is put back in a finally that '
             'covers everything in between')
    rep.rule('lost', 'every place put back on the unchanged tree is still put back')
    rep.rule('manager', 'a generator context manager undoes its change in a finally')
    rep.rule('process', 'process-wide settings are changed only inside something that restores them')
    p = load()
    units = units_of(p)
    for rule, gen in (('close', resources), ('restore', temporary), ('manager', managers),
                      ('process', process_state), ('lost', lost)):
        for key, u, n, msg in gen(rep, p, units):
            rep.finding(rule, key, u.f.where(n), msg)
    rep.need('opened files', 40)
    rep.need('started pools', 8)
    rep.need('context managers', 4)


def write_contract(rep):
    p = load()
    d = restored_today(units_of(p))
    with open(CON, 'w') as fh:
        json.dump(d, fh, indent=1, sort_keys=True)
    print(len(d), 'functions with restored state')
