"""Dependence contracts: what the unchanged tree lets flow where, and whether it still does."""
import ast
import json
import os

from . import deps, report
from .checks import a01

SEP = '\x1f'
CONTRACT = 'dependences.jsonl'
_cache = {}


def engine(strict=False):
    if strict not in _cache:
        p, e = a01.analyse()
        _cache[strict] = deps.Deps(p, e, strict).run()
    return _cache[strict]


def atoms(s):
    return sorted(a.replace(SEP, '/') for a in s)


def norm(f, s):
    """self-atoms under one name, whatever the first parameter is called."""
    sn = f.self_name
    if sn is None or sn == 'self':
        return s
    return {('self' + a[len(sn):]) if a == sn or a.startswith(sn + SEP) else a for a in s}


def dump(f, s):
    def dv(v):
        v = deps.flat(v)
        return [atoms(norm(f, v.d)), atoms(norm(f, v.c - v.d))]
    r = {'q': f.qual, 'p': f.all_params}
    if s.ret.t is not None:
        if s.ret.d or any(deps.flat(x).d or deps.flat(x).c for x in s.ret.t):
            r['t'] = [dv(x) for x in s.ret.t]
    elif s.ret.d or s.ret.c:
        r['r'] = dv(s.ret)
    w = {}
    for k, v in s.writes.items():
        k2 = next(iter(norm(f, {k})))
        w[k2.replace(SEP, '/')] = dv(v) + [1 if k in s.must else 0]
    if w:
        r['w'] = w
    st = []
    for name, quals, args, node in s.sites:
        a = {k: atoms(norm(f, v.d)) for k, v in sorted(args.items()) if v.d}
        if a:
            st.append([name, a])
    if st:
        seen, out = set(), []
        for x in st:
            k = json.dumps(x, sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append(x)
        r['s'] = sorted(out, key=lambda x: json.dumps(x, sort_keys=True))
    return r


def write_contract():
    eng = engine(True)
    recs = {}
    for q in sorted(eng.sums):
        f = eng.p.functions[q]
        if f.is_lambda or '<lambda' in q:
            continue
        recs[q] = dump(f, eng.sums[q])
    save(recs)
    # what the comparison cannot see on the very source it was taken from is not recorded, nor
    # what it lost under behaviour-preserving rewrites (contracts/unstable.json)
    drop = set()
    rep = report.Report('A20', 'quick', 1)
    c = Checker(rep)
    for key in findings(c):
        drop.add(key)
    upath = os.path.join(report.HERE, 'contracts', 'unstable.json')
    if os.path.exists(upath):
        with open(upath) as fh:
            drop |= {tuple(x) for x in json.load(fh)}
    n = 0
    for q, *what in sorted(drop):
        if q in recs:
            n += remove(recs[q], what)
    save(recs)
    print(len(recs), 'functions;', n, 'entries dropped')


def findings(c):
    """Keys of everything that differs from the contract: (function, kind, where, what, type)."""
    for q in sorted(c.con):
        for f, what, a, k in c.results(q):
            yield (q, 'result', what, a, k)
        for f, w, a, k in c.writes(q):
            yield (q, 'write', w, a, k)
        for f, name, k, a in c.calls(q):
            yield (q, 'call', name, k, a)


def remove(r, what):
    kind, where, a, k = what
    n = 0
    if kind == 'result':
        lists = [r['r']] if 'r' in r else r.get('t', [])
        if where.startswith('value ') and 't' in r:
            lists = [r['t'][int(where.split()[1])]]
        for x in lists:
            for y in x[:2]:
                if a in y:
                    y.remove(a)
                    n += 1
    elif kind == 'write' and where in r.get('w', {}):
        x = r['w'][where]
        if k == 'write':
            del r['w'][where]
            n = 1
        elif k == 'must':
            x[2] = 0
            n = 1
        else:
            for y in x[:2]:
                if a in y:
                    y.remove(a)
                    n += 1
    elif kind == 'call':
        par, atom = a, k
        for name, args in r.get('s', ()):
            if name == where and atom in args.get(par, ()):
                args[par].remove(atom)
                n += 1
    return n


def save(recs):
    with open(os.path.join(report.HERE, 'contracts', CONTRACT), 'w') as fh:
        for q in sorted(recs):
            fh.write(json.dumps(recs[q], sort_keys=True, separators=(',', ':')) + '\n')


def load():
    with open(os.path.join(report.HERE, 'contracts', CONTRACT)) as fh:
        return {r['q']: r for r in map(json.loads, fh)}


class Compat:
    """When do two attribute names stand for the same state?"""

    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.mentioned = None

    def expand(self, a):
        r = self.memo.get(a)
        if r is None:
            r = self.memo[a] = set()
            todo = [a]
            while todo:
                x = todo.pop()
                n = x.lstrip('_')
                if n in r:
                    continue
                r.add(n)
                for g in self.p.getters_by_name.get(x, []) + (
                        self.p.getters_by_name.get(n, []) if n != x else []):
                    for m in ast.walk(g.node):
                        if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and \
                                m.value.id == g.self_name:
                            todo.append(m.attr)
                if len(r) > 60:
                    break
        return r

    def same(self, a, b):
        if a == b or a.lstrip('_') == b.lstrip('_'):
            return True
        if a.startswith('[') or b.startswith('['):
            # x['key'] and x.attr
            return a.strip('[]') == b.strip('[]')
        return bool(self.expand(a) & self.expand(b))

    def exists(self, a):
        if self.mentioned is None:
            self.mentioned = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        self.mentioned.add(n.attr)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                        self.mentioned.add('[' + n.value + ']')
                        self.mentioned.add(n.value)
        return a in self.mentioned or a.lstrip('_') in self.mentioned

    def covers(self, atom, cur):
        """Does the current set contain the recorded atom, a part of it or the whole of it?"""
        if atom in cur:
            return True
        r, *path = atom.split('/')
        for x in cur:
            r2, *p2 = x.split('/')
            if r2 != r:
                continue
            if all(self.same(u, v) for u, v in zip(path, p2)):
                return True
        return False


class Checker:
    def __init__(self, rep):
        self.rep = rep
        self.eng = engine(False)
        self.strict = engine(True)
        self.p = self.eng.p
        self.con = load()
        self.cm = Compat(self.p)

    def current(self, q):
        f = self.p.functions.get(q)
        if f is None:
            r = self.p.lookup(q.replace(':', '.')) if '<locals>' not in q else None
            f = r if hasattr(r, 'all_params') else None
        return f

    def rename(self, f, old):
        """recorded parameter name -> current one (None: the parameter is gone)."""
        m = {}
        cur = f.all_params
        for i, x in enumerate(old):
            if x in cur:
                m[x] = x
            elif i < len(cur) and cur[i] not in old and len(cur) == len(old):
                m[x] = cur[i]
            else:
                m[x] = None
        if f.self_name and old:
            m['self'] = 'self'
        return m

    def want(self, atom, ren):
        """The atom to look for in the current tree, or None when it cannot be asked for."""
        r, *path = atom.split('/')
        if r in ren:
            if ren[r] is None:
                return None
            r = ren[r]
        if r.startswith('~'):
            return None
        for a in path:
            if not self.cm.exists(a):
                return None
        return '/'.join([r] + path)

    def cur(self, f, v):
        v = deps.flat(v)
        return ({a.replace(SEP, '/') for a in norm(f, v.d)},
                {a.replace(SEP, '/') for a in norm(f, v.c)})

    def missing(self, rec, now, ren):
        d, c = now
        out = []
        for a in rec[0]:
            w = self.want(a, ren)
            if w is not None and not self.cm.covers(w, d):
                out.append((a, 'data'))
        both = None
        for a in (rec[1] if len(rec) > 1 and isinstance(rec[1], list) else ()):
            w = self.want(a, ren)
            if w is None:
                continue
            if both is None:
                both = d | c
            if not self.cm.covers(w, both):
                out.append((a, 'control'))
        return out

    def results(self, q):
        """(what, atom, kind) for each recorded influence on the result of q that is gone."""
        rec = self.con[q]
        f = self.current(q)
        if f is None:
            return
        s = self.eng.sums[f.qual]
        ren = self.rename(f, rec['p'])
        self.rep.count('results compared')
        if 't' in rec:
            if s.ret.t is not None and len(s.ret.t) == len(rec['t']):
                for i, (x, v) in enumerate(zip(rec['t'], s.ret.t)):
                    v = deps.V(deps.flat(v).d | s.ret.d, deps.flat(v).c | s.ret.c)
                    self.rep.count('influences compared', len(x[0]) + len(x[1]))
                    for a, k in self.missing(x, self.cur(f, v), ren):
                        yield f, f"value {i} returned", a, k
            else:
                now = self.cur(f, s.ret)
                for i, x in enumerate(rec['t']):
                    self.rep.count('influences compared', len(x[0]) + len(x[1]))
                    for a, k in self.missing(x, now, ren):
                        yield f, f"value {i} returned", a, k
        elif 'r' in rec:
            self.rep.count('influences compared', len(rec['r'][0]) + len(rec['r'][1]))
            for a, k in self.missing(rec['r'], self.cur(f, s.ret), ren):
                yield f, 'the result', a, k

    def writes(self, q):
        """(func, written, what, kind) for recorded writes that are gone or lost an influence."""
        rec = self.con[q]
        f = self.current(q)
        if f is None or 'w' not in rec:
            return
        s = self.eng.sums[f.qual]
        s2 = self.strict.sums[f.qual]
        ren = self.rename(f, rec['p'])
        now = {}
        must = set()
        for k, v in s.writes.items():
            k2 = next(iter(norm(f, {k}))).replace(SEP, '/')
            now[k2] = v
        for k in s.must | s2.must:
            must.add(next(iter(norm(f, {k}))).replace(SEP, '/'))
        for k, x in sorted(rec['w'].items()):
            if k.startswith('~') or '/' not in k and k not in ren:
                continue
            w = self.want(k, ren)
            if w is None:
                continue
            self.rep.count('written quantities compared')
            hit = [n for n in now if self.same_path(w, n)]
            if not hit:
                yield f, k, 'is no longer written', 'write'
                continue
            d, c = set(), set()
            for n in hit:
                u, v = self.cur(f, now[n])
                d |= u
                c |= v
            self.rep.count('influences compared', len(x[0]) + len(x[1]))
            for a, kind in self.missing(x, (d, c), ren):
                yield f, k, a, kind
            if x[2] and not any(self.same_path(w, n) for n in must):
                yield f, k, 'is no longer written on every path', 'must'

    def same_path(self, a, b):
        r, *path = a.split('/')
        r2, *p2 = b.split('/')
        if r != r2:
            return False
        if not all(self.cm.same(u, v) for u, v in zip(path, p2)):
            return False
        # the recorded path or anything below it; for containers also the whole
        return len(p2) >= len(path) or all(x.startswith('[') for x in path[len(p2):])

    # ---- calls
    def sites_of(self, f, depth, seen=()):
        """Calls made by f, and by functions it calls that are new or (depth) any."""
        s = self.eng.sums[f.qual]
        out = []
        for name, quals, args, node in s.sites:
            out.append((name, {k: {a.replace(SEP, '/') for a in norm(f, v.d)}
                               for k, v in args.items()}))
        for cq, bl in s.bounds.items():
            g = self.p.functions.get(cq)
            if g is None or cq in seen or g is f:
                continue
            new = cq not in self.con
            if not new and depth <= 0:
                continue
            for name, args in self.sites_of(g, depth if new else depth - 1, seen + (f.qual,)):
                for b, c in bl:
                    out.append((name, {k: self.mapped(f, v, b, g) for k, v in args.items()}))
        for h in f.nested.values():
            if h.qual not in self.con and h.qual not in seen:
                for name, args in self.sites_of(h, depth, seen + (f.qual,)):
                    out.append((name, {k: {a[1:] if a.startswith('~') else a for a in v}
                                       for k, v in args.items()}))
        return out

    def mapped(self, f, atoms_, b, g):
        out = set()
        for a in atoms_:
            r, *path = a.split('/')
            if r == 'self' and g.self_name:
                r = g.self_name
            v = b.get(r)
            if v is None:
                if r.startswith('~'):
                    out.add(a)
                continue
            for x in norm(f, v.d):
                x = x.replace(SEP, '/')
                out.add('/'.join([x] + path))
                out.add(x)
        return out

    def calls(self, q):
        rec = self.con[q]
        f = self.current(q)
        if f is None or 's' not in rec:
            return
        ren = self.rename(f, rec['p'])
        near = self.sites_of(f, 0)
        far = None
        for name, args in rec['s']:
            self.rep.count('calls compared')
            best = self.best(name, args, near, ren)
            if best == []:
                continue
            if far is None:
                far = self.sites_of(f, 1)
            b2 = self.best(name, args, far, ren)
            if b2 is not None:
                best = b2 if best is None or len(b2) < len(best) else best
            if not best:
                continue           # no longer called at all: the results decide
            for k, a in best:
                yield f, name, k, a

    def best(self, name, args, sites, ren):
        best = None
        for n, cur in sites:
            if n != name:
                continue
            miss = []
            pooled = None
            for k, at in args.items():
                have = cur.get(k)
                if have is None and (k.startswith('arg') or any(x.startswith('arg') for x in cur)):
                    # positional on one side, by keyword on the other
                    if pooled is None:
                        pooled = set().union(*cur.values()) if cur else set()
                    have = pooled
                if have is None:
                    kw = [x for x in ('args', 'kwargs') if x in cur]
                    if kw:
                        have = set().union(*[cur[x] for x in kw])
                    else:
                        have = set()
                for a in at:
                    w = self.want(a, ren)
                    if w is not None and not self.cm.covers(w, have):
                        miss.append((k, a))
            if best is None or len(miss) < len(best):
                best = miss
            if not miss:
                return []
        return best
