"""Arguments and stored values that are decided by one input alone."""
from . import deps
from .depcheck import norm, SEP


def alone(c, f):
    """('call', callee, its parameter) / ('store', path, '') -> the single input deciding it,
    at every place in f, or None when some place mixes in another one."""
    s = c.strict.sums[f.qual]
    out = {}
    for (_, g), args in s.exact.items():
        for k, v in args.items():
            if k == c.p.functions[g].self_name:
                continue
            out.setdefault(('call', g, k), []).append(
                frozenset(a.replace(SEP, '/') for a in norm(f, v)))
    for k, v in s.writes.items():
        k2 = next(iter(norm(f, {k}))).replace(SEP, '/')
        if k2.startswith('self/') and k2.count('/') == 1 and k in s.must:
            v = deps.flat(v)
            out.setdefault(('store', k2, ''), []).append(
                frozenset(a.replace(SEP, '/') for a in norm(f, v.d | v.c)))
    return out


def single(c, f, vals):
    """the one parameter (or attribute) that decides the value at one of the places"""
    r = set()
    for v in vals:
        if len(v) == 1:
            a = next(iter(v))
            if not a.startswith('~') and (a in f.all_params or a.startswith('self/')) and \
                    a != 'self':
                r.add(a)
    return r


def record(c):
    recs = {}
    for q in sorted(c.con):
        f = c.current(q)
        if f is None or f.qual != q:
            continue
        r = []
        for (kind, g, k), vals in sorted(alone(c, f).items()):
            for a in sorted(single(c, f, vals)):
                if kind == 'store' and a.startswith('self/'):
                    continue
                r.append([kind, g, k, a])
        if r:
            recs[q] = r
    return recs


def compare(rep, c, recs):
    for q, rs in sorted(recs.items()):
        f = c.current(q)
        if f is None:
            continue
        ren = c.rename(f, c.con[q]['p']) if q in c.con else {}
        now = None
        for kind, g, k, a in rs:
            rep.count('values decided by one input')
            w = c.want(a, ren)
            if w is None:
                continue
            if now is None:
                now = alone(c, f)
            if kind == 'call':
                g2 = c.current(g)
                if g2 is None:
                    continue
                k2 = c.rename(g2, c.con[g]['p']).get(k, k) if g in c.con else k
                vals = now.get((kind, g2.qual, k2))
            else:
                vals = now.get((kind, g, k))
            if not vals:
                continue               # moved: the other rules decide
            # places where it takes part at all
            part = [v for v in vals if any(c.cm.covers(w, {x}) for x in v)]
            if not part:
                continue
            if not any(all(c.cm.covers(w, {x}) or c.cm.covers(x, {w}) or x == 'self'
                           for x in v) for v in part):
                more = sorted(x for x in part[0] if not c.cm.covers(w, {x}))
                yield (f"{q}|{kind}|{g}|{k}|{a}", f,
                       f"{a.replace('/', '.')} alone decided " +
                       (f"argument '{k}' of {g}" if kind == 'call' else g.replace('/', '.')) +
                       f" in {q}; now {', '.join(more)} can override it")
