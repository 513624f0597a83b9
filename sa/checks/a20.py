"""A20: what influences a result today keeps influencing it."""
from .. import depcheck, forward, report

FWD = 'forwards.json'
DROP = 'forwards_unstable.json'


def check(rep):
    rep.rule('result', 'every parameter and object attribute that flows (by data or by control) '
             'into a value returned by a function, as recorded in contracts/dependences.jsonl, '
             'still flows into it')
    rep.rule('output', 'the same for every object or array handed in that the function writes')
    rep.rule('argument', 'for every recorded call between project functions there is still a call '
             '(in the function or in a helper split off from it) whose arguments receive all '
             'inputs they received')
    rep.rule('alone', 'an argument of a project call, or a stored attribute, that one parameter or '
             'attribute decides alone today is not overridden by another input')
    c = depcheck.Checker(rep)
    rep.count('functions under contract', sum(1 for q in c.con if c.current(q) is not None))
    for q in sorted(c.con):
        for f, what, a, k in c.results(q):
            rep.finding('result', f"{q}|{what}|{a}", f.where(),
                        f"{what} by {q} no longer depends ({k}) on {a.replace('/', '.')}")
        for f, w, a, k in c.writes(q):
            if w.startswith('self/'):
                continue
            rep.finding('output', f"{q}|{w}|{a}", f.where(),
                        f"{w.replace('/', '.')} in {q} {a}" if k in ('write', 'must') else
                        f"{w.replace('/', '.')} written by {q} no longer depends ({k}) on "
                        f"{a.replace('/', '.')}")
        for f, name, k, a in c.calls(q):
            rep.finding('argument', f"{q}|{name}|{k}|{a}", f.where(),
                        f"{q} no longer lets {a.replace('/', '.')} reach argument '{k}' of {name}")
    for key, f, why in forward.compare(rep, c, report.contract(FWD)):
        rep.finding('alone', key, f.where(), why)
    rep.need('values decided by one input', 1500)
    rep.need('functions under contract', 1800)
    rep.need('influences compared', 12000)
    rep.need('calls compared', 1500)
    rep.assumptions.append('an input that flows into a value through a library call is taken to '
                           'influence it; numerical insignificance is not considered')


def write_contract(rep):
    depcheck.write_contract()
    c = depcheck.Checker(rep)
    recs = forward.record(c)
    drop = {k for k, f, w in forward.compare(rep, c, recs)}
    if report.has_contract(DROP):
        drop |= set(report.contract(DROP))
    recs = {q: [r for r in rs if '|'.join([q] + r) not in drop] for q, rs in recs.items()}
    report.write_contract(FWD, {q: r for q, r in recs.items() if r})
    print(sum(map(len, recs.values())), 'values decided by one input')
