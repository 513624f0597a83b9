"""Developer tool: adds what A16 reports on a rewritten copy (VERIF_REPO) to guards_unstable.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.setrecursionlimit(20000)
from sa import depcheck, report
from sa.checks import a16
p = a16.path(a16.UNSTABLE)
old = {tuple(x) for x in json.load(open(p))} if os.path.exists(p) else set()
rep = report.Report('A16', 'quick', 1)
new = {(r, k) for r, k, f, m in a16.compare(rep, depcheck.Checker(rep), a16.load())} - old
for x in sorted(new): print(x)
json.dump(sorted(old | new), open(p, 'w'), indent=0)
