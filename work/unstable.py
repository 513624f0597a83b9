"""Developer tool: differences from the dependence contract found in a rewritten copy
(VERIF_REPO) are appended to contracts/unstable.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from sa import depcheck, report
p = os.path.join(H, 'contracts', 'unstable.json')
old = {tuple(x) for x in json.load(open(p))} if os.path.exists(p) else set()
c = depcheck.Checker(report.Report('A20', 'quick', 1))
new = set(depcheck.findings(c)) - old
for x in sorted(new)[:80]: print(x)
json.dump(sorted(old | new), open(p, 'w'), indent=0)
print(len(new), 'new')
