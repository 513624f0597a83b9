"""developer tool: take what A20 reported on behaviour-preserving rewrites out of the contracts.
usage: absorb20.py OUTPUT..."""
import json, re, sys
u = {tuple(x) for x in json.load(open('contracts/unstable.json'))}
try:
    w = set(json.load(open('contracts/forwards_unstable.json')))
except FileNotFoundError:
    w = set()
for fn in sys.argv[1:]:
    for l in open(fn):
        m = re.search(r'\[(argument|alone|result|output):(.*)\]$', l.rstrip())
        if not m:
            continue
        if m[1] == 'alone':
            w.add(m[2])
        elif m[1] == 'argument':
            q, name, k, a = m[2].split('|')
            u.add((q, 'call', name, k, a))
        else:
            print('left:', l[:200])
json.dump(sorted(u), open('contracts/unstable.json', 'w'), indent=0)
json.dump(sorted(w), open('contracts/forwards_unstable.json', 'w'), indent=0)
