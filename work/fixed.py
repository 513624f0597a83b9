"""Developer helper: append a 'fixed' entry to known_findings.json: fixed.py <property> <commit> <what>."""
import json,sys,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f=os.path.join(H,'known_findings.json'); d=json.load(open(f))
e=f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"
if e not in d['fixed']: d['fixed'].append(e)
json.dump(d,open(f,'w'),indent=1)
