"""known.py PROPERTY KEY WHAT : record a genuine defect that is not repaired (developer tool)"""
import json, sys
d = json.load(open('/verif/known_findings.json'))
prop, key, what = sys.argv[1:4]
if not any(f.get('key') == key and f['property'] == prop for f in d['findings']):
    d['findings'].append(dict(property=prop, key=key, what=what, status='known'))
json.dump(d, open('/verif/known_findings.json', 'w'), indent=1)
