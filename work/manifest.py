"""Writes MANIFEST.json from the list of built checks and properties.jsonl."""
import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH={
'A01':'interprocedural alias and effect analysis over the resolved syntax trees',
'A02':'interprocedural alias and effect analysis of module- and class-level containers and defaults',
'A13':'name, member, attribute, signature and definite-assignment analysis of the resolved program',
}
NA=json.load(open(os.path.join(H,'work','na.json')))
props=[json.loads(l) for l in open(os.path.join(H,'properties.jsonl'))]
TECH.update(json.load(open(os.path.join(H,'work','tech.json'))))
man={'version':1,'setup_cmd':'python3 -c "import ast, json, sys; assert sys.version_info >= (3, 10)"',
 'checks':[],'not_applicable':[]}
for p in props:
    i=p['id']
    if i in TECH and os.path.exists(os.path.join(H,'sa','checks',i.lower()+'.py')):
        t,n=TECH[i] if isinstance(TECH[i],list) else (TECH[i],'sound for the constructs listed in DESIGN.md; calls into libraries follow a table of effects; nothing is executed')
        man['checks'].append({'property':i,'quick_cmd':f'python3 check.py {i}','thorough_cmd':f'python3 check.py {i} --tier thorough','technique':'static analysis: '+t,'level':'other','level_note':n})
    else:
        man['not_applicable'].append({'property':i,'reason':NA.get(i,'the check for this property is not built yet')})
json.dump(man,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
print(len(man['checks']),len(man['not_applicable']))
