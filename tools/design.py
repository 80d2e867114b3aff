"""Writes DESIGN.md from docs/, properties.jsonl, the constants of the checks, KNOWN_FINDINGS and seeded/."""
import ast, json, os, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
def consts(i):
    d={}
    for n in ast.parse(open(V+'/checks/%s.py'%i.lower()).read()).body:
        if isinstance(n,ast.Assign):
            try: d[n.targets[0].id]=ast.literal_eval(n.value)
            except Exception: pass
    return d
MISSED=json.load(open(V+'/docs/seeded_notes.json'))
def seeded():
    rows=['| change | property | needs | breaks | caught by | history |','|---|---|---|---|---|---|']
    for d in sorted(os.listdir(V+'/seeded')):
        m=json.load(open(V+'/seeded/'+d+'/meta.json'))
        rows.append('| %s | %s | %s | %s | %s | %s |'%(d,m['property'],m['needs'],m['what_it_breaks'],m['property'],MISSED.get(d,'caught at once')))
    return '\n'.join(rows)
def defects():
    by={}
    for l in open(V+'/KNOWN_FINDINGS'):
        if l.startswith('fixed: property='):
            a,b=l[len('fixed: property='):].split(' ',1); by.setdefault(a,[]).append(b.strip())
    return '\n'.join('* %s: %s'%(k,'; '.join('%s (%s)'%tuple(reversed(x.split(' ',1))) for x in by[k])) for k in sorted(by))
out=[]
out.append(open(V+'/docs/design_head.md').read())
out.append('\n## The properties one by one\n')
for p in props:
    d=consts(p['id'])
    out.append('### %s  %s\n'%(p['id'],p['title']))
    out.append('*Specified*: %s\n'%p['statement'])
    out.append('*Workload, monitors, oracle* (`checks/%s.py`): %s\n'%(p['id'].lower(),d['RULE']))
    out.append('*Bounds and cost*: %d cases in the quick tier, %d in the thorough tier (both stop starting cases at their time budget).\n'%(d['CASES']['quick'],d['CASES']['thorough']))
    a=d.get('ASSUMPTIONS')
    if a: out.append('*Assumptions*: '+' '.join(a)+'\n')
    out.append('*Beyond the tests*: %s\n'%p['why_tests_cant'])
out.append(open(V+'/docs/design_tail.md').read().replace('@SEEDED@', seeded()).replace('@DEFECTS@', defects()))
open(V+'/DESIGN.md','w').write('\n'.join(out))
