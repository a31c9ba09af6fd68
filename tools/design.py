import sys,importlib.util,glob,json
from pathlib import Path
V=Path('/verif')
sys.path.insert(0,str(V))
def mod(i):
    s=importlib.util.spec_from_file_location('x',V/f'checks/{i}.py'); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
props={json.loads(l)['id']:json.loads(l) for l in open(V/'properties.jsonl')}
man=json.load(open(V/'MANIFEST.json'))
na={x['property']:x['reason'] for x in man['not_applicable']}
sec=(V/'notes/design_sections.md').read_text()
S={}
cur=None
for l in sec.splitlines():
    if l.startswith('@'): cur=l[1:].strip(); S[cur]=[]
    elif cur: S[cur].append(l)
S={k:'\n'.join(v).strip() for k,v in S.items()}
out=[S['HEAD'],'','# Properties','']
for i in sorted(props):
    p=props[i]
    if i in na: continue
    m=mod(i)
    ev=V/f'evidence/{i}.json'
    q=[j for j in m.JOBS if not j.get('thorough_only')]
    out+= [f"## {i} — {p['title']}",'',S[i],'',
      f"*Bounds*: {m.BOUNDS}. Jobs: {len(q)} quick, {len(m.JOBS)} thorough.", '',
      "*Assumptions*: "+"; ".join(m.ASSUMPTIONS)+".",'']
if na:
    out+=['# Not applicable','']
    for i in sorted(na): out+=[f"- {i}, {props[i]['title']}: {na[i]}"]
    out+=['']
out+=['# Planted bugs and the checks that catch them','',S['SEEDS'],'','| change | needs | caught by |','|---|---|---|']
for f in sorted((V/'seeded').glob('*/meta.json')):
    m=json.loads(f.read_text()); out.append(f"| {f.parent.name}: {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
out+=['','# Defects found in the library','',S['DEFECTS'],'']
for x in json.load(open(V/'known_findings.json'))['findings']:
    d=x if isinstance(x,str) else next((v for v in x.values() if isinstance(v,str) and v.startswith(('fixed:','KNOWN'))),str(x)); out.append('- '+d)
out+=['',S['TAIL'],'']
(V/'DESIGN.md').write_text('\n'.join(out))
