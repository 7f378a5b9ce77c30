#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from the output
of tools/plant/plant.py (last result per bug) and seeded/*/meta.json.
usage: bugtable.py OUTPUT..."""
import json,os,re,sys
R=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V=os.environ.get("SEEDED",os.path.join(R,"seeded"))
res={}
for f in sys.argv[1:]:
    for l in open(f,errors='replace'):
        m=re.match(r'(c\d\d-[\w-]+) (?:ok .*?; )?(CAUGHT by (C\d\d) after (\d+) runs: ([\w-]+)|MISSED in (\d+) runs)',l)
        if m: res[m[1]]=m
rows=[]
for d in sorted(os.listdir(V)):
    p=os.path.join(V,d,'meta.json')
    if not os.path.exists(p): continue
    j=json.load(open(p)); m=res.get(d)
    got='?' if not m else f'{m[3]} `{m[5]}`, run {m[4]}' if m[3] else f'missed in {m[6]} runs'
    rows.append(f"| {d} | {j['property']} | {j['what_it_breaks'].strip().splitlines()[0]} | {got} |")
s=open(os.path.join(R,'DESIGN.md')).read()
s=s.split('## Planted bugs')[0]+"""## Planted bugs

`seeded/` (made by `tools/plant/plant.py`, which confirms that each compiles,
passes the stable tests and that its demonstration tells it from the original).
"Run" is the first run of the quick check of that property that reports it.

| bug | property | what it breaks | caught by |
|---|---|---|---|
"""+'\n'.join(rows)+'\n'
open(os.path.join(R,'DESIGN.md'),'w').write(s)
