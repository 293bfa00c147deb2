#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, with tables made from properties.jsonl, checks.json,
known_findings.txt and seeded/*/meta.json (plus tools/seed_results.json: which checks catch what)."""
import json,glob,os,re
V='/verif/'
props=[json.loads(l) for l in open(V+'properties.jsonl')]
checks={c['property']:c for c in json.load(open(V+'tools/checks.json'))}
na=json.load(open(V+'tools/na.json'))
D=open(V+'tools/design_parts.md').read()
parts=dict(re.findall(r'^## (C\d\d)\n(.*?)(?=^## |\Z)',D,re.S|re.M))
intro,tail=D.split('<!--PROPS-->')[0],D.split('<!--TAIL-->')[1]
out=[intro.rstrip(),'','# Properties, one by one','']
known=[l.rstrip('\n') for l in open(V+'known_findings.txt') if l.strip() and not l.startswith('#')]
for p in props:
    i=p['id']
    out.append(f"## {i}: {p['title']}\n")
    if i in na: out.append('Not applicable: '+na[i]+'\n'); continue
    out.append(f"*Technique:* {checks[i]['technique']} (level: {checks[i]['level']}).\n")
    out.append(parts.get(i,'').strip()+'\n')
    fx=[l for l in known if l.startswith(f'fixed: property={i} ')]
    fi=[l.split('\t') for l in known if l.startswith(f'finding\t{i}\t')]
    if fx:
        out.append('Defects found by this check and repaired in /repo:\n')
        for l in fx:
            h,w=l[len(f'fixed: property={i} '):].split(' ',1); out.append(f'- `{h}` {w}')
        out.append('')
    if fi:
        out.append('Defects found and not repaired (known findings):\n')
        for f in fi: out.append(f'- {f[3]} (key `{f[2]}`)')
        out.append('')
out.append('# Planted bugs\n')
res={}
if os.path.exists(V+'tools/seed_results.json'): res=json.load(open(V+'tools/seed_results.json'))
out.append('Each was written from the text of a property and the code, confirmed to build, to keep the 244 stable tests passing and to fail its own `demo.sh`. `tools/plant.sh ID` repeats that and runs the check.\n')
out.append('| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
for m in sorted(glob.glob(V+'seeded/*/meta.json')):
    s=os.path.basename(os.path.dirname(m)); j=json.load(open(m))
    esc=lambda t:t.replace('|','\\|').replace('\n',' ')
    out.append(f"| {s} | {j['property']} | {esc(j['what_it_breaks'])} | {esc(j['needs'])} | {esc(res.get(s,'not run yet'))} |")
out.append('')
out.append(tail.strip()+'\n')
open(V+'DESIGN.md','w').write('\n'.join(out))
