#!/bin/bash
# table.sh RESULTS: writes the table of planted changes into DESIGN.md, from
# the lines verify.sh printed.
python3 - "$1" <<'P'
import json,os,re,sys
res={}
for l in open(sys.argv[1]):
    m=re.match(r'(\S+) (C\d+) demo clean=0 patched=\d+ tests-ok (\w+) \[ALARMS \d+ (.*?) lines',l)
    if m: res[m[1]]=(m[3],m[4])
rows=['| change | property | what it breaks | needs | reported by |','|---|---|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    got=res.get(d,('?',''))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {got[1] if got[0]=='caught' else got[0]} |")
p='/verif/DESIGN.md'
x=open(p).read()
b,e='<!-- seeds -->\n','<!-- /seeds -->\n'
t=b+'\n'.join(rows)+'\n'+e
if b in x: x=x[:x.index(b)]+t+x[x.index(e)+len(e):]
else: x=x.replace('SEEDTABLE\n',t)
open(p,'w').write(x)
print(len(rows)-2, [d for d in os.listdir('/verif/seeded') if d not in res])
P
