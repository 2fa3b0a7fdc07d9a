#!/usr/bin/env python3
"""Generates /verif/seeded from the seeds*.py beside this file: each seed is
(id, property, needs, breaks, [(file, old, new)], demo body). The demo body runs
in a scratch directory with $p the built prototool."""
import os,sys,json,subprocess,tempfile,shutil,glob
here=os.path.dirname(os.path.abspath(__file__))
out='/verif/seeded'
HEAD='''#!/bin/bash
set -u
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
export PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc PROTOTOOL_PROTOC_WKT_PATH=/usr/include
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
go build -o "$t/prototool" ./cmd/prototool || exit 2
p=$t/prototool
mkdir -p "$t/w" && cd "$t/w" || exit 2
'''
GOHEAD='''#!/bin/bash
set -u
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export DEMO_DIR=$t
cat > "$t/o.json" <<X
{"Replace": {"$PWD/internal/PKG/seeded_demo_test.go": "$here/demo_test.go.txt"}}
X
go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestSeededDemo$' ./internal/PKG
'''
def main():
    seeds=[]
    for f in sorted(glob.glob(here+'/seeds*.py')):
        g={}
        exec(open(f).read(),g)
        seeds+=g['SEEDS']
    want=sys.argv[1:]
    for s in seeds:
        sid,prop,needs,breaks,edits,demo=s
        if want and sid not in want: continue
        d=os.path.join(out,sid); os.makedirs(d,exist_ok=True)
        t=tempfile.mkdtemp()
        subprocess.check_call(f'cd /repo && git archive HEAD cmd internal | tar x -C {t} && cd {t} && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x',shell=True)
        for f,o,n in edits:
            p=os.path.join(t,f); x=open(p).read()
            assert x.count(o)==1,(sid,f,x.count(o))
            open(p,'w').write(x.replace(o,n))
        diff=subprocess.check_output(['git','-C',t,'diff']).decode()
        shutil.rmtree(t)
        open(d+'/patch.diff','w').write(diff)
        if demo.startswith(('GO:','RACE:')):
            kind,rest=demo.split(':',1)
            pkg,src=rest.split('\n',1)
            open(d+'/demo_test.go.txt','w').write(src)
            open(d+'/demo.sh','w').write(GOHEAD.replace('PKG',pkg).replace('go test ','go test -race ' if kind=='RACE' else 'go test '))
        else:
            open(d+'/demo.sh','w').write(HEAD+demo.strip()+'\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
        print(sid)
main()
