#!/bin/bash
# verify.sh id...: in a scratch copy of /repo laid over nothing real: builds, stable tests, demo both ways,
# and what the checker reports on the patched tree.
set -u
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
for id in "$@"; do
  s=/verif/seeded/$id
  d=/tmp/sv/$id; mkdir -p /tmp/sv; rm -rf "/tmp/sv/$id"; cp -a /repo $d
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  demo=$(mktemp -d); cp $s/* $demo/; rm -f $demo/patch.diff $demo/meta.json
  (cd $d && timeout 300 bash $demo/demo.sh >/tmp/sv/$id.clean 2>&1); a=$?
  (cd $d && git apply $s/patch.diff) || { echo "$id: APPLY FAILED"; continue; }
  (cd $d && go build ./... ) >/tmp/sv/$id.build 2>&1 || { echo "$id: BUILD FAILED"; continue; }
  (cd $d && timeout 300 bash $demo/demo.sh >/tmp/sv/$id.patched 2>&1); b=$?
  tests=$(cd $d && PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc PROTOTOOL_PROTOC_WKT_PATH=/usr/include go test -json -vet=off -count=1 -timeout 10m -skip '^TestDownload$' ./... 2>/dev/null | python3 -c "
import sys,json
base=json.load(open('/opt/vp/BASELINE.json'))
names=json.dumps(base)
bad=[]
for l in sys.stdin:
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='fail' and e.get('Test') and e['Test'] in names: bad.append(e['Test'])
print('tests-fail:'+','.join(bad) if bad else 'tests-ok')")
  PTCHECK_REPO=$d /tmp/ptcheck checkall > /tmp/sv/$id.check 2>&1
  alarms=$(tail -1 /tmp/sv/$id.check)
  c=MISSED; grep -q "$prop" <<<"$alarms" && c=caught
  echo "$id $prop demo clean=$a patched=$b $tests $c [$alarms]"
  rm -rf "/tmp/sv/$id" "$demo"
done
