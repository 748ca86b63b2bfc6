#!/bin/bash
# seedcheck.sh ID [notests]: confirms in a scratch copy that seeded/ID applies,
# builds, passes the stable tests, and that its demo tells the trees apart.
ID=$1
D=/verif/seeded/$ID
S=/tmp/seedcheck.$$; rm -rf "$S"; cp -a /repo "$S"
trap 'rm -rf "$S"' EXIT
cd "$S" && git checkout -q -- . && git clean -fdq
mkdir /tmp/seeddemo.$$; cp -r "$D"/. /tmp/seeddemo.$$/
bash /tmp/seeddemo.$$/demo.sh > /tmp/seedcheck.clean.$ID 2>&1; c=$?
git apply "$D/patch.diff" || { echo "$ID: DOES NOT APPLY"; exit 1; }
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
go build ./... || { echo "$ID: NO BUILD"; exit 1; }
bash /tmp/seeddemo.$$/demo.sh > /tmp/seedcheck.bad.$ID 2>&1; b=$?
rm -rf /tmp/seeddemo.$$
t=skipped
if [ "$2" != notests ]; then
  sed "s#cd /repo#cd $S#" /opt/vp/test.sh > /tmp/seedtest.$$.sh
  unshare -Urn bash -c "ip link set lo up; bash /tmp/seedtest.$$.sh /tmp/seedtest.$$.json" >/dev/null 2>&1
  t=$(python3 - /tmp/seedtest.$$.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
k=next(k for k in b if 'stable' in k or 'pass' in k)
miss=[x for x in b[k] if x not in r.get('passed',[])]
print('ok' if not miss else 'FAIL %s'%miss[:5])
P
)
  rm -f /tmp/seedtest.$$.*
fi
echo "$ID: demo clean=$c patched=$b tests=$t $([ $c = 0 ] && [ $b != 0 ] && echo OK || echo BAD)"
