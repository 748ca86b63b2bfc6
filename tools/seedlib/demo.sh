#!/bin/bash
# Run with cwd = the kafka-mock-go tree. Compiles the demonstration into the
# package through an overlay (no file is written there) and runs it.
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
HERE=$(cd "$(dirname "$0")" && pwd)
TREE=$(pwd)
WORK=$(mktemp -d) || exit 3
trap 'rm -rf "$WORK"' EXIT
cat > "$WORK/overlay.json" <<J
{"Replace": {"$TREE/zz_demo_test.go": "$HERE/demo_test.go.txt", "$TREE/zz_demolib_test.go": "$HERE/demolib_test.go.txt"}}
J
RACE=""
export CGO_ENABLED=0
if [ -f "$HERE/race" ]; then RACE=-race; export CGO_ENABLED=1; fi
timeout 280 go test $RACE -vet=off -count=1 -overlay "$WORK/overlay.json" -run '^TestZZDemo$' -timeout 240s . > "$WORK/out" 2>&1
RC=$?
tail -n 40 "$WORK/out"
exit $RC
