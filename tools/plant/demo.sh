#!/bin/bash
# Runs in a checkout of goast: exits 0 when the behaviour is right, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
dir=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$dir"' EXIT
cp "$here/demo_test.go.txt" "$dir/demo_test.go" || exit 2
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$dir" > "$dir/overlay.json"
timeout 280 go test -vet=off -count=1 -overlay "$dir/overlay.json" -run '^TestDemo$' . 2>&1 | tail -c 3000
exit "${PIPESTATUS[0]}"
