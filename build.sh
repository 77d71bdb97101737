#!/bin/bash
# build.sh OUT [go build flags]: builds the harness from /repo's working tree.
# With the flag -tags=trie, a file that exports the trie is laid over the package.
. /opt/vp/env.sh 2>/dev/null
export GOSUMDB=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
here=$(cd "$(dirname "$0")" && pwd)
out=$1; shift
case " $* " in
*" -tags=trie "*)
    ov=$(mktemp) || exit 2
    trap '/bin/rm -f "$ov"' EXIT
    printf '{"Replace": {"/repo/zz_verif_export.go": "%s/overlay/zz_verif_export.go"}}' "$here" > "$ov"
    set -- -overlay "$ov" "$@"
    ;;
esac
cd "$here/harness" && go build -o "$out" "$@" .
