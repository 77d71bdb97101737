#!/bin/bash
# check.sh ID [quick|thorough] [harness flags]: builds the harness from /repo's working tree and runs the
# check of one property. The tier is the argument, or VERIF_TIER, or quick; the seed is VERIF_SEED, or 1.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
dir=$(mktemp -d) || exit 2
chmod 755 "$dir"
trap '/bin/rm -rf "$dir"' EXIT
flags=()
case $id in
C18) flags=(-tags=trie) ;;
C19) flags=(-race) ;;
esac
if ! bash "$here/build.sh" "$dir/vh" "${flags[@]}" >"$dir/build.log" 2>&1; then
    echo "ERROR: the harness does not build against /repo" >&2
    head -c 4000 "$dir/build.log" >&2
    exit 2
fi
"$dir/vh" -prop "$id" -tier "$tier" -verif "$here" "$@"
