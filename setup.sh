#!/bin/bash
# setup.sh: builds every variant of the harness once, to see that all is there.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build" "$here/evidence"
bash "$here/build.sh" "$here/build/vh" &&
    bash "$here/build.sh" "$here/build/vh-trie" -tags=trie &&
    bash "$here/build.sh" "$here/build/vh-race" -race
