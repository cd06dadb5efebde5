#!/bin/bash
# Builds everything once; every check builds what it needs again.
set -e
. "$(dirname "$0")/env.sh"
for w in dfa regex empty cost plain gen wasm; do bash "$VERIF/build.sh" $w; done
