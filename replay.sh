#!/bin/bash
# replay.sh <file>: re-execute a reported violation against /repo's working tree.
f=$(realpath "$1") || exit 2
. "$(dirname "$0")/tools/env.sh"
cd /verif/dst || exit 2
cargo build --offline --target $DST_TARGET >/dev/null 2>&1 || exit 2
grep -q '"property": *"C1[23]"' "$f" && { expand_env || exit 2; }
exec ./target/$DST_TARGET/debug/dst replay "$f"
