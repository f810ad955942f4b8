#!/bin/bash
# check.sh <property>: rebuild the simulator against /repo's working tree and search.
. "$(dirname "$0")/tools/env.sh"
cd /verif/dst || exit 2
mkdir -p /verif/build
log=/verif/build/build-$1-$$.log
DST_FEATURES=
cargo build --offline --target $DST_TARGET > "$log" 2>&1; rc=$?
case "$1" in
  C16|C22|C25) ;;
  # the contracts of the chain world do not expand or compile: the other worlds can do without
  *) [ $rc = 0 ] || { DST_FEATURES=--no-default-features; cargo build --offline --target $DST_TARGET $DST_FEATURES > "$log" 2>&1; rc=$?; } ;;
esac
if [ $rc != 0 ]; then
  grep -A14 "^error" "$log" | head -120 >&2
  echo "the simulator does not build against /repo's working tree" >&2
  rm -f "$log"; exit 2
fi
rm -f "$log"
case "$1" in C12|C13) expand_env || exit 2 ;; esac
exec ./target/$DST_TARGET/debug/dst check "$1"
