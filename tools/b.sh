#!/bin/bash
# build the simulator quietly; show only errors
. /verif/tools/env.sh
cd /verif/dst && cargo build --offline --target $DST_TARGET > /tmp/b.log 2>&1; rc=$?
[ $rc = 0 ] || grep -E "^error" -A14 /tmp/b.log | head -${1:-80}
exit $rc
