#!/bin/bash
# Builds the simulator from the committed files and /repo's working tree (offline).
. "$(dirname "$0")/tools/env.sh"
cd /verif/dst || exit 2
cargo build --offline --target $DST_TARGET
