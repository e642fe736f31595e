#!/bin/bash
# builds the simulation from the committed files and /repo's working tree
cd /verif || exit 2
. /verif/env.sh
mkdir -p evidence replays
cd dst && cargo build --release --offline
