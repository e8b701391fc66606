#!/bin/bash
# Builds the simulator and every harness from the committed files.
set -u
here=$(cd "$(dirname "$0")" && pwd)
source "$here/tools/env.sh"
cd "$here/sim" && cargo build --release --offline
