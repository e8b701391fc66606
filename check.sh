#!/bin/bash
# Usage: check.sh <property> [quick|thorough]   (VERIF_SEED selects the seed)
# Rebuilds the harness against /repo's working tree and runs the batch.
set -u
id=$1
tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
source "$here/tools/env.sh"
case $id in
  C09|C10) h=h_conc ;;
  C11|C12|C13|C18|C26) h=h_tfhe ;;
  *) h=h_cpu ;;
esac
cd "$here/sim" || exit 3
log="$here/sim/target/build-$h.log"
mkdir -p "$here/sim/target"
if ! cargo build --release --offline -p "$h" >"$log" 2>&1; then
  tail -40 "$log"
  echo "the harness does not build against /repo's working tree"
  exit 3
fi
export SPFSIM_ROOT="$here"
exec "$here/sim/target/release/$h" check "$id" "$tier"
