#!/bin/bash
# run.sh ID [TIER] [--case N]   decides one property on /repo's current working tree
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=$V
export VERIF_BUILD=${VERIF_BUILD:-$V/build}
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
case $id in
  C15) modes="maps points race" ;;
  C17|C18) modes="maps cli bbni" ;;
  C19|C20|C23) modes="maps bbni" ;;
  *) modes="maps" ;;
esac
bash "$V/build.sh" $modes || { echo "ERROR: build failed"; exit 2; }
bin=harness
[ "$id" = C15 ] && bin=harness-points
exec "$VERIF_BUILD/bin/$bin" check "$id" "$tier" "$@"
