#!/bin/bash
# run.sh PROPERTY [quick|thorough] [extra args]: rebuild /repo, build the harness of the property, run it.
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift 2
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
. "$VERIF_DIR/lib/build.sh"
harness_of "$ID" || { echo "unknown property $ID" >&2; exit 2; }
build_repo || { echo "build of /repo failed" >&2; exit 2; }
build_harness "$HARNESS" || { echo "build of harness $HARNESS failed" >&2; exit 2; }
export VERIF_TIER=$TIER OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LD_LIBRARY_PATH=/repo/build
exec "$VERIF_DIR/build/$HARNESS" "$ID" --tier "$TIER" "$@"
