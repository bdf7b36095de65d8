#!/bin/bash
# nothing to install: every check builds what it needs; this only warms the build of /repo
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
. "$VERIF_DIR/lib/build.sh"
build_repo
