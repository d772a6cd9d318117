#!/bin/bash
# check.sh ID [args]: builds the harness against /repo's working tree and runs the check of one property.
set -e
. "$(dirname "$0")/build.sh"
exec "$VERIF_BIN/qcheck" run "$@"
