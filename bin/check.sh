#!/bin/bash
# check.sh <property>: decides one property of /repo's working tree.
. "$(dirname "$0")/env.sh"
build_gover || { echo "the verifier does not build"; exit 2; }
cd "$VERIF" && exec timeout --foreground -k 5 "${GOVER_TIMEOUT:-880}" "$VERIF/bin/gover" "$@"
