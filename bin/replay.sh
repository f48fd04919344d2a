#!/bin/bash
# replay.sh <file>: runs the real code on the input a replay file records.
. "$(dirname "$0")/env.sh"
build_gover || exit 2
exec "$VERIF/bin/gover" replay "$1"
