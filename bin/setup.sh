#!/bin/bash
# Builds the verifier from the committed sources and warms the build cache.
. "$(dirname "$0")/env.sh"
build_gover
