#!/usr/bin/env bash
# Builds the explorer in both arithmetic modes from the committed files and /repo's working tree.
set -eu
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
build checked C01
build wrapping C01
"$CARGO_TARGET_DIR/checked/symcheck" list
