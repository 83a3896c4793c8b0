#!/usr/bin/env bash
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree, explore, report.
set -eu
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
bins=()
build checked "$id" || { echo "could not build the explorer from $REPO" >&2; exit 2; }
bins+=("checked=$CARGO_TARGET_DIR/checked/symcheck")
build wrapping "$id" || { echo "could not build the explorer from $REPO" >&2; exit 2; }
bins+=("wrapping=$CARGO_TARGET_DIR/wrapping/symcheck")
mkdir -p "$VERIF/evidence"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export SYMCHECK_TMP="$tmp"
ulimit -c 0
ulimit -v 24000000
rc=0
"$CARGO_TARGET_DIR/checked/symcheck" check "$id" "$tier" "$VERIF" "${bins[@]}" || rc=$?
exit $rc
