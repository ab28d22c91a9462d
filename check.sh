#!/bin/bash
# Builds the verifier from /verif/govc and runs the check of one property against /repo.
# usage: bash /verif/check.sh <property> [quick|thorough]
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/env.sh"
T="$(mktemp -d /tmp/govc-build-XXXXXX)"
trap 'rm -rf "$T"' EXIT
verif_env "$T"
if ! verif_build "$T/govc" >"$T/log" 2>&1; then
  cat "$T/log"
  echo "the verifier did not build"
  exit 2
fi
"$T/govc" check -root "$ROOT" -tier "${2:-${VERIF_TIER:-quick}}" "$1"
