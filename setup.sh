#!/bin/bash
# Builds the verifier once and warms the build caches the checks use. Idempotent, offline.
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/env.sh"
T="$(mktemp -d /tmp/govc-setup-XXXXXX)"
trap 'rm -rf "$T"' EXIT
verif_env "$T"
verif_build "$T/govc" || exit 1
mkdir -p "$ROOT/evidence"
for t in go z3 cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
(cd /repo && go build ./msg/... ./uid/... ./cipher/... ./encode/... ) || exit 1
echo "setup ok"
