#!/bin/bash
# usage: check.sh PROPERTY    (environment: VERIF_SEED, VERIF_TIER)
# Rebuilds from /repo's working tree, then searches. Exit 0 held, 1 violation, 2 error.
here="$(cd "$(dirname "$0")" && pwd)" || exit 2
bash "$here/build.sh" || exit 2
export LSIM_VERIF="$here"
exec "${LSIM_TARGET:-$here/target}/debug/lsim" check "$1"
