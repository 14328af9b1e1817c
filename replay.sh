#!/bin/bash
# usage: replay.sh FILE    re-executes a replay file; exit 1 when it reproduces
here="$(cd "$(dirname "$0")" && pwd)" || exit 2
bash "$here/build.sh" || exit 2
export LSIM_VERIF="$here"
exec "${LSIM_TARGET:-$here/target}/debug/lsim" replay "$1"
