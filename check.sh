#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
export OCT_VERIF="$PWD"
new() { [ ! -x bin/octcheck ] || [ -n "$(find checker -newer bin/octcheck -type f \( -name '*.go' -o -name 'go.*' \) -print -quit)" ]; }
if new; then bash setup.sh >&2 || exit 2; fi
. checker/env.sh
exec bin/octcheck check "$1" "${2:-$VERIF_TIER}"
