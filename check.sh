#!/bin/bash
# usage: check.sh PROPERTY quick|thorough      (run anywhere; rebuilds from /repo's working tree)
# exit 0: held on everything explored; 1: VIOLATION line on stdout; anything else: the check failed
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/build.sh" || exit 3
cd "$HERE" || exit 3
exec "$HERE/sim/target/release/orcsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
