#!/bin/bash
# usage: replay.sh FILE     re-executes a replay file; exit 1 if the recorded violation shows again
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/build.sh" || exit 3
exec "$HERE/sim/target/release/orcsim" replay "$1"
