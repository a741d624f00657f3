#!/bin/bash
# run.sh build | run.sh ID quick|thorough : builds the simulator with /repo's working tree, runs one check.
V=$(cd "$(dirname "$0")" && pwd)
. "$V/tools/env.sh"
T=$V/target
mkdir -p "$T"
exec 9>"$T/.run.lock"
flock 9
# include_assets is not tracked by cargo: embed changed files anew
NEW=$(cd /repo && find assets -type f -print0 | LC_ALL=C sort -z | xargs -0 -r sha256sum | sha256sum)
if [ "$NEW" != "$(cat "$T/assets.sha256" 2>/dev/null)" ]; then
  (cd "$V/sim" && cargo clean --offline --target-dir "$T" -p s2protocol >/dev/null 2>&1)
  echo "$NEW" >"$T/assets.sha256"
fi
if ! (cd "$V/sim" && cargo build --offline --locked --target-dir "$T" >"$T/build.log" 2>&1); then
  tail -40 "$T/build.log"
  echo "HARNESS ERROR: the build failed"
  exit 2
fi
flock -u 9
[ "$1" = build ] && exit 0
exec "$T/debug/s2sim" check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
