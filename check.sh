#!/bin/bash
# check.sh <property>: rebuild the harness from /repo's working tree and decide one property.
# check.sh replay <file>: run one saved case again.
# Exit 0: held on everything explored; 1: VIOLATION line printed; other: the check itself failed.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
id=$1
prop=$id
[ "$id" = replay ] && prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2")
case "$prop" in
  C23|C24|C25|C26|C27|C30|C31|C32) crate=pg bin=rxpg ;;
  *) crate=core bin=rxcore ;;
esac
log=$(mktemp /tmp/vcheck-build.XXXXXX)
trap 'rm -f "$log"' EXIT
if ! (cd "$crate" && cargo build --offline --quiet) >"$log" 2>&1; then
  cat "$log"
  echo "harness error: the harness does not build against /repo" >&2
  exit 2
fi
exec_bin="$VERIF_DIR/$crate/target/debug/$bin"
"$exec_bin" "$@"
