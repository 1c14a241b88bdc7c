#!/bin/bash
# Builds both harness crates (the checks rebuild what changed).
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
for c in core pg; do
  [ -d $c ] || continue
  (cd $c && cargo build --offline --quiet) || exit 1
done
