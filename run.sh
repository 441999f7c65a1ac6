#!/bin/bash
# run.sh <property> [quick|thorough]   -- builds the monitored binary from /repo's working tree and runs one check
# exit 0: held on everything observed; 1: VIOLATION line printed; 2: no verdict (build or monitor error)
cd "$(dirname "$0")" || exit 2
root=$PWD
id="${1:?usage: run.sh <property> [quick|thorough]}"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}" VERIF_ROOT="$root"
. "$root/env.sh"
mkdir -p evidence replays build
rm -f "evidence/$id.json"

exec 9>build/.lock
flock 9
# cargo decides by modification times, which copies and checkouts do not keep in order: decide by contents
stamp=$( { find /repo/src /repo/der-oid-macro /repo/Cargo.toml harness sut sancov-rustc.sh env.sh -path '*/target' -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; rustc -V; } | sha256sum | cut -d' ' -f1)
if [ "$(cat build/stamp 2>/dev/null)" != "$stamp" ] || [ ! -x build/target/debug/dermon ]; then
  rm -f build/stamp
  export RUSTC_WRAPPER="$root/sancov-rustc.sh" CARGO_TARGET_DIR="$root/build/target"
  (cd harness && cargo clean --offline -q -p der-parser -p sut -p dermon 2>/dev/null
   cargo build --offline -q --locked) >build/build.log 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then
    tail -60 build/build.log >&2
    echo "INCONCLUSIVE property=$id: the monitored binary does not build" >&2
    exit 2
  fi
  echo "$stamp" > build/stamp
fi
flock -u 9
unset RUSTC_WRAPPER
exec build/target/debug/dermon run "$id"
