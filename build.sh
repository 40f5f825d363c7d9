#!/bin/bash
# Builds the simulator around the json crate as it is in /repo's working tree now.
# usage: build.sh dev|release|mem|cost ...     (called by setup.sh and check.sh)
cd "$(dirname "$0")" || exit 3
ROOT=$PWD
export RUSTC_WRAPPER=$ROOT/sim/rustc-wrap.sh CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
mkdir -p target out evidence
# what the build depends on, by content: modification times say nothing about a tree that was copied or restored
HASH=$( { find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml; find sim -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; rustc -vV; } | sha256sum | cut -d' ' -f1)
one() {
  local kind=$1 dir flags=() sub
  case $kind in
    dev) dir=$ROOT/target/dev; sub=debug;;
    release) dir=$ROOT/target/release; sub=release; flags=(--release);;
    mem) dir=$ROOT/target/mem; sub=debug; export JSONSIM_MEM=1;;
    cost) dir=$ROOT/target/cost; sub=x86_64-unknown-linux-gnu/release; export JSONSIM_COST=1 RUSTC_BOOTSTRAP=1
      flags=(--release -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu)
      # without the library's sources the work within core and alloc goes uncounted
      if [ ! -f "$(rustc --print sysroot)/lib/rustlib/src/rust/library/Cargo.lock" ]; then flags=(--release); sub=release; fi;;
    *) echo "no such build: $kind" >&2; return 3;;
  esac
  mkdir -p "$dir"
  exec 9>"$dir/lock"; flock 9
  if [ "$(cat "$dir/built" 2>/dev/null)" = "$HASH" ] && [ -x "$dir/jsonsim" ]; then return 0; fi
  find "$dir" -maxdepth 4 -type d \( -path "*/.fingerprint/json-*" -o -path "*/.fingerprint/surface-*" -o -path "*/.fingerprint/jsonsim-*" \) -prune -exec rm -r {} + 2>/dev/null
  if ! CARGO_TARGET_DIR=$dir cargo build --offline --quiet --manifest-path sim/Cargo.toml "${flags[@]}" >"$dir/log" 2>&1; then
    # a macro that no longer takes what it took leaves everything but its own check possible
    if grep -q 'could not compile `surface`' "$dir/log" && CARGO_TARGET_DIR=$dir cargo build --offline --quiet --no-default-features --manifest-path sim/Cargo.toml "${flags[@]}" >"$dir/log2" 2>&1; then
      cp "$dir/log" "$dir/partial"
    else
      cat "$dir/log" >&2; echo "the $kind build failed" >&2; return 2
    fi
  else rm -f "$dir/partial"; fi
  cp "$dir/$sub/jsonsim" "$dir/jsonsim.new" && mv "$dir/jsonsim.new" "$dir/jsonsim" && echo "$HASH" >"$dir/built"
}
pids=()
for k in "$@"; do ( one "$k" ) & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=2; done
exit $rc
