#!/bin/bash
# usage: check.sh <property id>          runs the check (VERIF_SEED, VERIF_TIER)
#        check.sh --replay <file>        replays a violation
cd "$(dirname "$0")" || exit 3
ROOT=$PWD
if [ "$1" = --replay ]; then
  F=$(realpath "$2")
  B=$(sed -n 's/^build //p' "$F" | head -1)
  ./build.sh "$B" || exit 3
  if grep -q '^class macro:does-not-compile' "$F"; then
    [ -f "target/$B/partial" ] || { echo "the uses of the macros compile"; exit 0; }
    grep -m3 -A6 '^error' "target/$B/partial"; echo "VIOLATION property=C17 replay=$F"; exit 1
  fi
  exec "target/$B/jsonsim" replay "$F"
fi
P=$1
SEED=${VERIF_SEED:-1}; TIER=${VERIF_TIER:-quick}
PLAN=dev,release,dev,release,dev,release,dev,release
KINDS="dev release"
# runs per worker of the quick tier; the wall clock is only a safety net there
case $P in
  C01) RUNS=8000;; C02) RUNS=10000;; C03) RUNS=10000;; C05) RUNS=12000;; C07) RUNS=36000;;
  C08) RUNS=10000;; C09) RUNS=60000;; C10) RUNS=60000;; C11) RUNS=160000;; C14) RUNS=3000;; C17) RUNS=40000;; C18) RUNS=14000;;
  C13) RUNS=6000; PLAN=dev,release,mem,release,mem,release,mem,mem; KINDS="dev release mem";;
  C12) RUNS=4000; PLAN=mem,release,mem,release,mem,release,dev,dev; KINDS="dev release mem";;
  C20) RUNS=8000; PLAN=mem,release,mem,release,mem,release,dev,dev; KINDS="dev release mem";;
  C04) RUNS=7000; PLAN=dev,release,mem,release,mem,release,dev,release; KINDS="dev release mem";;
  C06) RUNS=26000; PLAN=dev,release,mem,release,mem,release,dev,release; KINDS="dev release mem";;
  C19) RUNS=700; PLAN=cost,cost,cost,cost,cost,cost,cost,cost; KINDS="dev cost";;
  *) echo "no check for $P" >&2; exit 3;;
esac
WALL=60
if [ "$TIER" = thorough ]; then RUNS=1000000000; WALL=${VERIF_WALL:-600}; fi
[ -n "$VERIF_RUNS" ] && RUNS=$VERIF_RUNS
./build.sh $KINDS || exit 3
if [ "$P" = C17 ] && [ -f target/dev/partial ]; then
  F=$ROOT/out/C17-does-not-compile.replay
  printf 'jsonsim-replay 1\nproperty C17\nbuild dev\nclass macro:does-not-compile\n' >"$F"
  grep -m3 -A6 '^error' target/dev/partial | sed 's/^/# /' | tee -a "$F"
  echo "VIOLATION property=C17 replay=$F"; exit 1
fi
BINS=dev=$ROOT/target/dev/jsonsim,release=$ROOT/target/release/jsonsim,mem=$ROOT/target/mem/jsonsim,cost=$ROOT/target/cost/jsonsim
exec target/dev/jsonsim check --prop "$P" --tier "$TIER" --seed "$SEED" --runs "$RUNS" --wall "$WALL" --bins "$BINS" --plan "$PLAN" \
  --out "$ROOT/out" --evidence "$ROOT/evidence" --known "$ROOT/known_findings.txt" --shrink 20
