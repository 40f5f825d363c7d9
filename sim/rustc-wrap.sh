#!/bin/bash
# Cargo calls this as: rustc-wrap.sh <rustc> <args...>.  The crate under test and the
# thin crate that instantiates its generic code are compiled with SanitizerCoverage
# call-backs; the simulator itself is not.  The call-backs are the simulator's
# preemption points and its measure of reach (see src/rt.rs).
RUSTC=$1; shift
# The build that counts work has the standard library's core and alloc instrumented as well.
[ -n "$JSONSIM_COST" ] && LIBS=" core alloc " || LIBS=
NAME=$(sed -n 's/.* --crate-name \([a-zA-Z0-9_]*\) .*/\1/p' <<<" $* ")
case " json surface $LIBS" in
  *" ${NAME:-?} "*)
    EXTRA=(-C passes=sancov-module
      -C llvm-args=-sanitizer-coverage-level=3
      -C llvm-args=-sanitizer-coverage-trace-pc-guard
      -C llvm-args=-sanitizer-coverage-prune-blocks=0
      --cap-lints allow)
    if [ -n "$JSONSIM_MEM" ]; then
      # every access to memory becomes a call to the simulator (src/rt.rs), which alone
      # decides what may be touched; nothing of the AddressSanitizer runtime is linked
      export RUSTC_BOOTSTRAP=1
      EXTRA+=(-Zsanitizer=address -Zexternal-clangrt
        -C llvm-args=-asan-instrumentation-with-call-threshold=0
        -C llvm-args=-asan-use-after-return=never
        -C llvm-args=-asan-force-dynamic-shadow=1
        -C llvm-args=-max-loads-per-memcmp=0)
    fi
    exec "$RUSTC" "$@" "${EXTRA[@]}" ;;
esac
case " $* " in
  *" --crate-name jsonsim "*) export RUSTC_BOOTSTRAP=1 # for the hook that is told when memory is refused
    if [ -n "$JSONSIM_MEM" ]; then exec "$RUSTC" "$@" --cfg jsonsim_mem; fi
    if [ -n "$JSONSIM_COST" ]; then exec "$RUSTC" "$@" --cfg jsonsim_cost; fi ;;
esac
exec "$RUSTC" "$@"
