#!/bin/bash
# check.sh <ID> <quick|thorough>: build the monitors against /repo's working tree and run one check.
# exit 0 held on everything explored; 1 + VIOLATION line; 2/3 no answer.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
id=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
log=$VERIF_DIR/out; mkdir -p "$log" evidence
build() { # <target-dir> <extra cargo args...>
  local td=$1; shift
  (cd harness && cargo build --release --offline --target-dir "$td" "$@" >"$log/build-$id.log" 2>&1) || { tail -40 "$log/build-$id.log"; echo "BUILD FAILED"; exit 2; }
}
case "$id" in
  P03) # AddressSanitizer build
    export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address"
    export ASAN_OPTIONS=abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1
    build target/asan --target x86_64-unknown-linux-gnu
    exec harness/target/asan/x86_64-unknown-linux-gnu/release/sa_monitor run "$id" "$tier" "$seed" ;;
  P14) # ThreadSanitizer build, standard library included
    export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread"
    export TSAN_OPTIONS="exitcode=66 halt_on_error=0 report_signal_unsafe=0"
    build target/tsan -Zbuild-std --target x86_64-unknown-linux-gnu
    exec harness/target/tsan/x86_64-unknown-linux-gnu/release/sa_monitor run "$id" "$tier" "$seed" ;;
  P23) # the Python extension, built from the same tree
    build target
    py=/opt/vp/venv/bin/python; [ -x "$py" ] || py=$(command -v python3)
    CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_LTO=false CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 PYO3_PYTHON="$py" \
      cargo build --manifest-path /repo/Cargo.toml --release --offline --lib --features python,parallel --target-dir "$VERIF_DIR/target/py" >"$log/build-py.log" 2>&1 || { tail -40 "$log/build-py.log"; echo "BUILD FAILED"; exit 2; }
    stage=$(mktemp -d) && mkdir "$stage/symb_anafis" && cp -r /repo/python/symb_anafis/. "$stage/symb_anafis/" && cp target/py/release/libsymb_anafis.so "$stage/symb_anafis/symb_anafis.so" || exit 2
    trap 'rm -r "$stage"' EXIT
    PYEXT="$stage" harness/target/release/sa_monitor run "$id" "$tier" "$seed"
    exit $? ;;
  *)
    build target
    exec harness/target/release/sa_monitor run "$id" "$tier" "$seed" ;;
esac
