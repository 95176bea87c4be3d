#!/bin/bash
# check.sh ID                 run the check of property ID (VERIF_TIER, VERIF_SEED)
# check.sh ID --replay FILE   run one saved case again
# check.sh --build            only build the harness
# Exit: 0 the property held, 1 violation (with a VIOLATION line), 2 the check could not run.
root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset CARGO_TARGET_DIR RUSTFLAGS RUST_BACKTRACE
export NV_ROOT=$root

build() {
  exec 9>"$root/harness/.lock"
  flock 9
  # Cargo judges freshness by mtime: forget what was built from /repo.
  rm -rf "$root"/harness/target/debug/.fingerprint/numopt-*
  local log
  if ! log=$(cd "$root/harness" && cargo build --offline --locked 2>&1); then
    printf '%s\n' "$log" >&2
    echo "error: the harness does not build" >&2
    exit 2
  fi
  exec 9>&-
}

build
[ "$1" = --build ] && exit 0
id=$1
case $id in
  C22|C23) bin=$root/harness/target/debug/nv-ipopt;;
  *)       bin=$root/harness/target/debug/nv-main;;
esac
if [ "$2" = --replay ]; then exec "$bin" replay "$id" "$(realpath "$3")"; fi
exec "$bin" run "$id"
