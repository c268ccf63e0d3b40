#!/bin/bash
# checks/run.sh ID quick|thorough      decide one property
# checks/run.sh build                  only build
# checks/run.sh replay FILE            judge a saved case again
# Builds the c8s command and the harness from /repo's working tree, then runs the harness.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: error of the check.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export C8S_VERIF_DIR=$V C8S_REPO_DIR=/repo
mkdir -p "$V/target" "$V/evidence" "$V/replay"
LOG=$V/target/build.log
: > "$LOG"

# The command, as build.sh builds it, in a folder of its own.
if ! (cd /repo && CARGO_TARGET_DIR=$V/target/cli CARGO_PROFILE_DEV_DEBUG=line-tables-only \
      cargo build --offline --bin c8s) >> "$LOG" 2>&1; then
  tail -n 30 "$LOG" >&2
  echo "check: the c8s command does not build" >&2
  exit 2
fi
export C8S_CLI=$V/target/cli/debug/c8s

# The harness, with as much in-process access to /repo's modules as compiles.
H=
harness() {
  case $1 in
    cov,*) W=$V/checks/rustc-cov.sh D=$V/target/harness ;;
    *) W= D=$V/target/harness-plain ;;
  esac
  (cd "$V/harness" && RUSTC_WRAPPER=$W RUSTFLAGS="--cfg c8s_verif" CARGO_TARGET_DIR=$D \
    cargo build --release --offline --features "${1#cov,}") >> "$LOG" 2>&1 && H=$D/release/harness
}
for L in hook main; do
  harness cov,$L,pipe,api_opcode,api_range && break
  # Is it the library that does not compile, or only the access to some of it?
  harness $L || { echo "check: no library by way of '$L'" >&2; continue; }
  for F in $L,pipe,api_opcode,api_range cov,$L,pipe,api_opcode cov,$L,pipe,api_range cov,$L,pipe $L,pipe $L,api_opcode,api_range $L,api_opcode $L,api_range; do
    harness $F && break
    echo "check: no build with in-process access '$F'" >&2
  done
  break
done
[ -n "$H" ] || harness ""
if [ -z "$H" ]; then
  tail -n 30 "$LOG" >&2
  echo "check: the harness does not build" >&2
  exit 2
fi
case ${1:-} in
  build) exit 0 ;;
  replay) exec "$H" replay "$2" ;;
  *) exec "$H" check "$1" "${2:-quick}" ;;
esac
