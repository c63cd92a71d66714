#!/bin/bash
# Usage: run.sh build | run.sh <property> [--tier quick|thorough] [--seed N] [--sub NAME]
# Rebuilds the harness against /repo's current working tree, then runs one check.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export QSV_HOME="$HERE"
export QSV_REPO=/repo
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR="$HERE/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" /repo/target
build() {
  exec 9>"$CARGO_TARGET_DIR/.qsv-lock"; flock 9
  cd "$HERE/harness" || exit 2
  # cargo decides freshness by mtime; decide by content as well
  local h old=""
  h=$(cd /repo && find qcd-sme tc_long_prop python Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  [ -f "$CARGO_TARGET_DIR/.qsv-stamp" ] && old=$(cat "$CARGO_TARGET_DIR/.qsv-stamp")
  if [ -n "$old" ] && { [ "$h" != "$old" ] || [ ! -f /repo/target/release/include/qcd_sme.h ]; }; then
    cargo clean --release --offline -p qcd-sme -p tc_long_prop >/dev/null 2>&1
    cargo clean --release --offline -p qsv >/dev/null 2>&1
  fi
  local log="$CARGO_TARGET_DIR/build.log"
  if ! cargo build --release --offline --locked >"$log" 2>&1; then tail -40 "$log" >&2; echo "build failed" >&2; exit 2; fi
  case "${1:-}" in C25|C29|C31|build)
    if ! cargo build --release --offline --locked -p qcd-sme -p tc_long_prop --lib --bin physical_tc >>"$log" 2>&1; then tail -40 "$log" >&2; echo "build failed" >&2; exit 2; fi;;
  esac
  echo "$h" >"$CARGO_TARGET_DIR/.qsv-stamp"
  flock -u 9; exec 9>&-
}
P=${1:?property}; shift
build "$P"
[ "$P" = build ] && exit 0
cd "$HERE" || exit 2
exec "$CARGO_TARGET_DIR/release/qsv" check "$P" "$@"
