#!/bin/bash
# build.sh [sim|evalsim]: build the simulators (optimised, with overflow checks and debug
# assertions) from /repo's working tree. The library itself is always recompiled,
# so that no timestamp can make an old build pass for the current one.
build_one() {
  local d log rc
  d=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/$1
  log=$(mktemp)
  (cd "$d" && { [ ! -f env.sh ] || . ./env.sh; } && { [ -f env.sh ] || export RUSTUP_TOOLCHAIN=stable; } &&
    { for p in iodyn eval dst evaldst; do cargo clean -q --release --offline -p $p; done >/dev/null 2>&1; cargo build -q --release --offline; }) >"$log" 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then grep -v '^warning' "$log" | tail -40 >&2; echo "harness error: $1 does not build against /repo" >&2; fi
  rm -f "$log"
  return $rc
}
case "${1:-all}" in
  all) build_one sim && build_one evalsim ;;
  *) build_one "$1" ;;
esac
