#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>                 re-execute a recorded violation exactly
# check.sh build                         build only
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 the check itself could not run.
ROOT="$(cd "$(dirname "$0")" && pwd)"
export SIM_ROOT="$ROOT" SIM_TARGET="${SIM_TARGET:-$ROOT/target}"
export VERIF_SEED="${VERIF_SEED:-1}"
BIN="$SIM_TARGET/x86_64-unknown-linux-gnu/debug/simcheck"
mkdir -p "$SIM_TARGET" "$ROOT/evidence" "$ROOT/replays"
build() {
  # Freshness is decided by content, not by modification times: if the sources
  # of the crates under test differ from those of the last build, their build
  # products are removed first.
  local h old
  h=$(cd /repo && find futures* -name '*.rs' -not -path '*/target/*' -o -name Cargo.toml -not -path '*/target/*' | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
  old=$(cat "$SIM_TARGET/repo.stamp" 2>/dev/null)
  if [ "$h" != "$old" ]; then
    rm -f "$SIM_TARGET/repo.stamp" "$BIN"
    if [ -n "$old" ]; then
      (cd "$ROOT/sim" && CARGO_TARGET_DIR="$SIM_TARGET" cargo +nightly clean --offline -q --target x86_64-unknown-linux-gnu \
        -p futures@0.4.0-alpha.0 -p futures-util -p futures-core -p futures-channel -p futures-executor -p futures-io -p futures-sink -p futures-task -p futures-macro -p futures-test -p simcheck) >/dev/null 2>&1 \
        || rm -rf "$SIM_TARGET/x86_64-unknown-linux-gnu" "$SIM_TARGET/debug"
    fi
  fi
  if ! bash "$ROOT/sim/build.sh" >"$SIM_TARGET/build.log" 2>&1; then
    # once more from nothing, in case of a damaged or foreign target directory
    rm -rf "$SIM_TARGET/x86_64-unknown-linux-gnu" "$SIM_TARGET/debug"
    if ! bash "$ROOT/sim/build.sh" >"$SIM_TARGET/build.log" 2>&1; then
      tail -n 40 "$SIM_TARGET/build.log" >&2
      echo "check.sh: build failed" >&2
      exit 2
    fi
  fi
  [ -x "$BIN" ] || { echo "check.sh: no binary" >&2; exit 2; }
  echo "$h" >"$SIM_TARGET/repo.stamp"
}
exec 9>"$SIM_TARGET/lock"
flock 9
build
exec 9>&-
case "$1" in
  build) exit 0 ;;
  replay) exec "$BIN" replay "$2" ;;
  *) exec "$BIN" check "$1" "${2:-quick}" ;;
esac
