#!/bin/bash
# check.sh build | check.sh <ID> [quick|thorough] [more obsverif options]
# Builds the harness against /repo's current working tree and runs one check.
# Exit 0: held, 1: VIOLATION, 2: no answer (build or machine trouble).
cd "$(dirname "$0")/harness" || exit 2
here=$(cd .. && pwd)
repo=${OBSVERIF_REPO:-/repo}
export CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
mkdir -p target
exec 9>target/.lock && flock 9

# cargo goes by modification times, which say little in copied trees: go by content
sum=$(cd "$repo" && find src Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$sum" != "$(cat target/.sum 2>/dev/null)" ]; then
  cargo clean --release --offline -p obsidian >/dev/null 2>&1
fi
build() { cargo build --release --offline "$@" >target/build.log 2>&1; }
if ! build && ! build --no-default-features; then
  # once more from scratch before giving up
  cargo clean --release --offline >/dev/null 2>&1
  if ! build && ! build --no-default-features; then
    tail -40 target/build.log >&2
    echo "build failed" >&2
    exit 2
  fi
fi
echo "$sum" >target/.sum
[ "$1" = build ] && exit 0
bin=$(mktemp target/obsverif-run.XXXXXX) && cp target/release/obsverif "$bin" && chmod 755 "$bin" || exit 2
trap 'rm -f "$here/harness/$bin"' EXIT
flock -u 9
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
"./$bin" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$here" "$@"
