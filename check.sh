#!/bin/bash
# Usage: check.sh <property> [monitor arguments]   (or: check.sh --build)
# Builds the monitor against /repo's current working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUST_BACKTRACE=0
export CARGO_TARGET_DIR=$V/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$V/target" "$V/evidence" "$V/replays"

# /repo's sources by content: cargo itself only looks at modification times.
stamp() {
    (cd /repo && find ucan ucan-key-support Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.pk8' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
     cd "$V/harness" && find . -type f -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}

build() { # $1: extra name of the stamp; rest: cargo command
    local tag=$1 now; shift
    now=$(stamp)
    if [ "$(cat "$V/target/stamp-$tag" 2>/dev/null)" != "$now" ]; then
        rm -f "$V/target/stamp-$tag"
        (cd harness && "$@" clean) >/dev/null 2>&1
        if ! (cd harness && "$@" build) >"$V/target/build-$tag.log" 2>&1; then
            tail -40 "$V/target/build-$tag.log" >&2
            echo "BUILD FAILED" >&2
            return 2
        fi
        echo "$now" >"$V/target/stamp-$tag"
    fi
}

normal() {
    if [ "$1" = clean ]; then
        cargo clean --release --offline -p ucan -p ucan-key-support -p monitor
    else
        cargo build --release --offline
    fi
}

# The same monitor, and the standard library, instrumented by ThreadSanitizer.
tsan() {
    export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS=-Zsanitizer=thread CARGO_TARGET_DIR=$V/target/tsan
    if [ "$1" = clean ]; then
        cargo clean --release --offline --target x86_64-unknown-linux-gnu -p ucan -p ucan-key-support -p monitor
    else
        cargo build --release --offline -Zbuild-std --target x86_64-unknown-linux-gnu
    fi
}

ARGS=()
for a in "$@"; do
    if [ "$a" = --thorough ]; then export VERIF_TIER=thorough; else ARGS+=("$a"); fi
done
set -- ${ARGS[@]+"${ARGS[@]}"}

exec 9>"$V/target/lock"
flock 9
build normal normal || exit 2
[ "${1:-}" = --build ] && exit 0

ID=$1; shift
TIER=${VERIF_TIER:-quick}
# Checks about data races run a second time under ThreadSanitizer, on this many cases.
case $ID-$TIER in
    C21-thorough) RACES=20000 ;;
    C26-thorough) RACES=4000 ;;
    C21-*) RACES=1500 ;;
    C26-*) RACES=250 ;;
    *) RACES=0 ;;
esac
[ -n "${NO_TSAN:-}" ] && RACES=0
TSAN_BUILT=
if [ $RACES -gt 0 ]; then
    if build tsan tsan; then TSAN_BUILT=1; else echo "no ThreadSanitizer build; going on without" >&2; fi
fi
exec 9>&-

if [ $RACES -eq 0 ] || [ $# -gt 0 ]; then
    exec "$V/target/release/monitor" "$ID" --seed "${VERIF_SEED:-1}" --tier "$TIER" --evidence "$V/evidence/$ID.json" --replays "$V/replays" "$@"
fi
E=$V/evidence/$ID.json
"$V/target/release/monitor" "$ID" --seed "${VERIF_SEED:-1}" --tier "$TIER" --evidence "$E" --replays "$V/replays" || exit $?
[ -n "$TSAN_BUILT" ] || exit 0
T=$(mktemp)
"$V/target/tsan/x86_64-unknown-linux-gnu/release/monitor" "$ID" --seed "${VERIF_SEED:-1}" --tier "$TIER" --cases $RACES --evidence "$T" --replays "$V/replays"
RC=$?
python3 - "$E" "$T" <<'PY'
import json, sys
e = json.load(open(sys.argv[1]))
try:
    t = json.load(open(sys.argv[2]))
    c = t["coverage"]
    e["coverage"]["under_thread_sanitizer"] = {k: c[k] for k in ("cases", "evaluations", "distinct_nontrivial", "events", "distinct_states") if k in c}
    e["wall_s"] = round(e["wall_s"] + t["wall_s"], 3)
    e["violations"] += t["violations"]
except Exception as x:
    e["coverage"]["under_thread_sanitizer"] = f"no result: {x}"
json.dump(e, open(sys.argv[1], "w"), indent=1)
PY
rm -f "$T"
exit $RC
