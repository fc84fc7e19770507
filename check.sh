#!/bin/bash
# check.sh ID quick|thorough: build the monitors against /repo's working tree and run one of them
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export VMON_SCRATCH="$(mktemp -d /tmp/vmon.XXXXXX)"
trap 'rm -rf "$VMON_SCRATCH"' EXIT
id="$1"
tier="${2:-quick}"
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_DIR/evidence" "$VERIF_DIR/work"
log="$VMON_SCRATCH/build.log"

build_vmon() {
    (cd "$VERIF_DIR/harness" && RUSTFLAGS="--cfg louis_verif" cargo build --release --offline --features hook) >"$log" 2>&1 && return 0
    echo "note: the build with hooks failed, building without them" >&2
    (cd "$VERIF_DIR/harness" && RUSTFLAGS="" cargo build --release --offline) >>"$log" 2>&1
}
build_cli() {
    (cd "$VERIF_REPO" && CARGO_TARGET_DIR="$VERIF_DIR/target/cli" cargo build --offline --bin louis) >>"$log" 2>&1
}

# instrumented builds for C26; what cannot be built is left out
TRIPLE=x86_64-unknown-linux-gnu
build_san() { # NAME FLAGS CARGO-FLAGS
    local dir="$VERIF_DIR/target/$1" out="$VERIF_DIR/target/$1/$TRIPLE" l="$VMON_SCRATCH/$1.log"
    rm -f "$out/release/vmon" "$out/debug/louis"
    (cd "$VERIF_DIR/harness" && RUSTFLAGS="--cfg louis_verif $2" CARGO_TARGET_DIR="$dir" cargo +nightly build $3 --release --offline --features hook --target $TRIPLE) >"$l" 2>&1 ||
        (cd "$VERIF_DIR/harness" && RUSTFLAGS="$2" CARGO_TARGET_DIR="$dir" cargo +nightly build $3 --release --offline --target $TRIPLE) >>"$l" 2>&1
    (cd "$VERIF_REPO" && RUSTFLAGS="$2" CARGO_TARGET_DIR="$dir" cargo +nightly build $3 --offline --bin louis --target $TRIPLE) >>"$l" 2>&1
    cp "$out/release/vmon" "$VMON_SCRATCH/vmon-$1"
    cp "$out/debug/louis" "$VMON_SCRATCH/louis-$1"
}
build_miri() {
    export CARGO_TARGET_DIR="$VERIF_DIR/target/miri" XDG_CACHE_HOME="$VERIF_DIR/target/miri/cache" RUSTFLAGS=-Awarnings
    mkdir -p "$XDG_CACHE_HOME"
    # whatever these print, they build
    (cd "$VERIF_REPO" && MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks" cargo +nightly miri run -q --offline --bin louis -- check /nonexistent) >"$VMON_SCRATCH/miri.log" 2>&1 &&
        touch "$VMON_SCRATCH/miri.ok"
    (cd "$VERIF_DIR/harness/miri" && MIRIFLAGS=-Zmiri-disable-isolation cargo +nightly miri run -q --offline -- /nonexistent forward /dev/null) >>"$VMON_SCRATCH/miri.log" 2>&1
}
build_instrumented() {
    build_san asan -Zsanitizer=address "" 2>/dev/null &
    build_san tsan -Zsanitizer=thread -Zbuild-std 2>/dev/null &
    (build_miri) &
    wait
    for t in asan tsan; do
        T=${t^^}
        if [ -x "$VMON_SCRATCH/vmon-$t" ]; then export "VMON_$T=$VMON_SCRATCH/vmon-$t"; fi
        if [ -x "$VMON_SCRATCH/louis-$t" ]; then export "VMON_LOUIS_$T=$VMON_SCRATCH/louis-$t"; fi
    done
    if [ -e "$VMON_SCRATCH/miri.ok" ]; then export VMON_MIRI="$VERIF_REPO"; fi
    if [ -z "${VMON_ASAN:-}" ] || [ -z "${VMON_LOUIS_ASAN:-}" ] || [ -z "${VMON_TSAN:-}" ] || [ -z "${VMON_LOUIS_TSAN:-}" ] || [ -z "${VMON_MIRI:-}" ]; then
        echo "note: not all of the instrumented builds could be made:" >&2
        tail -n 5 "$VMON_SCRATCH"/{asan,tsan,miri}.log >&2
    fi
    if [ -z "${VMON_ASAN:-}" ]; then return 1; fi
}

exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
build_vmon || { tail -40 "$log" >&2; echo "$id: the monitors do not build: no verdict" >&2; exit 2; }
cp "$CARGO_TARGET_DIR/release/vmon" "$VMON_SCRATCH/vmon"
case "$id" in
C03 | C04 | C05 | C17 | C19 | C20 | C22 | C23 | C24 | C26 | C27)
    build_cli || { tail -40 "$log" >&2; echo "$id: the command line tool does not build: no verdict" >&2; exit 2; }
    cp "$CARGO_TARGET_DIR/cli/debug/louis" "$VMON_SCRATCH/louis"
    export VMON_LOUIS="$VMON_SCRATCH/louis"
    ;;
esac
if [ "$id" = C26 ]; then
    build_instrumented || { echo "C26: no instrumented build: no verdict" >&2; exit 2; }
fi
flock -u 9
exec 9>&-
if [ -n "${VMON_BUILD_ONLY:-}" ]; then exit 0; fi
"$VMON_SCRATCH/vmon" check "$id" "$tier"
