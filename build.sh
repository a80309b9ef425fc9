#!/bin/bash
# Builds the harness from /repo's current working tree. Usage: build.sh [harness|pyharness] [plain] [asan] [tsan]
# plain: build it a second time, without debug assertions and overflow checks
# asan, tsan: build it again with a sanitizer (nightly compiler)
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
what="${1:-harness}"
export CARGO_NET_OFFLINE=true
export PYTHON_SYS_EXECUTABLE=/usr/bin/python3
export CARGO_TARGET_DIR="$here/$what/target"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.build-lock"
flock 9
profiles="release ${*:2}"
# cargo compares modification times; copies of /repo may carry old ones, so compare contents as well
sum="$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -path ./py/target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"

# cargo with the arguments of a profile
cargo_for() {
    local profile="$1"; shift
    local host=x86_64-unknown-linux-gnu
    case "$profile" in
        asan)
            (cd "$here/$what" && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/nightly-asan" RUSTFLAGS="-Zsanitizer=address" \
                cargo +nightly "$@" --profile asan --offline --target $host)
            ;;
        tsan)
            # the standard library has to be built with it as well
            (cd "$here/$what" && CARGO_TARGET_DIR="$CARGO_TARGET_DIR/nightly-tsan" \
                RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer --cfg crossbeam_sanitize_thread" \
                cargo +nightly "$@" -Zbuild-std --profile tsan --offline --target $host)
            ;;
        *) (cd "$here/$what" && cargo "$@" --profile "$profile" --offline) ;;
    esac
}

clean() {
    cargo_for "$1" clean -p granne >/dev/null 2>&1
    if [ "$what" = pyharness ]; then cargo_for "$1" clean -p pyharness >/dev/null 2>&1; fi
}

build() {
    [ "$(cat "$CARGO_TARGET_DIR/.repo-sum-$1" 2>/dev/null)" = "$sum" ] || clean "$1"
    for attempt in 1 2; do
        cargo_for "$1" build --quiet 2>"$CARGO_TARGET_DIR/build-$1.log" </dev/null && {
            echo "$sum" >"$CARGO_TARGET_DIR/.repo-sum-$1"
            return 0
        }
        clean "$1"
    done
    return 1
}

pids=()
for p in $profiles; do
    build "$p" &
    pids+=($!)
done
ok=yes
for pid in "${pids[@]}"; do wait "$pid" || ok=no; done
[ $ok = yes ] && exit 0
for p in $profiles; do cat "$CARGO_TARGET_DIR/build-$p.log" >&2; done
echo "ERROR: building the harness failed" >&2
exit 2
