#!/bin/bash
# Usage: run.sh <property> [quick|thorough]
# Exit 0: held; exit 1: VIOLATION line printed; anything else: error of the check.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
export GV_VERIF="$here"
export GV_KNOWN="$here/known_findings.json"
case "$id" in
    P01 | P04 | P07 | P09 | P13 | P15 | P19)
        # half of the cases run in a build without debug assertions
        export GV_PLAIN_EXE="$here/harness/target/plain/granne-verif"
        "$here/build.sh" harness plain || exit 2
        ;;
    P20)
        "$here/build.sh" pyharness &
        py=$!
        "$here/build.sh" harness || exit 2
        wait $py || exit 2
        exec python3-vt "$here/pyharness/p20.py" run
        ;;
    P24)
        "$here/build.sh" harness asan tsan || exit 2
        target="$here/harness/target"
        export GV_ASAN_EXE="$target/nightly-asan/x86_64-unknown-linux-gnu/asan/granne-verif"
        export GV_TSAN_EXE="$target/nightly-tsan/x86_64-unknown-linux-gnu/tsan/granne-verif"
        ;;
    *) "$here/build.sh" harness || exit 2 ;;
esac
exec "$here/harness/target/release/granne-verif" run "$id"
