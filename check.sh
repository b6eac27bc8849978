#!/bin/bash
# check.sh <property> <quick|thorough>: build the checker from /repo's working tree and decide one property.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
cd "$here" || exit 2
mkdir -p replays target
crate=mc
[ "$prop" = C20 ] && crate=codecmc

# run BINARY ARGS..: an abort or a memory error of the checker's process comes from the code under
# test (the harness itself has no unsafe code on its paths): report it
run() {
    local log="target/$prop-$tier.stderr"
    # (not straight to stderr: the two streams may be one file, and a VIOLATION line must stand alone)
    "$@" 2> "$log"
    local rc=$?
    cat "$log" >&2
    case $rc in
    132|134|135|136|139)
        local rp="$here/replays/$prop-$tier-abort.txt"
        { echo "property: $prop"; echo "signature: abort"; echo "what: the process was aborted (exit $rc)"; tail -c 4000 "$log"; } > "$rp"
        echo "VIOLATION property=$prop replay=$rp"
        echo "  abort: the process running the code under test was aborted (exit $rc)"
        rc=1 ;;
    esac
    return $rc
}

case "$prop" in
C06|C20)
    # once with debug assertions and overflow checks, once without; allocations gone wild abort
    ulimit -v 24000000
    bin="$(bash "$here/build.sh" dbgassert $crate)" || { echo "build failed" >&2; exit 2; }
    out="target/$prop-$tier-dbg.out"
    run "$bin" "$prop" "$tier" > "$out"
    rc=$?
    if [ $rc -ne 0 ]; then cat "$out"; exit $rc; fi
    export MC_PRE="$here/$out" ;;
esac
bin="$(bash "$here/build.sh" release $crate)" || { echo "build failed" >&2; exit 2; }
run "$bin" "$prop" "$tier"
exit $?
