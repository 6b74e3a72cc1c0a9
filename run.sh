#!/bin/bash
# run.sh check <property> <quick|thorough>     build from /repo's working tree, run the check, write evidence
# run.sh replay <property> '<case>'            one case
# run.sh setup                                 build everything
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p work replays evidence

build() { # profile
    local log="work/build.$1.$$.log"
    if ! cargo build --offline --manifest-path harness/Cargo.toml --profile "$1" >"$log" 2>&1; then
        cat "$log" >&2
        rm -f "$log"
        echo "ERROR: the harness does not build against /repo" >&2
        exit 2
    fi
    rm -f "$log"
}
both() { # the two profiles have separate target folders and build side by side
    build release &
    local pid=$!
    build plain
    wait $pid || exit 2
}
# cargo decides by modification time; make sure an edit of /repo is always seen
fresh() {
    local sum stamp=harness/target/.repo-sum
    sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$sum" ]; then
        rm -rf harness/target/release/.fingerprint/rustdht-* harness/target/plain/.fingerprint/rustdht-*
        mkdir -p harness/target
        echo "$sum" >"$stamp"
    fi
}
mode="${1:-}"
case "$mode" in
setup)
    fresh
    both
    ;;
check)
    id="$2" tier="${3:-${VERIF_TIER:-quick}}"
    fresh
    case "$id" in
    C12)
        build plain
        # may transforms be shared between threads at all?
        log="replays/C12-not-shareable.txt"
        if ! cargo check --offline --manifest-path harness/Cargo.toml --profile plain --features probe --bin probe >"work/probe.$$" 2>&1; then
            if grep -Eq "cannot be (sent|shared) between threads safely" "work/probe.$$"; then
                mv "work/probe.$$" "$log"
                cat "$log"
                echo "VIOLATION property=C12 replay=$VERIF_DIR/$log"
                exit 1
            fi
            cat "work/probe.$$" >&2
            rm -f "work/probe.$$"
            exit 2
        fi
        rm -f "work/probe.$$"
        harness/target/plain/mc run "$id" "$tier"
        ;;
    *)
        # with debug assertions, overflow checks and unchecked-access preconditions first, then as a user's release build
        both
        MC_STAGE=checked harness/target/release/mc run "$id" "$tier" || exit $?
        MC_PREV=checked harness/target/plain/mc run "$id" "$tier"
        ;;
    esac
    ;;
replay)
    fresh
    both
    harness/target/release/mc replay "$2" "$3" || exit $?
    harness/target/plain/mc replay "$2" "$3"
    ;;
*)
    echo "usage: run.sh setup | check <id> <tier> | replay <id> <case>" >&2
    exit 2
    ;;
esac
