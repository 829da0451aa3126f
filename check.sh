#!/bin/bash
# usage: check.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]
# Builds the monitors against /repo's working tree and runs the property's workload under them.
# exit 0: held; exit 1 + VIOLATION line: broken; anything else: no verdict.
cd "$(dirname "$0")" || exit 2
root=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
prop=$1
export VERIF_ROOT=$root
export VERIF_REPO=${VERIF_REPO:-/repo}
unset CARGO_TARGET_DIR RUSTFLAGS
mkdir -p replays evidence
tgt=$root/harness/target
log=$root/harness/build.log

# cargo trusts timestamps; the library's content decides whether it is rebuilt here
fresh() { # $1: target directory
    local sum
    sum=$(cd "$VERIF_REPO" && find src Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
    mkdir -p "$1"
    if [ "$(cat "$1/.repo-sum" 2>/dev/null)" != "$sum" ]; then
        find "$1" -path '*/.fingerprint/obsidian-*' -prune -exec rm -r -f {} + 2>/dev/null
        echo "$sum" > "$1/.repo-sum"
    fi
}
# what a run of instrumented code that died on a signal means
died() { # $1: exit status, $2: what ran
    local s=$(( $1 - 128 )) f
    case $s in
        4|6|7|8|11) # ILL ABRT BUS FPE SEGV: memory corruption, runaway recursion, abort
            f=$root/replays/$prop-crash-$$.json
            printf '{"property":"%s","what":"the process died on signal %d","run":"%s","seed":"%s"}\n' "$prop" "$s" "$2" "${VERIF_SEED:-1}" > "$f"
            echo "$prop: the process running the library died on signal $s"
            echo "VIOLATION property=$prop replay=$f"
            exit 1 ;;
    esac
    echo "NO VERDICT $prop: $2 ended with status $1"
    exit 3
}

case $prop in
    C18) # the sanitizers decide; they build for themselves
        shift
        exec python3 tools/c18.py "$@" ;;
esac
fresh "$tgt"
if ! (cd harness && cargo build --offline >"$log" 2>&1); then
    tail -40 "$log"
    echo "NO VERDICT $prop: the harness does not build against $VERIF_REPO"
    exit 3
fi
"$tgt/debug/verif-harness" "$@"
rc=$?
[ $rc -le 3 ] && exit $rc
died $rc "verif-harness $*"
