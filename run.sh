#!/bin/bash
# run.sh PROPERTY: builds what the check needs from /repo's working tree and runs it.
# Exit 0 held, 1 violated (with a VIOLATION line), anything else: the check could not answer.
set -u
prop=${1:?property}
here=$(cd "$(dirname "$0")" && pwd)
cd "$here"
export VERIF_DIR=$here RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p evidence replays
rm -f "$here/evidence/$prop.json"

build() { # DIR ARGS...
    local dir=$1; shift
    local log
    log=$(mktemp)
    if ! (cd "$dir" && cargo build --offline --quiet "$@") >"$log" 2>&1; then
        tail -n 60 "$log"
        rm -f "$log"
        echo "cannot build $dir from /repo's working tree"
        exit 2
    fi
    rm -f "$log"
}

run() { # a process that dies by a signal or panics is a violation too
    local log="$here/replays/$prop-output.txt"
    timeout -k 5 840 "$@" 2> >(grep -v '^JARL LSP: ' | tee "$log.err" >&2) | tee "$log"
    local rc=${PIPESTATUS[0]}
    case $rc in
    0 | 1 | 2) ;;
    124 | 137) # our own time limit, or the machine ran out of memory: no verdict
        echo "the check was stopped (status $rc) before it could answer"
        exit 2
        ;;
    *)
        cat "$log.err" >>"$log" 2>/dev/null
        echo "the process under the monitor ended abnormally (status $rc)"
        echo "VIOLATION property=$prop replay=$log"
        exit 1
        ;;
    esac
    [ "$rc" = 0 ] && rm -f "$log" "$log.err"
    exit "$rc"
}

# most of these start a process for each case
[ "${VERIF_TIER:-quick}" = thorough ] || [[ $prop != C[234]* ]] || export VERIF_BUDGET_S=${VERIF_BUDGET_S:-20}

case $prop in
C11) build zed && run zed/target/debug/zedmon "$prop" ;;
C14 | C15) run node vscode/mon.js "$prop" ;;
C33 | C34 | C40) build full && RUST_MIN_STACK=67108864 && export RUST_MIN_STACK && run full/target/debug/fullmon "$prop" ;;
C2* | C3*) build full && run full/target/debug/fullmon "$prop" ;;
C0* | C10 | C12 | C13) build mon && run mon/target/debug/mon "$prop" ;;
*) echo "unknown property $prop"; exit 2 ;;
esac
