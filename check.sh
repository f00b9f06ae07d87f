#!/usr/bin/env bash
# Usage: check.sh Cnn [quick|thorough] | check.sh replay FILE | check.sh setup
# Exit: 0 the property held on everything explored, 1 violation, anything else: no answer.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
unset RUSTFLAGS MC_CASES MC_TWICE MC_REVERSE MC_TRY
H="$VERIF_DIR/harness"
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/replays"

build() { # profile -> path of the explorer
    local log
    if ! log=$(cd "$H" && cargo build --offline --profile "$1" --features full 2>&1); then
        echo "$log" | tail -40 >&2
        echo "check.sh: the explorer can't be built against /repo" >&2
        exit 3
    fi
}

run() { # property tier profile
    build "$3"
    VERIF_TIER="$2" "$H/target/$3/mc" "$1"
}

case "$1" in
setup)
    build release
    build checked
    ;;
replay)
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 3
    case "$prop" in
    C22) exec python3 "$VERIF_DIR/c22.py" replay "$2" ;;
    C21) build checked; exec "$H/target/checked/mc" replay "$2" ;;
    *) build release; exec "$H/target/release/mc" replay "$2" ;;
    esac
    ;;
C22)
    VERIF_TIER="${2:-quick}" python3 "$VERIF_DIR/c22.py"
    rc=$?
    [ $rc -le 1 ] && exit $rc
    exit 3
    ;;
C21)
    # with every arithmetic and debug assertion on; thorough: also the way it is released
    if [ "${2:-quick}" = thorough ]; then
        run C21 thorough release || exit $?
    fi
    run C21 "${2:-quick}" checked
    ;;
C[0-9][0-9])
    run "$1" "${2:-quick}" release
    ;;
*)
    echo "usage: check.sh Cnn [quick|thorough] | replay FILE | setup" >&2
    exit 2
    ;;
esac
