#!/bin/bash
# usage: check.sh Cxx quick|thorough
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR" || exit 2
prop=${1:?property} tier=${2:-${VERIF_TIER:-quick}}
mkdir -p evidence replays
fresh
rel=$CARGO_TARGET_DIR/release
case $prop in
    C01 | C02 | C03) build h-iter --release; exec "$rel/h-iter" run "$prop" "$tier" "${@:3}" ;;
    C04) build h-iter; exec "$CARGO_TARGET_DIR/debug/h-iter" run "$prop" "$tier" "${@:3}" ;;
    C05 | C06 | C07 | C08) build h-tok --release; exec "$rel/h-tok" run "$prop" "$tier" "${@:3}" ;;
    C09 | C10) build h-index --release; exec "$rel/h-index" run "$prop" "$tier" "${@:3}" ;;
    C20 | C21) build h-cache --release; exec "$rel/h-cache" run "$prop" "$tier" "${@:3}" ;;
    C22 | C23) build_http; exec "$rel/h-http" run "$prop" "$tier" "${@:3}" ;;
    C24) build h-zuul --release; exec "$rel/h-zuul" run "$prop" "$tier" "${@:3}" ;;
    C25 | C26 | C31) build h-net --release; exec "$rel/h-net" run "$prop" "$tier" "${@:3}" ;;
    C27) build h-report --release; exec "$rel/h-report" run "$prop" "$tier" "${@:3}" ;;
    C28 | C29 | C32) build_cli; exec "$rel/h-cli" run "$prop" "$tier" "${@:3}" ;;
    C30) build_py; exec "$rel/h-py" run "$prop" "$tier" "${@:3}" ;;
    C1[1-9]) build h-model --release; exec "$rel/h-model" run "$prop" "$tier" "${@:3}" ;;
    *) echo "unknown property $prop" >&2; exit 2 ;;
esac
