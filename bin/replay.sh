#!/bin/bash
# usage: replay.sh replays/FILE.json : runs that single case again on the current tree
. "$(dirname "$0")/env.sh"
f=$(realpath "${1:?replay file}")
cd "$VERIF_DIR" || exit 2
prog=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["program"])' "$f")
fresh
crate=$(basename "$prog")
case $prog in */debug/*) build "$crate" ;; *) build_for "$crate" --release ;; esac
exec "$prog" replay "$f"
