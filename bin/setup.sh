#!/bin/bash
# Builds the harness crates from the committed files and /repo's tree; the checks rebuild what changed.
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR" || exit 2
fresh
for c in h-*/; do
    c=${c%/}
    [ -f "$c/Cargo.toml" ] || continue
    build_for "$c" --release
done
build h-iter
echo "setup done"
