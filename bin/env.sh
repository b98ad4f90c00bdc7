# Sourced by the other scripts.
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_DIR
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} LANG=C.UTF-8
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$VERIF_DIR/.target
unset http_proxy https_proxy all_proxy HTTP_PROXY HTTPS_PROXY ALL_PROXY RUSTFLAGS
unset RUST_LOG LOGREDUCE_CACHE CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG

# Cargo decides by time stamps; sources restored with old ones must still be rebuilt.
fresh() {
    mkdir -p "$CARGO_TARGET_DIR"
    local now old
    now=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.css' -o -name '*.html' -o -name '*.js' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum;
             cd "$VERIF_DIR" && find engine interpose preload cstd shim httpsrv h-* -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.py' -o -name '*Cargo.lock' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
    old=$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)
    if [ "$now" != "$old" ]; then
        rm -f "$CARGO_TARGET_DIR/.sources"
        find "$CARGO_TARGET_DIR" -type d -path '*/.fingerprint/*' \( -name 'logreduce*' -o -name 'zuul-build*' -o -name 'h-*' -o -name "vengine*" -o -name "interpose*" -o -name 'preload*' -o -name 'httpdir*' -o -name 'httpsrv*' -o -name 'cstd*' -o -name 'threadpool-ctl*' -o -name 'reqwest-ctl*' \) -prune -exec rm -rf {} + 2>/dev/null
        echo "$now" > "$CARGO_TARGET_DIR/.sources"
    fi
}

# build CRATE [cargo options]
build() {
    local crate=$1
    shift
    if ! cargo build --offline --quiet --manifest-path "$VERIF_DIR/$crate/Cargo.toml" "$@" 2> "$CARGO_TARGET_DIR/build-$crate.log"; then
        grep -A12 -E '^error' "$CARGO_TARGET_DIR/build-$crate.log" | tail -60
        echo "ERROR: $crate does not build" >&2
        exit 2
    fi
}

# h-http with the crawler compiled against the controlled std; without it when that does not build.
build_http() {
    python3 "$VERIF_DIR/tools/gen_httpdir.py" "$CARGO_TARGET_DIR/gen" || exit 2
    if RUSTC_BOOTSTRAP=httpdir_ctl cargo build --offline --quiet --manifest-path "$VERIF_DIR/h-http/Cargo.toml" --release --features ctl 2> "$CARGO_TARGET_DIR/build-h-http-ctl.log"; then
        return
    fi
    echo "note: the crawler does not build against the controlled std" >&2
    build h-http --release
}

# cargo_build NAME options: builds something of /repo's tree
cargo_build() {
    local name=$1
    shift
    if ! cargo build --offline --quiet "$@" 2> "$CARGO_TARGET_DIR/build-$name.log"; then
        grep -A12 -E '^error' "$CARGO_TARGET_DIR/build-$name.log" | tail -60
        echo "ERROR: $name does not build" >&2
        exit 2
    fi
}

# the logreduce command, with the overflow checks of a debug build, and the harness that runs it
build_cli() {
    CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_OPT_LEVEL=1 \
        cargo_build cli --release -p logreduce-cli --manifest-path /repo/Cargo.toml --target-dir "$CARGO_TARGET_DIR/cli"
    build preload --release
    build h-cli --release
}

# the python extension and the harness that drives it
build_py() {
    python3 "$VERIF_DIR/tools/gen_python.py" "$CARGO_TARGET_DIR/gen" || exit 2
    cargo_build py --release --manifest-path "$CARGO_TARGET_DIR/gen/python/Cargo.toml" --target-dir "$CARGO_TARGET_DIR/py"
    build h-py --release
}

# build_for CRATE profile
build_for() {
    case $1 in
        h-http) build_http ;;
        h-cli) build_cli ;;
        h-py) build_py ;;
        preload) build preload --release ;;
        *) build "$@" ;;
    esac
}
