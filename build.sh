# Sourced by check.sh and setup.sh: builds the code under test and the harness.
# $id: what to build for, or "all".
REPO=/repo
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUST_BACKTRACE=0
export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset LD_LIBRARY_PATH LD_PRELOAD
T=$VERIF_DIR/target
H=$T/h
export VERIF_BIN=$T/repo/debug
mkdir -p "$T" || return 1
exec 9>"$T/lock"
flock 9

# Cargo decides by time stamps, which need not be reliable here, so compare the contents.
sum=$(cd "$REPO" && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 |
    LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
for d in repo h; do
    if [ -d "$T/$d" ] && [ "$(cat "$T/$d.sum" 2>/dev/null)" != "$sum" ]; then
        rm -rf "$T/$d"/debug/.fingerprint/{scutiger-,pkt-,be-}*
    fi
done

build() {
    # Building takes seconds; a build which hangs is no answer.
    timeout 800 cargo build --offline "$@" >"$T/build.log" 2>&1 9>&- || {
        tail -40 "$T/build.log" >&2
        echo "build failed: cargo build $*" >&2
        return 1
    }
}
case $id in
    P01|P02)
        CARGO_TARGET_DIR=$H build --manifest-path pkt/Cargo.toml || return 1
        echo "$sum" >"$T/h.sum"
        ;;
    P30|P32)
        CARGO_TARGET_DIR=$H build --manifest-path be/Cargo.toml || return 1
        echo "$sum" >"$T/h.sum"
        ;;
    all)
        CARGO_TARGET_DIR=$H build --manifest-path be/Cargo.toml || return 1
        CARGO_TARGET_DIR=$H build --manifest-path pkt/Cargo.toml || return 1
        echo "$sum" >"$T/h.sum"
        CARGO_TARGET_DIR=$T/repo build --locked --manifest-path "$REPO/Cargo.toml" --workspace --bins || return 1
        echo "$sum" >"$T/repo.sum"
        ;;
    *)
        CARGO_TARGET_DIR=$T/repo build --locked --manifest-path "$REPO/Cargo.toml" --workspace --bins || return 1
        echo "$sum" >"$T/repo.sum"
        ;;
esac
case $id in
    P01|P02|P30|P32) ;;
    *)
        if [ ! "$T/shim.so" -nt shim.c ]; then
            gcc -O1 -shared -fPIC -o "$T/shim.so" shim.c || return 1
        fi
        export VERIF_SHIM=$T/shim.so
        CARGO_TARGET_DIR=$H build --manifest-path vh/Cargo.toml || return 1
        ;;
esac
exec 9>&-
