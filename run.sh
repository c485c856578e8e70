#!/bin/bash
# run.sh PROPERTY | --build | replay FILE
# Builds the model checker against the working tree of /repo (unless this exact
# tree was built before) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=/repo
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$here/target
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_INCREMENTAL=0
cd "$here" || exit 2

# Everything that the binaries are made of.
hash=$( { cat "$repo/Cargo.toml" "$repo/Cargo.lock" 2>/dev/null
          find "$repo/src" -type f -print0 | sort -z | xargs -0 sha256sum
          find "$here/mc" -type f -print0 | sort -z | xargs -0 sha256sum
          rustc --version; } | sha256sum | cut -c1-32)
# The checker, and the checker whose library has a point at each basic block.
bin=$CARGO_TARGET_DIR/bin/mc-$hash
ibin=$CARGO_TARGET_DIR/bin/imc-$hash

# build TARGET_DIR BINARY
build() (
    export CARGO_TARGET_DIR=$1
    mkdir -p "$1" "$(dirname "$2")" || exit 1
    exec 9> "$1/lock" || exit 1
    flock 9
    [ -x "$2" ] && exit 0
    # Modification times say nothing here: the library and the checker are built anew.
    find "$1/release/.fingerprint" -maxdepth 1 \( -name 'subtile-*' -o -name 'mc-*' -o -name 'point-*' \) -exec rm -rf {} + 2>/dev/null
    cargo build --release --offline --manifest-path "$here/mc/Cargo.toml" > "$1/build.log" 2>&1 || {
        tail -40 "$1/build.log" >&2
        exit 1
    }
    # At most a few binaries are kept.
    ls -t "${2%-*}"-* 2>/dev/null | tail -n +4 | while read -r f; do rm -f "$f"; done
    cp "$1/release/mc" "$2.tmp$$" && mv "$2.tmp$$" "$2"
)
plain() { [ -x "$bin" ] || build "$CARGO_TARGET_DIR" "$bin"; }
instrumented() { [ -x "$ibin" ] || RUSTC_WRAPPER=$here/mc/instrument.sh build "$CARGO_TARGET_DIR/i" "$ibin"; }
fail() { echo "run.sh: the checker does not build" >&2; exit 2; }

case $1 in
    --build)
        instrumented &
        plain || fail
        wait $! || fail
        ;;
    replay)
        if grep -q '"harness": "X01.\(threads\|three\|blocks\)"' "$2"; then
            instrumented || fail
            exec "$ibin" replay "$2"
        fi
        plain || fail
        exec "$bin" replay "$2"
        ;;
    *)
        if [ "$1" = X01 ]; then
            instrumented &
            plain || fail
            wait $! || fail
            export MC_INSTRUMENTED=$ibin
        fi
        plain || fail
        exec "$bin" check "$1"
        ;;
esac
