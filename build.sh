#!/bin/bash
# usage: build.sh [mc|single|tools]...   builds from /repo's current working tree into target/bin
# A fingerprint of all sources (contents, not time stamps) decides what has to be rebuilt.
set -u
DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$DIR/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$DIR/target/bin" "$DIR/out"
exec 9>"$DIR/target/.verif-lock"
flock 9

hash_of() { # files and directories
    find "$@" -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1
}
repo_hash=$(hash_of "$REPO/src" "$REPO/Cargo.toml" "$REPO/build.rs")
touched=no

build() { # name, crate directory, cargo arguments..., -- binaries
    local name="$1" crate="$2"; shift 2
    local args=() bins=()
    while [ $# -gt 0 ] && [ "$1" != -- ]; do args+=("$1"); shift; done
    shift; bins=("$@")
    local h="$repo_hash $(hash_of "$DIR/$crate" "$DIR/shims" "$DIR/stubs") ${args[*]-}"
    if [ "$(cat "$DIR/target/bin/$name.stamp" 2>/dev/null)" == "$h" ]; then return 0; fi
    if [ "$touched" == no ]; then
        # never trust time stamps
        if [ "$(cat "$DIR/target/repo.stamp" 2>/dev/null)" != "$repo_hash" ]; then
            find "$DIR/target/debug/.fingerprint" -maxdepth 1 \( -name 'cres-*' -o -name 'mc-*' \) -print0 2>/dev/null | xargs -0 -r rm -r --
            echo "$repo_hash" >"$DIR/target/repo.stamp"
        fi
        touched=yes
    fi
    rm -f -- "$DIR/target/bin/$name.stamp"
    if ! (cd "$DIR/$crate" && cargo build --offline "${args[@]}") >"$DIR/out/build-$name.log" 2>&1; then
        grep -E '^error' -A12 "$DIR/out/build-$name.log" | head -60
        echo "build of $name failed, see $DIR/out/build-$name.log" >&2
        return 1
    fi
    local b
    for b in "${bins[@]}"; do
        cp -f -- "$DIR/target/debug/${b%%=*}" "$DIR/target/bin/${b##*=}.new" && mv -f -- "$DIR/target/bin/${b##*=}.new" "$DIR/target/bin/${b##*=}" || return 1
    done
    echo "$h" >"$DIR/target/bin/$name.stamp"
}

[ $# -gt 0 ] || set -- mc single tools
for t in "$@"; do
    case "$t" in
    mc) build mc harness -- mc=mc || exit 3 ;;
    single) build single harness --no-default-features -- mc=mc-single || exit 3 ;;
    tools)
        cc -O1 -shared -fPIC -o "$DIR/target/bin/fault.so.new" "$DIR/shims/fault/fault.c" && mv -f -- "$DIR/target/bin/fault.so.new" "$DIR/target/bin/fault.so" || exit 3
        build tools cli -- cres=cres cres-partition=cres-partition cres-classify-events=cres-classify-events libref=libref || exit 3 ;;
    *) echo "unknown target $t" >&2; exit 3 ;;
    esac
done
