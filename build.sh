#!/bin/bash
# build.sh VARIANT...  builds the driver and the named decoder servers from
# /repo's current working tree.  Builds never write into /repo.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
T=$here/target
mkdir -p "$T"
# what the servers are made of, by content (mtimes do not count)
sum() {
    { find /repo/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
      sha256sum /repo/Cargo.toml
      find "$here/server" -path "$here/server/target" -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
    } | sha256sum | cut -d' ' -f1
}
cargo_in() { # dir target args...
    local d=$1 t=$2; shift 2
    (cd "$here/$d" && CARGO_TARGET_DIR=$T/$t cargo "$@") 2>"$T/$t.log" || { cat "$T/$t.log" >&2; echo "build of $t failed" >&2; exit 2; }
}
variant() {
    local v=$1 want; want=$(sum)
    if [ "$(cat "$T/$v.stamp" 2>/dev/null)" = "$want" ] && [ -n "$(find "$T/$v" -name vserver -type f 2>/dev/null | head -1)" ]; then return; fi
    local tool=+stable-x86_64-unknown-linux-gnu args=(build --release --offline --locked)
    (
        export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false
        case $v in
            default) ;;
            scalar) args+=(--no-default-features) ;;
            sse) export RUSTFLAGS='--cfg zune_verif_no_avx2' ;;
            checked) CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true; CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true ;;
            debug|debugsse) CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true; CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true; export CARGO_PROFILE_RELEASE_OPT_LEVEL=0
                [ "$v" = debug ] || export RUSTFLAGS='--cfg zune_verif_no_avx2' ;;
            asan|asansse) tool=+nightly; export RUSTFLAGS=-Zsanitizer=address; [ "$v" = asan ] || RUSTFLAGS+=' --cfg zune_verif_no_avx2'
                args+=(--target x86_64-unknown-linux-gnu --features plain-alloc) ;;
            *) echo "unknown variant $v" >&2; exit 2 ;;
        esac
        if [ -d "$T/$v" ]; then
            (cd "$here/server" && CARGO_TARGET_DIR=$T/$v cargo $tool clean --release --offline -p zune-jpeg -p vserver >/dev/null 2>&1) || rm -rf "${T:?}/$v"
            rm -rf "$T/$v/x86_64-unknown-linux-gnu"
        fi
        cargo_in server "$v" $tool "${args[@]}"
    ) || exit 2
    echo "$want" >"$T/$v.stamp"
}
exec 9>"$T/lock"
flock 9
cargo_in driver driver +stable-x86_64-unknown-linux-gnu build --release --offline --locked
for v in "$@"; do variant "$v"; done
