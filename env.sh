# Sourced by setup.sh and check.sh: how the real sources of /repo are compiled into the explorer.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${SYMCHECK_REPO:-/repo}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${SYMCHECK_TARGET:-$VERIF/target}"
export RUSTFLAGS="--cfg symbolic_rust_verif"
export SYMCHECK_SRC="$REPO/src"
# Inner attributes and inner doc comments cannot stand in an included file: leave them out of a copy.
if grep -qE '^[[:space:]]*(#!\[|//!|/\*!)' "$REPO/src/main.rs"; then
    SYMCHECK_SRC="$CARGO_TARGET_DIR/src-copy"
    mkdir -p "$CARGO_TARGET_DIR"
    rm -rf "$SYMCHECK_SRC"
    cp -a "$REPO/src" "$SYMCHECK_SRC"
    perl -0pi -e 's{^[ \t]*//!.*$}{}mg; s{^\s*/\*!.*?\*/}{}msg; s{#!(\[(?:[^\[\]"]|"(?:[^"\\]|\\.)*"|(?1))*\])}{}g' "$SYMCHECK_SRC/main.rs"
    rm -f "$SYMCHECK_SRC/main.rs.bak"
fi
# The content of every source file decides whether the explorer is rebuilt, not timestamps.
SYMCHECK_STAMP="$(cd "$REPO/src" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)"
export SYMCHECK_STAMP
unset CARGO_BUILD_RUSTC_WRAPPER RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS

build() { # build <profile> [property]
    ( cd "$VERIF/harness" && cargo build --offline --quiet --profile "$1" ) >&2 && return 0
    case "${2:-}" in
    C0?|C10|C11|C12|C13|C14) # these take no limits: do without the hook, should only that be broken
        export RUSTFLAGS="--cfg symbolic_rust_no_hook"
        ( cd "$VERIF/harness" && cargo build --offline --quiet --profile "$1" ) >&2 ;;
    *) return 1 ;;
    esac
}
