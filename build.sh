#!/bin/bash
# build.sh [profile]: builds the model-checking harness from /repo's working tree; prints the binary's path.
# Exit 1 when neither the hooked nor the plain build works.
here="$(cd "$(dirname "$0")" && pwd)"
profile="${1:-release}"
crate="${2:-mc}"
cd "$here/$crate" || exit 1
# cargo decides by mtimes: make sure /repo's current tree is what gets compiled
build() { # dir, rustflags
    rm -rf "$1/$profile/.fingerprint"/foca-* 2>/dev/null
    RUSTFLAGS="$2" CARGO_TARGET_DIR="$1" CARGO_NET_OFFLINE=true \
        cargo build --offline --locked --profile "$profile" >"$1.$profile.log" 2>&1
}
mkdir -p "$here/target"
if build "$here/target/$crate-hook" "--cfg foca_verif"; then
    echo "$here/target/$crate-hook/$profile/$crate"
elif build "$here/target/$crate-plain" ""; then
    echo "note: hooked build failed, using the plain build" >&2
    echo "$here/target/$crate-plain/$profile/$crate"
else
    tail -50 "$here/target/$crate-plain.$profile.log" >&2
    exit 1
fi
