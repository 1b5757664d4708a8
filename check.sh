#!/bin/bash
# check.sh build            build the harness (and the rav1e binary) from /repo
# check.sh ID               run the check of property ID (VERIF_TIER, VERIF_SEED)
# check.sh ID replay FILE   run one saved case again
# Exit 0: held; 1: violation; anything else: no answer.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR=$HERE
export CARGO_TARGET_DIR=$HERE/target
export CARGO_INCREMENTAL=1
export RUST_BACKTRACE=0
unset RUST_LOG RAYON_NUM_THREADS

# Cargo decides by modification times what to rebuild, which is not safe for
# a tree that was copied or patched: go by content instead.
tree_hash() {
  (cd /repo && find Cargo.toml Cargo.lock build.rs src ivf v_frame \
     -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
asm_hash() {
  (cd /repo && find src/ext src/x86 src/asm -name '*.asm' -print0 2>/dev/null |
     sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

refresh() { # target-dir
  local t=$1 h a
  mkdir -p "$t"
  h=$(tree_hash) a=$(asm_hash)
  if [ "$(cat "$t/.asm" 2>/dev/null)" != "$a" ]; then
    find "$t" -path '*/build/rav1e-*/out/asm.hash' -delete 2>/dev/null
    echo "$a" > "$t/.asm"
  fi
  if [ "$(cat "$t/.tree" 2>/dev/null)" != "$h" ]; then
    find "$t" -maxdepth 3 -type d \( -path '*/.fingerprint/rav1e-*' -o -path '*/.fingerprint/ivf-*' \) \
      -exec rm -rf {} + 2>/dev/null
    echo "$h" > "$t/.tree"
  fi
}

build() {
  refresh "$CARGO_TARGET_DIR"
  (cd "$HERE/harness" && cargo build --release --offline --locked) > "$CARGO_TARGET_DIR/build.log" 2>&1 || {
    tail -40 "$CARGO_TARGET_DIR/build.log" >&2
    rm -f "$CARGO_TARGET_DIR/.tree"
    echo "harness build failed" >&2
    return 1
  }
}

build_cli() {
  refresh "$HERE/target-cli"
  (cd "$HERE" && CARGO_TARGET_DIR=$HERE/target-cli \
    CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_OPT_LEVEL=2 \
    CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_PROFILE_RELEASE_INCREMENTAL=true \
    CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
    CARGO_PROFILE_RELEASE_DEBUG=line-tables-only \
    cargo build --release --offline --locked --manifest-path /repo/Cargo.toml --bin rav1e \
      --features unstable,serialize \
      --config 'profile.release.package."*".overflow-checks=false' \
      --config 'profile.release.package."*".debug-assertions=false' \
      --config 'profile.release.package."*".opt-level=3' \
  ) > "$HERE/target-cli/build.log" 2>&1 || {
    tail -40 "$HERE/target-cli/build.log" >&2
    rm -f "$HERE/target-cli/.tree"
    echo "rav1e build failed" >&2
    return 1
  }
}

case "$1" in
  build) build && build_cli || exit 3; exit 0 ;;
  C[0-9][0-9]) ;;
  *) echo "usage: $0 build | ID [replay FILE]" >&2; exit 3 ;;
esac

build || exit 3
if [ "$1" = C13 ]; then build_cli || exit 3; fi
export RVH_CLI=$HERE/target-cli/release/rav1e
if [ "$2" = replay ]; then
  exec "$CARGO_TARGET_DIR/release/rvh" replay "$1" "$3"
fi
exec "$CARGO_TARGET_DIR/release/rvh" run "$1" "${VERIF_TIER:-quick}" "${VERIF_SEED:-1}"
