# Sourced by check.sh, setup.sh and replay.sh.
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
VZ_TARGET="${VZ_TARGET:-$VERIF_ROOT/target}"
NATIVE_BIN="$VZ_TARGET/native/release/vzcheck"
ASAN_BIN="$VZ_TARGET/asan/x86_64-unknown-linux-gnu/release/vzcheck"
TLS_BIN="$VZ_TARGET/tls/release/vzcheck"
mkdir -p "$VZ_TARGET"

# Cargo trusts modification times; a tree whose files went back in time must still be rebuilt.
tree_hash() {
  (cd /repo && find src Cargo.toml vinezombie_macros -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; pwd) | sha256sum | cut -d' ' -f1
}
fresh() { # fresh <build name>
  local h; h="$(tree_hash)"
  local f="$VZ_TARGET/$1.hash"
  if [ "$(cat "$f" 2>/dev/null)" != "$h" ]; then
    rm -f "$f"
    find "$VZ_TARGET/$1" -type d -path '*.fingerprint/vinezombie*' -prune -exec rm -rf {} + 2>/dev/null
  fi
  PENDING_HASH="$h"
}
built() { echo "$PENDING_HASH" > "$VZ_TARGET/$1.hash"; }
quietly() {
  local log="$VZ_TARGET/build.log"
  if ! "$@" >"$log" 2>&1; then
    echo "check error: build failed: $*" >&2
    tail -n 60 "$log" >&2
    return 1
  fi
}
build_native() {
  fresh native
  (cd harness && CARGO_TARGET_DIR="$VZ_TARGET/native" quietly cargo build --release --offline --locked) || return 1
  built native
}
build_tls() {
  fresh tls
  (cd harness && CARGO_TARGET_DIR="$VZ_TARGET/tls" quietly cargo build --release --offline --locked --features tls) || return 1
  built tls
}
build_asan() {
  fresh asan
  (cd harness && CARGO_TARGET_DIR="$VZ_TARGET/asan" RUSTFLAGS="-Zsanitizer=address -Cdebug-assertions=on" \
    quietly cargo +nightly build --release --offline --locked --target x86_64-unknown-linux-gnu) || return 1
  built asan
}
build_miri() {
  fresh miri
  (cd harness && CARGO_TARGET_DIR="$VZ_TARGET/miri" \
    quietly cargo +nightly miri run --offline --locked -q -- list) || return 1
  built miri
}
# The build that C26 is decided with has the library's TLS features, the others do not.
build_for() { # build_for <property>: sets BIN
  case "$1" in
    C26) build_tls || return 1; BIN="$TLS_BIN" ;;
    *) build_native || return 1; BIN="$NATIVE_BIN" ;;
  esac
}
needs_asan() { case "$1" in C09 | C17) return 0 ;; *) return 1 ;; esac; }
needs_miri() { case "$1" in C09 | C17) return 0 ;; *) return 1 ;; esac; }
