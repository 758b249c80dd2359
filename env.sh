# Shared by check.sh, replay.sh and setup.sh.
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER CARGO_INCREMENTAL
export CARGO_NET_OFFLINE=true
package_of() {
  case "$1" in
    C0[1-7]) echo fraos-sim ;;
    C1[0-9]) echo ilm-sim ;;
    C2[0-9]) echo multiverse-sim ;;
    C3[0-9]) echo source-sim ;;
    C4[0-9]) echo utxo-sim ;;
    *) return 1 ;;
  esac
}
workspace() { case "$1" in source-sim) echo simsrc ;; utxo-sim) echo simutxo ;; *) echo sim ;; esac; }
build() { # cargo must be started inside the workspace, for its .cargo/config.toml
  if [ "$1" = utxo-sim ]; then python3 "$VERIF_DIR/simutxo/mirror.py" >&2 || return 1; fi
  (cd "$VERIF_DIR/$(workspace "$1")" && cargo build -q --offline -p "$1") >&2 || { echo "build of $1 failed" >&2; return 1; }
}
binary() { echo "$VERIF_DIR/$(workspace "$1")/target/debug/$1"; }
