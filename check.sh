#!/bin/bash
# ./check.sh ID [--replay SEED IDX]: builds the harness and the program from /repo's current tree and runs one check, or one case of it
cd "$(dirname "$0")" || exit 1
V=$(pwd)
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_BUILD_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER CARGO_INCREMENTAL
# key the build by content: file times say nothing after a checkout
key=$( (find /repo/src /repo/bin -type f -name '*.rs' -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml /repo/Cargo.lock; find harness/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum harness/Cargo.toml harness/shim.c) | sha256sum | cut -c1-16)
T=$V/target/$key
mkdir -p "$V/target"
build() {
  cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --target-dir "$T" || return 1
  gcc -shared -fPIC -O1 -o "$T/shim.so" harness/shim.c -ldl || return 1
  cargo build --offline --locked --quiet --manifest-path /repo/Cargo.toml --bin tiny-spice-rs --target-dir "$T/cli" || return 1
}
(
  flock 9
  if [ ! -f "$T/ok" ]; then
    # keep only the few newest builds
    ls -dt "$V"/target/*/ 2>/dev/null | tail -n +3 | while read -r d; do rm -rf "$d"; done
    build > "$V/target/build.log" 2>&1 && touch "$T/ok"
  fi
) 9> "$V/target/.lock"
if [ ! -f "$T/ok" ]; then
  echo "build failed:"; tail -n 30 "$V/target/build.log"
  exit 2
fi
[ "$1" = --build ] && exit 0
if [ "$2" = --replay ]; then exec "$T/release/tsmon" replay "$1" "$3" "$4" "$V" "$T/cli/debug/tiny-spice-rs" /repo; fi
exec "$T/release/tsmon" check "$1" "$V" "$T/cli/debug/tiny-spice-rs" /repo
