#!/usr/bin/env bash
# check.sh <property> [engine arguments]: rebuilds what the check needs from /repo's working tree
# and runs it. Exit 0 held, 1 violation, 2 anything else (a build that fails, a timeout).
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$V/mc/target" MC_VERIF="$V" VERIF_TIER="${VERIF_TIER:-quick}"
unset CARGO_ENCODED_RUSTFLAGS RUSTFLAGS CARGO_BUILD_TARGET
id="$1"
case "$id" in
  C01|C02|C03|C26) bin=lex ;;
  C04|C05|C06|C25) bin=parse ;;
  C07|C08|C09|C28) bin=ser ;;
  C10|C11) bin=appc ;;
  C12|C13|C14|C27) bin=val ;;
  C15) bin=arena ;;
  C16|C17|C18|C19) bin=big ;;
  C20|C21|C22) bin=bignum ;;
  C23|C24) bin=maps ;;
  *) echo "unknown property $id"; exit 2 ;;
esac
if [ "$bin" = arena ]; then
  # the arena is private: it is reached through a hook
  export RUSTFLAGS="--cfg nanvm_verif" CARGO_TARGET_DIR="$V/mc/target/hook" MIRI_BIN=arena
fi
mkdir -p "$V/evidence/replay"
if ! cargo build --release --offline --manifest-path "$V/mc/Cargo.toml" --bin "$bin" >"$V/evidence/build-$id.log" 2>&1; then
  echo "build of $bin failed"
  tail -30 "$V/evidence/build-$id.log"
  exit 2
fi
case "$id" in C13|C14|C15|C27)
  # the same under the Miri interpreter
  if ! "$V/mc/miri.sh" miri >"$V/evidence/build-$id.log" 2>&1 </dev/null; then
    echo "build for Miri failed"
    tail -30 "$V/evidence/build-$id.log"
    exit 2
  fi
  export MIRI_CMD="$V/mc/miri.sh"
esac
if [ "$id" = C14 ]; then
  if ! cargo build --profile user --offline --manifest-path "$V/mc/Cargo.toml" --bin huge >"$V/evidence/build-$id.log" 2>&1; then
    echo "build of huge failed"
    tail -30 "$V/evidence/build-$id.log"
    exit 2
  fi
  export HUGE_BIN="$CARGO_TARGET_DIR/user/huge"
fi
if [ "$id" = C10 ]; then
  # the program itself
  if ! cargo build --release --offline --manifest-path /repo/Cargo.toml -p nanvm --target-dir "$V/mc/target/repo" >"$V/evidence/build-$id.log" 2>&1; then
    echo "build of nanvm failed"
    tail -30 "$V/evidence/build-$id.log"
    exit 2
  fi
  export NANVM_BIN="$V/mc/target/repo/release/nanvm"
fi
exec "$CARGO_TARGET_DIR/release/$bin" "${2:-check}" "$id" "${@:3}"
