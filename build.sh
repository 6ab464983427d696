#!/bin/bash
# Builds the checkers from /repo's current working tree. Usage: build.sh [seq|sched]...
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$V/build/target"
unset RUSTFLAGS
mkdir -p "$V/build" "$V/evidence" "$V/out"
exec 9>"$V/build/lock"
flock 9
python3 "$V/mc/gen.py" || exit 2
P=""
for p in "${@:-seq}"; do P="$P -p $p"; done
[ $# = 0 ] && P="-p seq -p sched"
cd "$V/mc" && cargo build --release --offline --locked -q $P >"$V/build/build.log" 2>&1
r=$?
if [ $r != 0 ]; then grep -E "^error" -A12 "$V/build/build.log" | head -60; fi
exit $r
