#!/bin/bash
# Build the harness against /repo's working tree with the hooks on, twice: with the
# crate's debug assertions compiled in (zkh-dbg) and, as in a release build, without.
. /opt/vp/env.sh >/dev/null 2>&1
for v in $(env | grep -o '^CARGO_PROFILE_DEV[A-Z_]*'); do unset "$v"; done
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/verif/target/harness RUSTFLAGS="--cfg zksql_verif" CARGO_NET_OFFLINE=true
cd /verif/harness || exit 2
# cargo compares mtimes, which a restored file can defeat: always rebuild the crate itself
cargo clean --offline -p zk_sql -p zkh >/dev/null 2>&1
cargo build --offline --locked --config 'profile.dev.package.zk_sql.debug-assertions=true' "$@" || exit 1
cp /verif/target/harness/debug/zkh /verif/target/harness/zkh-dbg || exit 1
cargo clean --offline -p zk_sql -p zkh >/dev/null 2>&1
exec cargo build --offline --locked "$@"
