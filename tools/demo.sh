#!/bin/bash
# run with cwd = the repository; builds main.rs (beside this file) against it in a scratch directory
HERE=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
rm -rf /tmp/vp_seed_demo
mkdir -p /tmp/vp_seed_demo/src
cp "$HERE/main.rs" /tmp/vp_seed_demo/src/main.rs
cat > /tmp/vp_seed_demo/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
prima_undine = { path = "$R/prima_undine", features = ["derive"] }
prima_undine_contrib = { path = "$R/prima_undine_contrib" }
T
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" /tmp/vp_seed_demo/Cargo.lock
cd /tmp/vp_seed_demo || exit 3
export CARGO_TARGET_DIR=/tmp/vp_seed_demo/target CARGO_NET_OFFLINE=true
cargo build --offline >/tmp/vp_seed_demo/log 2>&1 || { tail -30 /tmp/vp_seed_demo/log; exit 3; }
timeout 60 /tmp/vp_seed_demo/target/debug/demo
rc=$?
cd /
rm -rf /tmp/vp_seed_demo
exit $rc
