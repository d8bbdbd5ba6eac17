#!/bin/bash
# builds main.rs beside this file against the sources in the current directory (the repository)
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -r "$W"' EXIT
mkdir $W/src; sed "s#@REPO@#$R#g" $D/main.rs.in > $W/src/main.rs; cp $D/Cargo.lock.in $W/Cargo.lock
cat > $W/Cargo.toml <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
num-bigint-dig = "0.7"
serde = { version = "1", features = ["derive"] }
bincode = "1.3"
subtle = { version = "2.4", default-features = false }
rand_core = { version = "0.6", default-features = false }
zeroize = { version = "1", default-features = false, features = ["alloc"] }
num-traits = "0.2"
hex-literal = "0.3"
itertools = "0.9"
byteorder = "1.4"
ff = "0.12"
group = "0.12"
k256 = { version = "0.11", default-features = false, features = ["arithmetic", "std"] }
T
cd $W
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=$W/t RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cargo build --offline -q || { echo "demo does not build"; exit 0; }
./t/debug/demo
