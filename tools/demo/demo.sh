#!/bin/bash
# cwd = the repository, built. Exit 0 if the property holds on the demonstrated case.
R=$PWD
H=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$R"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$H"/*.rs "$W/src/"
cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
@DEPS@
EOF
cd "$W"
CARGO_TARGET_DIR="$R/target/demo" timeout 280 cargo build -q --offline 2>"$W/log" || { tail -20 "$W/log"; exit 3; }
timeout 20 "$R/target/demo/debug/demo"
