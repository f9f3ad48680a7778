#!/bin/bash
# Run in the repository: exits 0 when the behaviour is right, non-zero otherwise.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "native"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
async_zip = { path = "$repo", features = ["full"] }
futures-lite = "2"
tokio = { version = "1", features = ["rt", "fs", "io-util"] }
tokio-util = { version = "0.7", features = ["compat"] }
chrono = { version = "0.4", default-features = false }
flate2 = "1"
bzip2 = "0.6"
liblzma = "0.4"
zstd = "0.14"
serde_json = "1"
T
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline --quiet
