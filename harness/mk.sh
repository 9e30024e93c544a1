#!/bin/bash
# mk.sh NAME : (re)create a harness crate's Cargo.toml, with the lock file of the tree it was made against
cd "$(dirname "$0")"; n=$1; mkdir -p $n/src
cat > $n/Cargo.toml <<T
[package]
name = "$n"
version = "0.1.0"
edition = "2024"
publish = false
[workspace]
[features]
native = ["symlib/native", "regex/perf"]
[dependencies]
symlib = { path = "../symlib" }
parse-display = { path = "/repo/parse-display" }
parse-display-with = { path = "/repo/parse-display-with" }
regex = "1"
[patch.crates-io]
regex = { path = "../../vendor/regex" }
[profile.release]
opt-level = 2
lto = "fat"
codegen-units = 1
panic = "abort"
debug = 0
[profile.replay]
inherits = "release"
lto = "off"
codegen-units = 16
panic = "unwind"
[profile.dev]
debug = 0
T
cp /repo/Cargo.lock $n/Cargo.lock
(cd $n && cargo metadata --offline --format-version 1 >/dev/null)
