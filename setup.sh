#!/bin/bash
# builds the extractor and the oracle, offline
set -e
cd "$(dirname "$0")"
cargo build --release --offline --quiet --manifest-path tools/vx/Cargo.toml
cargo build --release --offline --quiet --manifest-path harness/Cargo.toml
# the Python package, for C20
PYO3_PYTHON=/opt/vp/venv/bin/python cargo build -p py-rspolib --offline --quiet --manifest-path /repo/Cargo.toml --target-dir harness/target/py
# what the proofs take from the standard library and other crates
harness/target/release/oracle axioms
