#!/bin/bash
# builds the framework from the committed files
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
(cd extractor && cargo build --release --offline)
(cd falsifier && cargo build --offline)
(cd typed && cargo build --offline)
