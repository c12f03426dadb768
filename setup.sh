#!/bin/bash
# Build the framework (extractor and harness) from the committed files, offline.
set -e
cd /verif
( cd tools/zkextract && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/tools cargo build --offline --locked --release )
bash tools/hbuild.sh
