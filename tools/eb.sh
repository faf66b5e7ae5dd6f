#!/bin/bash
# build evalsim with the eval crate's toolchain
cd "$(dirname "$0")/../evalsim" && . ./env.sh && cargo build -q --release --offline 2>&1 | grep -E "^error" -A9
