# the toolchain /repo/eval itself is built with (see /opt/vp/env.sh): adapton 0.3.19 needs a nightly
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.75.0
export RUSTC=/root/.rustup/toolchains/nightly-2023-02-10-x86_64-unknown-linux-gnu/bin/rustc
