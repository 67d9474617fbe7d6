set -e
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/vt/ir RUSTC_BOOTSTRAP=1
export RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -Z ub-checks=no"
cd /verif/harness
cargo rustc --offline --lib --profile ir --features $1 --crate-type cdylib -- -C save-temps
ls -la /tmp/vt/ir/ir/deps/*.bc
