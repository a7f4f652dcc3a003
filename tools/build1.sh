cd /verif/sim
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true 
T=x86_64-unknown-linux-gnu
case $1 in b16|b32) export RUSTFLAGS="--cfg force_bits=\"${1#b}\"";; i686) T=i686-unknown-linux-gnu;; n64r) R=--release;; esac
export CARGO_TARGET_DIR=/verif/.build/$1 SIM_CONFIG=$1
time cargo build $R --target $T 2>&1 | grep -E "^error|Finished" -A7
