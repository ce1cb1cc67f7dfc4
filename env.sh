# Build environment of the checks (sourced).
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$HOME/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export TZ=UTC RUST_BACKTRACE=0
[ -f /opt/vp/v8/librusty_v8.a ] && export RUSTY_V8_ARCHIVE=/opt/vp/v8/librusty_v8.a
unset V8_FROM_SOURCE V8_FORCE_DEBUG GN_ARGS RUSTFLAGS
