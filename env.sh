# Sourced by the runner scripts: toolchain settings, all offline.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export PYO3_PYTHON=/opt/vp/venv/bin/python PYTHONDONTWRITEBYTECODE=1
