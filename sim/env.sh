# Common environment for everything that builds or runs here (offline, pinned toolchain)
export HOME=/root
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export PYO3_PYTHON=/usr/bin/python3.12 PYTHONDONTWRITEBYTECODE=1
unset RUST_BACKTRACE PYTHONPATH PYTHONHOME PYTHONSTARTUP PYTHONHASHSEED
