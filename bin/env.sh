# Sourced by the other scripts: an offline, deterministic toolchain environment.
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true
export VERIF_SEED="${VERIF_SEED:-1}"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE

# The Python harness, with the accounting allocator under it
py() {
    MC_PY=/verif/target/capi/py PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LD_PRELOAD=/verif/target/capi/libmcalloc.so \
        exec /usr/bin/python3 -s /verif/pyapi/pyapi.py "$@"
}
