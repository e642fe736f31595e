export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/dst/target
export PYO3_PYTHON=${PYO3_PYTHON:-/opt/vp/pyenv/bin/python}
unset RUSTFLAGS RAYON_NUM_THREADS
