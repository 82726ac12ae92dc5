# Sourced by run.sh and setup.sh ($here = this folder).
export RUSTUP_TOOLCHAIN=nightly-2025-05-17 CARGO_NET_OFFLINE=true
export VERIF_DIR=$here CARGO_TARGET_DIR=$here/target CARGO_INCREMENTAL=0
# the harness is rebuilt whenever the content of the sources changes, whatever their dates say
VERIF_SRC_HASH=$(cd /repo && find . \( -name .git -o -name target \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 cat | sha256sum | cut -c1-16)
export VERIF_SRC_HASH
