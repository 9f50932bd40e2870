# Sourced by the scripts here.  Where the checks build: a folder git ignores.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${KVMON_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR="$VERIF/.build"
export KVMON_ROOT="$VERIF"
export VERIF_SEED="${VERIF_SEED:-1}"
