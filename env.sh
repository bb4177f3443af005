# Build environment: same toolchain, profile and target directory as the repository's own build, so
# that already compiled third-party dependencies are reused. /repo/target is ignored by git there.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
export CARGO_TARGET_DIR=${MC_TARGET_DIR:-/repo/target}
export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1
export SIDERUST_JPL_STUB=${SIDERUST_JPL_STUB:-all}
export CARGO_NET_OFFLINE=true
