# Sourced by setup.sh and check.sh: the offline toolchain settings of the sandbox, plus the wrapper
# that instruments the crates under test.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
unset CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG
export RUSTFLAGS="-Alegacy_derive_helpers -Awarnings"
export RUSTFMT=/root/.rustup/toolchains/$RUSTUP_TOOLCHAIN/bin/rustfmt
export RUSTC_WRAPPER=/verif/tools/rustc-wrapper.sh
export DST_TARGET=x86_64-unknown-linux-gnu

# For the macro's checks: the simulated build environment, and the macro and library as the build
# of the simulator (run in /verif/dst, just done) compiled them.
expand_env() {
  gcc -O1 -shared -fPIC -w -o /verif/build/shim.so.$$ /verif/shim/shim.c -ldl && mv /verif/build/shim.so.$$ /verif/build/shim.so || return 1
  local arts
  arts=$(cargo build --offline --target $DST_TARGET $DST_FEATURES --message-format=json 2>/dev/null | grep -o '[^"]*/libbitcoin_cash\(_script_macro-[^"]*\.so\|-[^"]*\.rlib\)')
  DST_MACRO=$(echo "$arts" | grep '\.so$' | tail -1)
  DST_LIB=$(echo "$arts" | grep '\.rlib$' | tail -1)
  export DST_MACRO DST_LIB
}
