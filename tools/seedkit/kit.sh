# sourced by demo.sh: builds `fg` (a program around the generator) from the /repo in the current directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true PATH=/root/.cargo/bin:$PATH
mkdir -p "$T/fg/src"
cp "$here/fg.rs" "$T/fg/src/main.rs"
cp "$here/fg.lock" "$T/fg/Cargo.lock"
cat > "$T/fg/Cargo.toml" <<X
[package]
name = "fg"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
flapigen = { path = "$repo/macroslib" }
X
CARGO_TARGET_DIR="$T/target" cargo build -q --offline --manifest-path "$T/fg/Cargo.toml" || exit 99
fg="$T/target/debug/fg"
