#!/bin/bash
# runs main.rs against the crates of the current directory (/repo); exits non-zero when the property is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<X
[workspace]
[package]
name = "hodudemo"
version = "0.1.0"
edition = "2021"
[dependencies]
hodu_core = { path = "$repo/crates/hodu_core", features = ["openblas", "serde", "f8e5m2", "f64", "u16", "u64", "i16", "i64"] }
hodu_nn = { path = "$repo/crates/hodu_nn" }
hodu_datasets = { path = "$repo/crates/hodu_datasets" }
X
# the C kernels at -O0: at -O3 they take minutes
cat > "$t/cc" <<'X'
#!/bin/bash
a=()
for x in "$@"; do case $x in -O[1-3] | -funroll* | -ftree-vec* | -fvec* | -fslp*) ;; *) a+=("$x") ;; esac; done
exec cc "${a[@]}" -O0
X
chmod +x "$t/cc"
export CC="$t/cc" CARGO_TARGET_DIR="$t/target"
cd "$t" && cargo build --offline >"$t/log" 2>&1 || { tail -20 "$t/log"; rm -rf "$t"; exit 99; }
timeout 120 "$t/target/debug/hodudemo"
rc=$?
rm -rf "$t"
exit $rc
