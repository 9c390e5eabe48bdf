prop = "L02"
needs = "a slice whose start is given as an excluded bound"
breaks = "an excluded start bound is taken as included, so the slice has one column or row too many"
edits = [("src/array2d.rs",
"                Bound::Excluded(v) => v + 1,\n",
"                Bound::Excluded(v) => v,\n")]
demo_sh = r'''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
algebraics = { path = "$PWD" }
num-bigint = "0.4"
num-rational = "0.4"
num-integer = "0.1"
num-traits = "0.2"
[workspace]
T
[ -e Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
export RUSTFLAGS="--cfg algebraics_verif"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" && cargo build --offline -q 2> build.log || { tail -40 build.log; echo "demo does not build" >&2; exit 3; }
timeout 120 "$d/target/debug/demo"
'''
demo = r'''
use algebraics::verif::Grid;
use num_bigint::BigInt;
use std::ops::Bound::*;
fn main() {
    let v: Vec<BigInt> = (0..6).map(BigInt::from).collect();
    let g = Grid::new(2, 3, v.clone());
    let p = g.part_to_owned((Excluded(0), Unbounded), (Excluded(0), Included(2)));
    assert_eq!(p.size(), (1, 2));
    assert_eq!(p.data(), v[4..6].to_vec());
    assert_eq!(g.part_to_owned((Included(0), Excluded(1)), (Unbounded, Unbounded)).data(), v[..3].to_vec());
}
'''
