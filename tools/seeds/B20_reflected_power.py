prop = "Y01"
needs = "from Python, an integer raised to a RealAlgebraicNumber (the reflected operator)"
breaks = "2 ** x computes x ** 2"
edits = [("src/python.rs",
"        Self::__pow__(lhs, py, rhs, modulus)\n",
"        Self::__pow__(rhs, py, lhs, modulus)\n")]
files = {"demo.py": r'''
import sys, math
from algebraics import RealAlgebraicNumber as R
third = R(1) / 3
assert 8 ** third == 2
assert R(8) ** third == 2
assert R(3) ** 2 == 9
assert 2 ** R(3) == 8, 2 ** R(3)
assert 2 - R(3) == -1 and 1 / R(4) == R(4).recip()
'''.lstrip()}
demo_sh = r'''#!/bin/bash
# builds the Python extension from the crate in the current directory and runs demo.py with it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" PYO3_USE_ABI3_FORWARD_COMPATIBILITY=1 PYO3_PYTHON=$(command -v python3)
cargo rustc --offline -q --release --lib --features python-extension --crate-type cdylib 2> "$d/build.log" || { tail -40 "$d/build.log"; echo "demo does not build" >&2; exit 3; }
so=$(find "$d/target/release" -maxdepth 1 -name 'libalgebraics*.so' | head -1)
[ -n "$so" ] || { echo "no extension" >&2; exit 3; }
cp "$so" "$d/algebraics.so"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d" timeout 120 python3 "$here/demo.py"
'''
