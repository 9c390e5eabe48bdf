#!/usr/bin/env python3
"""seed.py [ID...] [--check]: (re)write /verif/seeded/<ID> from tools/seeds/<ID>.py and confirm each
planted bug in a scratch copy: it compiles, the stable tests pass, the demo passes without and fails
with it. --check also runs the property's check against the scratch copy."""
import json, os, re, shutil, subprocess, sys, runpy
from pathlib import Path
V = Path(__file__).resolve().parent.parent
W = Path("/tmp/seedwork")
stable = json.load(open("/opt/vp/BASELINE.json"))
DEMO_SH = '''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
algebraics = { path = "$PWD" }
num-bigint = "0.4"
num-rational = "0.4"
num-integer = "0.1"
num-traits = "0.2"
[workspace]
T
[ -e Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" && cargo build --offline -q 2> build.log || { tail -40 build.log; echo "demo does not build" >&2; exit 3; }
timeout 120 "$d/target/debug/demo"
'''
def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    specs = sorted((V / "tools/seeds").glob("*.py"))
    W.mkdir(exist_ok=True)
    repo = W / "repo"
    scope = sh(["sed", f"s#/repo/#{repo}/#g; s#SCOPE=/opt/vp/scope#SCOPE={W}/scope#", "/opt/vp/scope.sh"]).stdout
    (W / "scope.sh").write_text(scope)
    results = {}
    for sp in specs:
        sid = sp.stem
        if args and sid not in args:
            continue
        g = runpy.run_path(str(sp))
        out = V / "seeded" / sid
        if repo.exists():
            shutil.rmtree(repo)
        sh(["git", "clone", "-q", "/repo", str(repo)])
        shutil.copy("/repo/Cargo.lock", repo / "Cargo.lock")
        for f, old, new in g["edits"]:
            t = (repo / f).read_text()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            (repo / f).write_text(t.replace(old, new))
        diff = sh(["git", "diff"], cwd=repo).stdout
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(g.get("demo_sh", DEMO_SH))
        os.chmod(out / "demo.sh", 0o755)
        files = g.get("files") or {"main.rs": g["demo"].lstrip()}
        for name, text in files.items():
            (out / name).write_text(text)
        (out / "meta.json").write_text(json.dumps({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, indent=1) + "\n")
        t = sh(["bash", "-c", f". {W}/scope.sh; prepare_scope && cd $SCOPE && cargo test --lib --no-fail-fast --offline -- --test-threads 8"])
        passed = set(re.findall(r"^test (\S+)(?: - should panic)? \.\.\. ok", t.stdout, re.M))
        want = {x.split("::", 1)[1] if False else x for x in stable.get("passing", stable.get("tests", stable.get("stable", [])))}
        missing = [x for x in want if not any(x.endswith(p) for p in passed)]
        sh(["git", "stash", "-q"], cwd=repo)
        d0 = sh(["bash", str(out / "demo.sh")], cwd=repo)
        sh(["git", "stash", "pop", "-q"], cwd=repo)
        d1 = sh(["bash", str(out / "demo.sh")], cwd=repo)
        msg = f"{sid} [{g['prop']}]: tests passed {len(passed)} missing {len(missing)} {missing[:3]}; demo base {d0.returncode} patched {d1.returncode}"
        if d0.returncode: msg += "\n" + d0.stdout[-1500:]
        if d1.returncode == 3: msg += "\n" + d1.stdout[-1500:]
        if not passed: msg += t.stdout[-1500:]
        if "--check" in sys.argv:
            env = dict(os.environ, VERIF_REPO=str(repo), VERIF_BUILD=str(W / "build"), VERIF_OUT=str(W / "out"), VERIF_EVIDENCE=str(W / "evidence"))
            c = sh(["python3", str(V / "check.py"), g["prop"], "quick"], env=env)
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l and "property=" in l] + c.stdout.splitlines()[-1:]
            msg += f"; CHECK exit {c.returncode} {v[0]}"
            results[sid] = c.returncode
        print(msg, flush=True)
    bad = [k for k, v in results.items() if v != 1]
    print("not caught:", bad)
main()
