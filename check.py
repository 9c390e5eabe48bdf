#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current tree.

exit 0  the property holds on everything explored
exit 1  violated; prints  VIOLATION property=<id> replay=<path>
exit 2  no verdict (build failure, solver unknown, budget exhausted, non-reproducing model)
"""
import json, os, re, shutil, signal, subprocess, sys, time, fcntl
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = Path(os.environ.get("VERIF_BUILD", VERIF / "build"))
OUT = Path(os.environ.get("VERIF_OUT", VERIF / "out"))
EVID = Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)

SCOPE_DROP = re.compile(r"^\s*(pub mod (algebraic_numbers|prelude);|pub use algebraic_numbers::.*)$")


class NoVerdict(Exception):
    pass


def write_if_changed(p, text):
    p.parent.mkdir(parents=True, exist_ok=True)
    if not p.exists() or p.read_text() != text:
        p.write_text(text)


def mirror(kind):
    """a crate whose sources are symlinks to /repo/src; kind 'scope' leaves out the modules
    that the pinned build leaves out (algebraic_numbers, prelude), kind 'full' is everything,
    kind 'py' is built with the python feature against a stand-in for pyo3"""
    d = BUILD / kind / "algebraics"
    if d.exists():
        shutil.rmtree(d)
    (d / "src").mkdir(parents=True)
    for f in sorted((REPO / "src").iterdir()):
        if f.name != "lib.rs":
            (d / "src" / f.name).symlink_to(f)
    for f in ("README.md",):
        (d / f).symlink_to(REPO / f)
    lib = (REPO / "src/lib.rs").read_text()
    if kind == "scope":
        lib = "".join(l + "\n" for l in lib.split("\n") if not SCOPE_DROP.match(l))
    (d / "src/lib.rs").write_text(lib)
    toml = (REPO / "Cargo.toml").read_text()
    toml = toml.replace('crate-type = ["rlib", "cdylib"]', 'crate-type = ["rlib"]')
    (d / "Cargo.toml").write_text(toml)


HARNESS_TOML = """[package]
name = "verif-harness"
version = "0.1.0"
edition = "2021"
autobins = false

[lib]
name = "verif_harness"
path = "{verif}/harness/src/lib.rs"

{bins}
[features]
symbolic = ["symrt"]

[dependencies]
algebraics = {{ path = "../../{kind}/algebraics"{features} }}
num-bigint = "0.4"
num-rational = "0.4"
num-integer = "0.1"
num-traits = "0.2"
rand = "0.8"
{symdep}

[workspace]

{patch}
[profile.dev]
opt-level = 1
debug = 1
debug-assertions = true
overflow-checks = true
incremental = false
[profile.dev.package."*"]
opt-level = 2
debug = 0
debug-assertions = {depassert}
overflow-checks = true
[profile.dev.package.algebraics]
opt-level = 1
debug = 1
debug-assertions = true
"""


def crate(kind, sym):
    name = f"{kind}-{'sym' if sym else 'native'}"
    d = BUILD / name / "harness"
    bins = "".join(f'[[bin]]\nname = "{b.stem}"\npath = "{b}"\n\n'
                   for b in sorted((VERIF / "harness/src/bin").glob("*.rs")))
    text = HARNESS_TOML.format(
        verif=VERIF, bins=bins, kind=kind, depassert="false",
        features=', features = ["python"]' if kind == "py" else "",
        symdep=f'symrt = {{ path = "{VERIF}/engine/symrt", optional = true }}'
        if sym else 'symrt = { package = "num-traits", version = "0.2", optional = true }',
        patch="[patch.crates-io]\n"
              + (f'num-bigint = {{ path = "{VERIF}/engine/num-bigint" }}\n'
                 f'lazy_static = {{ path = "{VERIF}/engine/lazy_static" }}\n'
                 f'num-rational = {{ path = "{VERIF}/vendor/num-rational" }}\n' if sym else "")
              + (f'pyo3 = {{ path = "{VERIF}/engine/pyo3" }}\n' if kind == "py" else ""))
    if kind == "py":
        text = text.replace('rand = "0.8"\n', 'rand = "0.8"\npyo3 = { version = "0.16", features = ["num-bigint"] }\n')
    write_if_changed(d / "Cargo.toml", text)
    lock = VERIF / "harness" / ("Cargo.lock." + ("py-" if kind == "py" else "") + ("sym" if sym else "native"))
    if lock.exists() and not (d / "Cargo.lock").exists():
        shutil.copy(lock, d / "Cargo.lock")
    return d, BUILD / name / "target"


def build(kind, sym, binname, cfgs):
    d, target = crate(kind, sym)
    env = dict(ENV)
    env["RUSTFLAGS"] = " ".join(["--cap-lints allow"] + [f"--cfg {c}" for c in cfgs])
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", str(d / "Cargo.toml"),
           "--target-dir", str(target), "--bin", binname]
    if sym:
        cmd += ["--features", "symbolic"]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        raise NoVerdict(f"build of {binname} ({'symbolic' if sym else 'native'}) failed")
    return target / "debug" / binname


def doc_lines(binsrc, key):
    return [l.split(":", 1)[1].strip() for l in binsrc.read_text().splitlines()
            if l.startswith(f"//! {key}:")]


def replay(prop, binname, kind, cfgs, harness, v, tier):
    """run the model's inputs through the real code; True if the failure is confirmed"""
    d = OUT / prop
    d.mkdir(parents=True, exist_ok=True)
    inp = d / f"{harness}.inputs"
    exe = build(kind, False, binname, cfgs)
    inp.write_text("".join(f"{k}={val}\n" for k, val in v["inputs"].items()))
    hang = v["kind"] in ("hang", "fuel")
    t = 90 if hang else 200
    env = dict(ENV, VERIF_RUN_TIER=tier, RUST_BACKTRACE="0")
    try:
        p = subprocess.run([str(exe), "replay", harness, str(inp)], env=env, timeout=t,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rc, outp = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, outp = "timeout", (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    confirmed = rc == 101 or rc == "timeout" or (isinstance(rc, int) and rc < 0)
    rp = d / f"{harness}.replay.txt"
    rp.write_text(
        f"property {prop}, check '{harness}' ({binname}.rs), found by the solver\n"
        f"symbolic run: {v['kind']}: {v['message']}\n"
        f"native replay: {'CONFIRMED' if confirmed else 'not confirmed'} (exit {rc})\n"
        f"{outp[-4000:]}\n"
        f"inputs:\n" + "".join(f"  {k} = {val}\n" for k, val in v["inputs"].items())
        + f"\nto repeat: {exe} replay {harness} {inp}\n")
    return confirmed, rp, rc


KANI_TOML = """[package]
name = "verif-kani-{prop}"
version = "0.1.0"
edition = "2021"

[dependencies]
algebraics = {{ path = "../../{kind}/algebraics" }}
num-bigint = "0.4"
num-rational = "0.4"
num-integer = "0.1"
num-traits = "0.2"

[workspace]
"""


def kani(prop, kind, tier):
    """bit-precise harnesses over machine integers: every harness of harness/kani/<prop>.rs is
    decided by CBMC on the MIR of the current tree. A failed assertion counts only when its
    values make the natively compiled code fail too; everything else that is not proved
    (time limits, unwinding limits) is reported as undecided."""
    name = prop.lower()
    src = VERIF / "harness/kani" / f"{name}.rs"
    if not src.exists():
        return None
    t0 = time.time()
    d = BUILD / "kani" / name
    write_if_changed(d / "Cargo.toml", KANI_TOML.format(prop=name, kind=kind))
    if not (d / "Cargo.lock").exists() and (VERIF / "harness/Cargo.lock.native").exists():
        shutil.copy(VERIF / "harness/Cargo.lock.native", d / "Cargo.lock")
    sup = VERIF / "harness/kani/support.rs"
    write_if_changed(d / "src/lib.rs", f'#[macro_use]\n#[path = "{sup}"]\npub mod support;\n#[path = "{src}"]\npub mod p;\n')
    write_if_changed(d / "src/main.rs", f"fn main() {{\n    #[cfg(not(kani))]\n    verif_kani_{name}::support::replay_main(verif_kani_{name}::p::GROUPS)\n}}\n")
    env = dict(ENV)
    env.pop("RUSTUP_TOOLCHAIN")
    env["RUSTFLAGS"] = "--cap-lints allow"
    limit = 60 if tier == "quick" else 900
    base = ["cargo", "kani", "--lib", "--target-dir", str(d / "target"), "-Z", "unstable-options",
            "--harness-timeout", f"{limit}s"]
    total = 420 if tier == "quick" else 5 * 3600
    log = OUT / prop / "kani.log"
    log.parent.mkdir(parents=True, exist_ok=True)

    def run(args, budget):
        with open(log, "a") as f:
            f.write("\n$ " + " ".join(args) + "\n")
        try:
            p = subprocess.Popen(["timeout", "-k", "5", str(int(budget))] + args, env=env, cwd=d, text=True, start_new_session=True,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
            try:
                o = p.communicate(timeout=budget + 20)[0]
            except subprocess.TimeoutExpired as e:
                o = str(e.stdout or "")
            try:  # a solver that outlived its harness's time limit
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        except OSError as e:
            o = f"not run: {e}"
        with open(log, "a") as f:
            f.write(o)
        return o

    log.write_text("")
    out = run(base + ["-j", str(os.cpu_count() or 8), "--output-format", "terse"], total)
    res = {"tool": "kani (CBMC)", "harnesses": 0, "proved": 0, "undecided": [], "violations": [], "seconds": 0,
           "solver_s": round(sum(float(x) for x in re.findall(r"Verification Time: ([0-9.]+)s", out)), 2)}
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", out)
    if not m:
        res["undecided"].append("kani: no result: " + " ".join(out.split())[-300:])
        res["seconds"] = round(time.time() - t0, 1)
        return res
    res["proved"], res["harnesses"] = int(m[1]), int(m[3])
    failed = re.findall(r"^Verification failed for - (\S+)", out, re.M)
    at, late, cur = {}, set(), None
    for l in out.splitlines():
        t = re.match(r"Thread (\d+): ?(?:Checking harness (\S+?)\.\.\.)?", l)
        if t:
            cur = t[1]
            if t[2]:
                at[cur] = t[2]
        elif l.startswith("CBMC timed out") and cur in at:
            late.add(at[cur])
    refuted = {}
    for f in failed:
        o = ""
        if f not in late and len(refuted) < 3 and time.time() - t0 < total:
            o = run(base + ["--harness", f, "--exact", "-Z", "concrete-playback", "--concrete-playback=print",
                            "--output-format", "regular"], limit + 120)
        vecs = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S)
        if not vecs:
            res["undecided"].append(f"kani {f}: " + ("time limit" if f in late or "timed out" in o else "not proved, no values" if o else "refuted or not proved, not examined after three others"))
            continue
        refuted[f] = [" ".join(re.findall(r"\d+", v)) for v in re.findall(r"^\s*vec!\[([^\]]*)\]", vecs[1], re.M)]
    if refuted:
        nenv = dict(ENV, RUSTFLAGS="--cap-lints allow")
        p = subprocess.run(["cargo", "build", "-q", "--offline", "--bin", f"verif-kani-{name}", "--manifest-path", str(d / "Cargo.toml"),
                            "--target-dir", str(d / "native")], env=nenv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise NoVerdict("native build of the bit-precise harnesses failed: " + p.stdout[-1500:])
        for f, vals in refuted.items():
            h = f.split("::")[-1]
            inp = OUT / prop / f"kani_{h}.inputs"
            inp.write_text("\n".join(vals) + "\n")
            cmd = [str(d / "native/debug" / f"verif-kani-{name}"), h, str(inp)]
            try:
                q = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
                rc, o = q.returncode, q.stdout
            except subprocess.TimeoutExpired:
                rc, o = "timeout", ""
            if rc == 101 or rc == "timeout" or (isinstance(rc, int) and rc < 0):
                rp = OUT / prop / f"kani_{h}.replay.txt"
                rp.write_text(f"property {prop}, bit-precise check '{f}' ({name}.rs), refuted by CBMC\n"
                              f"native replay: CONFIRMED (exit {rc})\n{o[-3000:]}\nvalues (little endian bytes):\n"
                              + "\n".join(vals) + "\n\nto repeat: " + " ".join(cmd) + "\n")
                res["violations"].append((f, rp))
            else:
                res["undecided"].append(f"kani {f}: refuted, but the values do not fail natively (exit {rc})")
    res["seconds"] = round(time.time() - t0, 1)
    return res


def load_findings():
    p = VERIF / "known-findings.json"
    return json.loads(p.read_text()) if p.exists() else []


def main():
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    BUILD.mkdir(parents=True, exist_ok=True)
    prop = sys.argv[1]
    if prop == "--setup":
        for kind in ("scope", "full", "py"):
            mirror(kind)
        for src in sorted((VERIF / "harness/src/bin").glob("*.rs")):
            for sym in (True, False):
                build((doc_lines(src, "crate") or ["scope"])[0], sym, src.stem, doc_lines(src, "cfg"))
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    t0 = time.time()
    BUILD.mkdir(parents=True, exist_ok=True)
    EVID.mkdir(parents=True, exist_ok=True)
    lockf = open(BUILD / ".lock", "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        rc = decide(prop, tier, only, t0)
    except NoVerdict as e:
        print(f"NO VERDICT property={prop}: {e}")
        evidence(prop, tier, t0, [], 0, note=str(e))
        rc = 2
    sys.exit(rc)


def decide(prop, tier, only, t0):
    binname = prop.lower()
    src = VERIF / "harness/src/bin" / f"{binname}.rs"
    kind = (doc_lines(src, "crate") or ["scope"])[0]
    cfgs = doc_lines(src, "cfg")
    mirror(kind)
    exe = build(kind, True, binname, cfgs)
    built = time.time() - t0
    outd = OUT / prop
    outd.mkdir(parents=True, exist_ok=True)
    rep = outd / "report.json"
    if rep.exists():
        rep.unlink()
    deadline = 560 if tier == "quick" else 6 * 3600
    cmd = [str(exe), "--out", str(rep), "--deadline", str(deadline),
           "--timeout", "2000" if tier == "quick" else "20000",
           "--fallback", "40000" if tier == "quick" else "300000",
           "--hang", "100" if tier == "quick" else "600",
           "--workers", str(os.cpu_count() or 8)]
    if only:
        cmd += ["--only", only]
    p = subprocess.run(cmd, env=dict(ENV, VERIF_RUN_TIER=tier))
    if p.returncode or not rep.exists():
        raise NoVerdict(f"symbolic run ended with exit {p.returncode}")
    reports = json.loads(rep.read_text())
    if not reports and only != "kani":
        raise NoVerdict("no check selected")
    findings = [f for f in load_findings() if f["property"] == prop and f.get("status") == "open"]
    bad, problems, undecided = [], [], []
    for r in reports:
        line = (f"  {prop} {r['name']}: paths {r['paths']} (outside the domain {r['assumed_away']}), branches {r['branches']}, "
                f"assertions {r['checks']}, queries {r['queries']} (sat {r['sat']} unsat {r['unsat']} unknown {r['unknown']}), "
                f"solver {r['solver_s']:.1f}s, total {r['seconds']:.1f}s")
        print(line, flush=True)
        for i in r["inconclusive"][:5]:
            undecided.append(f"{r['name']}: {i}")
        if r["missing_covers"] and not r["violations"] and not r["inconclusive"]:
            problems.append(f"{r['name']}: unreached: {', '.join(r['missing_covers'])}")
        if r["checks"] == 0 and not r["violations"] and not r["inconclusive"]:
            problems.append(f"{r['name']}: no assertion was reached")
        for v in r["violations"][:3]:
            ok, rp, rc = replay(prop, binname, kind, cfgs, r["name"], v, tier)
            print(f"  {r['name']}: {v['kind']}: {v['message'][:300]}\n    inputs {v['inputs']}\n    replay exit {rc}")
            if ok:
                bad.append(rp)
                break
            problems.append(f"{r['name']}: counterexample does not reproduce natively ({v['message'][:200]})")
    k = kani(prop, kind, tier) if only is None or only == "kani" else None
    if k:
        print(f"  {prop} kani: harnesses {k['harnesses']}, proved {k['proved']}, solver {k['solver_s']}s, total {k['seconds']}s", flush=True)
        undecided += k["undecided"]
        for f, rp in k["violations"]:
            print(f"  kani {f}: refuted, confirmed natively")
            bad.append(rp)
        k["violations"] = len(k["violations"])
        k["functions_encoded"] = doc_lines(VERIF / "harness/kani" / f"{binname}.rs", "kani-encodes")
        k["outside_the_bounds"] = doc_lines(VERIF / "harness/kani" / f"{binname}.rs", "kani-outside")
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if only is None:
        evidence(prop, tier, t0, reports, len(bad), built=built, src=src,
                 note="; ".join(problems) or None, kind=kind, undecided=undecided, bits=k)
    for x in undecided[:20]:
        print("  undecided:", x)
    for x in problems[:20]:
        print("  problem:", x)
    for rp in bad[:1]:
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if problems:
        print(f"NO VERDICT property={prop}")
        return 2
    if undecided:
        # nothing explored breaks the property, but part of the bounded space was not decided
        print(f"HOLDS property={prop} on everything decided; {len(undecided)} part(s) undecided, listed in the evidence ({time.time()-t0:.0f}s)")
        return 0
    print(f"HOLDS property={prop} within bounds ({time.time()-t0:.0f}s)")
    return 0


def evidence(prop, tier, t0, reports, nviol, built=0, src=None, note=None, kind=None, undecided=(), bits=None):
    man = json.loads((VERIF / "MANIFEST.json").read_text()) if (VERIF / "MANIFEST.json").exists() else {"checks": []}
    level = next((c["level"] for c in man["checks"] if c["property"] == prop), "other")
    tot = lambda k: sum(r[k] for r in reports)
    samples = []
    cov = {
        "explanation": "Concolic symbolic execution of /repo's own functions (compiled from the current tree against a "
                       "symbolic big-integer type); every branch of every path is negated and given to z3/cvc5, so the "
                       "path set covers all values of the symbolic inputs within the stated bounds; property assertions "
                       "are branches whose negation the solver must refute.",
        "functions_encoded": doc_lines(src, "encodes") if src else [],
        "bounds": {r["name"]: {k: [v[0] if v[0] is not None else "-inf", v[1] if v[1] is not None else "+inf"]
                               for k, v in r["inputs"].items()} for r in reports},
        "outside_the_bounds": doc_lines(src, "outside") if src else [],
        "harnesses": [{k: r[k] for k in ("name", "paths", "assumed_away", "branches", "check_branches", "checks", "folded_checks",
                                         "concretizations", "queries", "sat", "unsat", "unknown", "fallbacks", "solver_s",
                                         "max_query_s", "obligations", "obligations_unsat", "obligations_unknown",
                                         "longest_path", "covers", "notes", "inconclusive")} for r in reports],
        "evaluations": tot("paths"), "paths": tot("paths"), "assertions": tot("checks"),
        "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
        "solver_s": round(tot("solver_s"), 3), "build_s": round(built, 1),
        "normal_form_obligations": {"asked": tot("obligations"), "unsat": tot("obligations_unsat"), "unknown": tot("obligations_unknown")},
        "crate": kind or "none",
    }
    if bits:
        cov["bit_precise"] = bits
        cov["evaluations"] += bits["harnesses"]
    if undecided:
        cov["undecided"] = list(undecided)
    if note:
        cov["no_verdict_because"] = note
    ev = {"property": prop, "tier": "thorough" if tier == "thorough" else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 3), "violations": nviol}
    (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")


main()
