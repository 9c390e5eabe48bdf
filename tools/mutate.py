#!/usr/bin/env python3
"""mutate.py FILE CHECKS COUNT SEED [VERIFDIR]: sample one-line mutants of /repo's FILE, keep those that compile and
pass the stable tests, and run CHECKS (comma separated, in order, stop at the first violation) on each.
Everything happens in /tmp/mut; the log goes to stdout. A development aid: no check uses it."""
import os, random, re, shutil, subprocess, sys, json, time
from pathlib import Path
f, checks, count, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
V = Path(sys.argv[5] if len(sys.argv) > 5 else "/verif")
W = Path(os.environ.get("MUTDIR", "/tmp/mut"))
W.mkdir(exist_ok=True)
repo = W / "repo"
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" < ", " > "), (r" > ", " < "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " += "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\b1i32\b", "2i32"), (r"\b1u32\b", "2u32"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bif (?!let)(.*) \{$", r"if !(\1) {"), (r"\bwhile (?!let)(.*) \{$", r"while \1 && false {"),
       (r"Ordering::Less", "Ordering::Greater"), (r"Ordering::Greater", "Ordering::Less"), (r"Ordering::Equal", "Ordering::Less"),
       (r"is_negative\(\)", "is_positive()"), (r"is_positive\(\)", "is_negative()"), (r"is_one\(\)", "is_zero()"), (r"is_zero\(\)", "is_one()"),
       (r"\bfloor\b", "ceil"), (r"\bceil\b", "floor"), (r"div_floor", "div_ceil"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"lower_bound", "upper_bound"), (r"upper_bound", "lower_bound"), (r"lower_", "upper_"), (r"upper_", "lower_"),
       (r"numer\b", "denom"), (r"denom\b", "numer"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bself\.", "rhs."), (r"\brhs\.", "self."),
       (r"<< ", ">> "), (r">> ", "<< "), (r"\.rev\(\)", ""), (r"\.abs\(\)", ""), (r"\.neg\(\)", ""), (r"-&?\b", ""), (r"break;", "continue;"), (r"\?;", ".unwrap_or_default();"),
       (r"^(\s*)(?!let|return|use|pub|fn|type|break|continue|\}|\)|assert|debug_assert|panic|unreachable)([a-z_*].*;)$", r"\1{}"),
       (r"^(\s*)return (.*);$", r"\1let _ = \2;"), (r"\.clone\(\) \* ", ".clone() + "), (r"\bmut ", "mut "), (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"\.iter\(\)", ".iter().skip(1)"),
       (r"Sign::Positive", "Sign::Negative"), (r"Sign::Negative", "Sign::Positive"), (r"add_assign", "sub_assign"), (r"floor_log2", "ceil_log2"), (r"ceil_log2", "floor_log2")]
src = (Path("/repo") / f).read_text().split("\n")
muts, test = [], False
for i, l in enumerate(src):
    if re.match(r"\s*(pub(\(crate\))? )?mod tests?\b", l):
        test = True
    s = l.strip()
    if test or not s or s.startswith(("//", "#", "use ", "assert", "debug_assert", "pub use", "impl", "where", "fn ", "pub fn", "type ", "macro_rules", "expect")):
        continue
    if re.match(r"^[A-Za-z0-9_, ]+,$", s) and re.search(r"\d{3}", s):
        continue
    code = l.split("//")[0]
    for a, b in OPS:
        for m in re.finditer(a, code):
            if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                continue
            n = code[:m.start()] + m.expand(b) + code[m.end():]
            if n != l:
                muts.append((i, n))
random.Random(seed).shuffle(muts)
print(f"{f}: {len(muts)} mutants", flush=True)
def sh(cmd, **k):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, "timeout", str(e.stdout))
if repo.exists():
    shutil.rmtree(repo)
sh(["git", "clone", "-q", "/repo", str(repo)])
shutil.copy("/repo/Cargo.lock", repo / "Cargo.lock")
(W / "scope.sh").write_text(sh(["sed", f"s#/repo/#{repo}/#g; s#SCOPE=/opt/vp/scope#SCOPE={W}/scope#", "/opt/vp/scope.sh"]).stdout)
full = "algebraic_numbers" in f or "python" in f
env = dict(os.environ, VERIF_REPO=str(repo), VERIF_BUILD=str(W / "build"), VERIF_OUT=str(W / "out"), VERIF_EVIDENCE=str(W / "evidence"))
done = nsurv = ncaught = ntests = 0
for i, n in muts:
    if done >= count:
        break
    t = list(src); t[i] = n
    (repo / f).write_text("\n".join(t))
    if full:
        r = sh(["bash", "-c", f"cd {repo} && cargo check -q --offline --target-dir {W}/chk"], timeout=300)
        if r.returncode: continue
    else:
        r = sh(["bash", "-c", f". {W}/scope.sh; prepare_scope && cd $SCOPE && timeout 100 cargo test --lib --no-fail-fast --offline -- --test-threads 8"], timeout=300)
        if "could not compile" in r.stdout: continue
        m = re.search(r"test result: .* (\d+) passed; (\d+) failed", r.stdout)
        if r.returncode == "timeout" or not m or int(m[1]) < 82 or r.returncode:
            ntests += 1
            continue
    done += 1
    verdict = "SURVIVED"
    for c in checks:
        t0 = time.time()
        r = sh(["timeout", "400", "python3", str(V / "check.py"), c, "quick"], env=env)
        if r.returncode == 1:
            w = [x.strip()[:140] for x in r.stdout.splitlines() if "PROPERTY VIOLATED" in x or "panicked" in x or "hang" in x][:1]
            verdict = f"caught {c} {w}"; break
        if r.returncode:
            verdict = f"NOVERDICT {c} rc={r.returncode} {r.stdout.strip().splitlines()[-2:]}"
            break
    if verdict == "SURVIVED": nsurv += 1
    else: ncaught += 1
    print(f"{f}:{i+1} {verdict}\n    - {src[i].strip()}\n    + {n.strip()}", flush=True)
print(f"DONE {f}: tested {done}, survived {nsurv}, caught {ncaught}, killed by tests before {ntests}", flush=True)
