#!/usr/bin/env python3
"""Behaviour-preserving edits: every check named beside one must stay quiet (exit 0, no VIOLATION).

    tools/refactor.py [NAME...]      in a copy of /repo under /tmp/refwork (removed afterwards)
"""
import os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("REFDIR", "/tmp/refwork")
DIR = os.path.join(V, "tools/refactors")

def load():
    out = []
    for f in sorted(os.listdir(DIR)):
        if f.endswith(".py"):
            g = {}
            exec(open(os.path.join(DIR, f)).read(), g)
            out.append((f[:-3], g["checks"], g["edits"]))
    return out

def main():
    names = sys.argv[1:]
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    bad = 0
    for name, checks, edits in load():
        if names and name not in names:
            continue
        r = W + "/repo"
        shutil.rmtree(r, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{name}: edit does not apply ({s.count(old)}) {f}: {old[:50]!r}")
                bad += 1
                break
            open(p, "w").write(s.replace(old, new))
        else:
            b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=r, capture_output=True, text=True,
                               env=dict(os.environ, CARGO_TARGET_DIR=W + "/target"))
            if b.returncode:
                print(f"{name}: does not compile\n{b.stderr[-1500:]}")
                bad += 1
                continue
            for c in checks.split():
                env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=W + "/build", VERIF_OUT=W + "/out", VERIF_EVIDENCE=W + "/ev")
                t = time.time()
                p = subprocess.run(["python3", V + "/check.py", c, "quick"], capture_output=True, text=True, env=env, cwd=V)
                ok = p.returncode == 0 and "VIOLATION" not in p.stdout
                und = re.findall(r"undecided.*", p.stdout)
                print(f"{name} {c}: {'quiet' if ok else 'ALARM rc=%d' % p.returncode} {time.time()-t:.0f}s {und[:2]}", flush=True)
                if not ok:
                    bad += 1
                    print(p.stdout[-1500:], p.stderr[-1500:])
    shutil.rmtree(W, ignore_errors=True)
    sys.exit(1 if bad else 0)

main()
