#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: rebuild from /repo's working tree, then search.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: could not build or run.
"""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.isdigit():
        seed = str(sum(ord(c) << (8 * (i % 7)) for i, c in enumerate(seed)))
    out = f"{B.V}/evidence/{pid}.json"
    os.makedirs(f"{B.V}/evidence", exist_ok=True)
    os.makedirs(f"{B.V}/replays", exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    if not B.build([pid]):
        print(f"{pid}: /repo's working tree does not compile with this check", file=sys.stderr)
        return 2
    variant = B.checks()[pid]["variant"]
    cmd = [f"{B.B}/{variant}/bin/{pid}", "--property", pid, "--seed", seed, "--tier", tier, "--out", out,
           "--known", f"{B.V}/known_findings.txt", "--replays", f"{B.V}/replays",
           "--jobs", str(min(8, os.cpu_count() or 1))]
    cmd += ["--budget", "3600" if tier == "thorough" else "150"]
    cwd = tempfile.mkdtemp(prefix="vtcheck-")  # the runtime drops files where it runs
    try:
        r = subprocess.run(cmd, cwd=cwd)
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    if r.returncode in (0, 1):
        return r.returncode
    print(f"{pid}: check ended with {r.returncode}", file=sys.stderr)
    return 2

sys.exit(main())
