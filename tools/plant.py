#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it).

plant.py make <id> <property> <file under /repo> <old> <new> <needs> <breaks>   create seeded/<id>/patch.diff and meta.json
plant.py verify <id>...          build, stable tests, demo with and without, and the property's check with the patch
plant.py check <id>...           only the property's check with the patch
"""
import json, os, subprocess, sys, time
V, R = "/verif", "/repo"
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): assert not run(f"git -C {R} status --porcelain").stdout.strip(), "dirty /repo"
def make(pid, prop, path, old, new, needs, breaks, write=True):
    clean(); f = f"{R}/{path}"; s = open(f).read(); assert s.count(old) == 1, (pid, s.count(old))
    open(f, "w").write(s.replace(old, new)); d = f"{V}/seeded/{pid}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(run(f"git -C {R} diff").stdout); run(f"git -C {R} checkout -- .")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
def demo(pid):
    import tempfile, shutil
    t = tempfile.mkdtemp(); shutil.copytree(f"{V}/seeded/{pid}", f"{t}/d", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    b = time.time(); r = run(f"timeout 300 bash {t}/d/demo.sh", cwd=R); shutil.rmtree(t); return r.returncode, round(time.time() - b), r.stdout[-300:]
def check(pid):
    prop = json.load(open(f"{V}/seeded/{pid}/meta.json"))["property"]; b = time.time()
    r = run(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py {prop}", cwd=V)
    caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    print(f"{pid}: check {prop} exit {r.returncode} {'CAUGHT' if caught else 'MISSED'} in {time.time()-b:.0f} s"); print("   ", r.stdout[-350:].replace("\n", " | "))
def apply(pid):
    clean(); r = run(f"git -C {R} apply {V}/seeded/{pid}/patch.diff"); assert r.returncode == 0, r.stdout
def undo(): run(f"git -C {R} checkout -- .")
if __name__ == "__main__":
    if sys.argv[1] == "make": make(*sys.argv[2:])
    else:
        for pid in sys.argv[2:]:
            if sys.argv[1] == "verify":
                rc, s, out = demo(pid); print(f"{pid}: clean demo {rc} in {s} s", out if rc else "")
            apply(pid)
            try:
                if sys.argv[1] == "verify":
                    r = run("bash /opt/vp/build.sh"); print(f"{pid}: build {r.returncode}", r.stdout[-1500:] if r.returncode else "")
                    run("bash /opt/vp/test.sh /tmp/plant.json"); t = json.load(open("/tmp/plant.json")); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]; print(f"{pid}: lost tests", [x for x in stable if x not in t["passed"]])
                    rc, s, out = demo(pid); print(f"{pid}: planted demo {rc} in {s} s", out)
                check(pid)
            finally: undo()
        if sys.argv[1] == "verify": run("bash /opt/vp/build.sh")
