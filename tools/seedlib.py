"""development helper: create and verify planted bugs (seeded/<id>/) in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=1200):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def make(id, prop, edits, needs, breaks, demo, check=True, tests=True, only=None):
    d = os.path.join(HERE, "seeded", id)
    w = f"/tmp/sw_{id}"
    shutil.rmtree(w, ignore_errors=True)
    sh(f"cp -a /repo {w}")
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        _, diff = sh("git diff", cwd=w)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport torch\ntorch.set_default_dtype(torch.float64)\ntorch.manual_seed(0)\n" + demo)
        open(os.path.join(d, "demo.sh"), "w").write(f'#!/bin/bash\nexec {PY} "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc0, o0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        rc1, o1 = sh(f"bash {d}/demo.sh", cwd=w)
        res = {"demo_clean": rc0, "demo_patched": rc1}
        if rc0 != 0:
            print(id, "DEMO FAILS CLEAN", o0[-600:])
        if rc1 == 0:
            print(id, "DEMO PASSES PATCHED")
        if tests and rc0 == 0 and rc1:
            t, o = sh(f"PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 {PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 2>&1 | tail -12", cwd=w)
            res["tests"] = o.strip().splitlines()[-1]
            if "failed" in res["tests"]:
                print(o[-900:])
        if check and rc0 == 0 and rc1:
            t0 = time.time()
            rc, o = sh(f"{PY} run.py --property {prop}" + (f" --only '{only}'" if only else ""), cwd=HERE, env={**os.environ, "VERIF_REPO": w})
            res["check"] = rc
            res["check_s"] = round(time.time() - t0)
            res["out"] = [l[:160] for l in o.splitlines() if l.startswith("VIOLATION")][:2] or o[-300:]
        print(id, json.dumps(res))
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)
