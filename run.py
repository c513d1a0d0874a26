#!/opt/venv/bin/python
"""Runner: python run.py --property C01 [--tier quick|thorough] [--only substr]   decide one property
           python run.py --replay replays/x.json                              re-execute a counterexample on the real code
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check itself."""
import argparse
import fnmatch
import glob
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("TORCHDYNAMO_DISABLE", "1")

QUICK_WALL = 780
THOROUGH_WALL = 3000


def known_findings(prop):
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(fn):
        return out
    for line in open(fn):
        line = line.strip()
        if not line.startswith("open: "):
            continue
        head, _, what = line[6:].partition(" :: ")
        kv = dict(t.split("=", 1) for t in head.split())
        if kv.get("property") == prop:
            out.append((kv["case"], kv["label"], what))
    return out


def match(name, globs):
    return any(fnmatch.fnmatchcase(name, g) for g in globs.split("|"))


def load(prop):
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    import spflow
    assert os.path.abspath(spflow.__file__).startswith(os.path.abspath(REPO) + "/"), spflow.__file__
    return importlib.import_module("props.p" + prop[1:])


def child(case, seed, wfd, mem):
    try:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        from symtorch.harness import run_case
        r = run_case(case, seed=seed)
        blob = pickle.dumps(("ok", r.__dict__))
    except BaseException as e:  # noqa: BLE001
        blob = pickle.dumps(("err", "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])))
    with os.fdopen(wfd, "wb") as f:
        f.write(blob)
    os._exit(0)


def run_all(cases, seed, jobs, wall, known=()):
    """known: known findings; 40 s after the first violation that is not listed the remaining cases are skipped"""
    import select as sel
    t0 = time.time()
    stop = None
    pending = sorted(cases, key=lambda c: -c.weight)
    running = {}
    results = {}
    while pending or running:
        while pending and len(running) < jobs:
            if time.time() - t0 > wall - 5:
                for c in pending:
                    results[c.name] = ("budget", None)
                pending = []
                break
            c = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                child(c, seed, w, int(c.mem * 2**30))
            os.close(w)
            running[r] = [c, pid, time.time(), b""]
        if not running:
            break
        rd, _, _ = sel.select(list(running), [], [], 0.5)
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                running[fd][3] += chunk
                continue
            c, pid, ts, buf = running.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            results[c.name] = pickle.loads(buf) if buf else ("err", "worker died (memory limit?)")
            kind, r = results[c.name]
            if kind == "ok" and stop is None and any(not any(match(c.name, k[0]) and match(v["label"], k[1]) for k in known) for v in r["violations"]):
                stop = time.time() + 40
        now = time.time()
        if stop is not None and now > stop:
            for c in pending:
                results[c.name] = ("skipped", None)
            pending = []
            wall = min(wall, now - t0 - 20)
        for fd in list(running):
            c, pid, ts, buf = running[fd]
            if now - ts > c.timeout * 1.5 + 30 or now - t0 > wall + 20:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                results[c.name] = ("timeout" if stop is None else "skipped", None)
    return results


def warm():
    """pay lazy imports (decomposition tables, zoo modules) once, before forking"""
    from symtorch.harness import run_case, Case
    from props import circuits

    def fn(ctx):
        m = circuits.CFGS["mix2"].make(ctx)
        circuits.table(ctx, circuits.CFGS["mix2"], m, [{0: 0, 1: 1}])
    try:
        run_case(Case("warm", fn))
    except Exception:  # noqa: BLE001
        pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(prop)
    cases = [c for c in mod.CASES if a.tier == "thorough" or c.tier == "quick"]
    if a.only:
        cases = [c for c in cases if a.only in c.name]
    assert len({c.name for c in cases}) == len(cases), "duplicate case names"
    wall = THOROUGH_WALL if a.tier == "thorough" else QUICK_WALL
    warm()
    known = known_findings(prop)
    results = run_all(cases, seed, a.jobs, wall, known)
    seen_known, viols, inconcl, errors, spurious = [], [], [], [], []
    tot = dict(obligations=0, discharged=0, structural=0, paths=0, witness=0, validated=0, nvars=0)
    stats, fns, ops, per_case, samples = {}, set(), {}, [], []
    for c in cases:
        kind, r = results[c.name]
        if kind == "skipped":
            per_case.append({"case": c.name, "status": "skipped after a violation"})
            continue
        if kind in ("timeout", "budget"):
            inconcl.append((c.name, "*", kind))
            per_case.append({"case": c.name, "status": kind})
            continue
        if kind == "err":
            errors.append((c.name, r))
            per_case.append({"case": c.name, "status": "error"})
            continue
        for k in tot:
            tot[k] = max(tot[k], r[k]) if k == "nvars" else tot[k] + r[k]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["ops"].items():
            ops[k] = ops.get(k, 0) + v
        fns |= r["functions"]
        per_case.append({"case": c.name, "status": r["status"], "obligations": r["obligations"], "discharged": r["discharged"],
                         "paths": r["paths"], "symbolic_inputs": r["nvars"], "queries": r["stats"].get("queries", 0),
                         "solver_s": round(r["stats"].get("solver_s", 0.0), 3), "wall_s": round(r["wall"], 2)})
        for v in r["violations"]:
            m = [k for k in known if match(c.name, k[0]) and match(v["label"], k[1])]
            if m:
                seen_known.append((m[0], c.name, v["label"]))
            else:
                viols.append((c.name, v))
        kn_case = [k for k in known if match(c.name, k[0])]
        for lab, why in r["inconclusive"]:
            if any(match(lab, k[1]) for k in kn_case):
                continue
            (spurious if "did not reproduce" in why or "validation mismatch" in why else inconcl).append((c.name, lab, why))
    for k in known:
        hit = [s for s in seen_known if s[0] is k]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {k[2]} [case {hit[0][1]}, {len(hit)} obligation(s)]")
    for n, lab, why in inconcl:
        print(f"INCONCLUSIVE property={prop} case={n} label={lab}: {why}")
    for n, lab, why in spurious:
        print(f"ENGINE-MISMATCH property={prop} case={n} label={lab}: {why}")
    for n, why in errors:
        print(f"ERROR property={prop} case={n}: {why}")
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for old in glob.glob(os.path.join(HERE, "replays", f"{prop}_*.json")):
        os.remove(old)
    per_file = {}
    for n, v in viols:
        per_file.setdefault(n, []).append(v)
    for n, vs in per_file.items():
        fn = os.path.join(HERE, "replays", f"{prop}_{''.join(ch if ch.isalnum() else '_' for ch in n)}.json")
        with open(fn, "w") as f:
            json.dump({"property": prop, "case": n, "violations": vs}, f, indent=1)
        for v in vs[:3]:
            print(f"  {n}: {v['label']}: {v['detail'][:300]} ({v['how']})")
        print(f"VIOLATION property={prop} replay={fn}")
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Symbolic execution of the real SPFlow functions (torch dispatcher interposition: every tensor entry is an exact "
                           "symbolic real / finite-domain value; data-dependent branches fork), one SMT query per obligation and path deciding the "
                           "property for every value of the symbolic inputs within the listed structural bounds; counterexamples are replayed on the "
                           "unmodified code in double precision before they are reported.",
            "bounds": getattr(mod, "BOUNDS", []),
            "functions_encoded": sorted(fns), "functions_encoded_count": len(fns),
            "tensor_ops_interpreted": ops,
            "cases": len(cases), "cases_detail": per_case,
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "syntactic_identities": tot["structural"],
            "symbolic_paths": tot["paths"], "max_symbolic_inputs_in_a_case": tot["nvars"],
            "solver_queries": stats.get("queries", 0), "solver_time_s": round(stats.get("solver_s", 0.0), 3),
            "solver_stats": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in stats.items()},
            "reachability_witnesses": tot["witness"],
            "translator_validations": tot["validated"],
            "inconclusive": [list(x) for x in inconcl + spurious], "errors": [e[0] for e in errors],
            "known_findings_seen": [f"{s[1]}:{s[2]}" for s in seen_known],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {a.tier}: {len(cases)} cases, {tot['discharged']}/{tot['obligations']} obligations discharged, {tot['paths']} paths, "
          f"{stats.get('queries', 0)} solver queries ({stats.get('solver_s', 0):.1f} s), {len(fns)} functions, "
          f"{len(viols)} violations, {len(inconcl)} inconclusive, {ev['wall_s']} s")
    if a.v:
        for p in sorted(per_case, key=lambda p: -p.get("wall_s", 0))[:10]:
            print("   ", p)
    if viols:
        return 1
    if errors or spurious:
        return 2
    if len(inconcl) and sum(1 for p in per_case if p["status"] == "ok") == 0:
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "tensor arithmetic is interpreted over exact reals (IEEE rounding, overflow and underflow are outside the claim)",
    "numerical stabilisers (constants <= 1e-7 added, subtracted or used as clamp floors) are idealised to 0",
    "PyTorch kernels are trusted to compute their documented mathematical function",
    "random draws are stubbed by their documented law (multinomial/categorical/bernoulli/uniform/normal)",
]


def replay(fn):
    d = json.load(open(fn))
    mod = load(d["property"])
    from symtorch.harness import run_numeric
    from fractions import Fraction
    case = [c for c in mod.CASES if c.name == d["case"]][0]
    bad = 0
    for v in d["violations"]:
        c = run_numeric(case, {k: Fraction(x) for k, x in v["env"].items()}, v["seed"], exists=True)
        hits = [x for x in (c.viol if c else []) if x[0] == v["label"]] or (c.viol if c else [])
        print(v["label"], "->", "REPRODUCED " + hits[0][1][:400] if hits else "not reproduced")
        print("   inputs:", v["env"])
        bad += bool(hits)
    return 1 if bad else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
