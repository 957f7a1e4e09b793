"""Runs the obligations of a property and reports.

usage: run.py --property C01 [--tier quick|thorough] [--only NAME] [--jobs N]
"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JXV_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

for p in (ROOT, REPO):
    if p in sys.path:
        sys.path.remove(p)
sys.path[:0] = [REPO, ROOT]
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("OMP_NUM_THREADS", "1")

_OBS = {}


def build(prop):
    if prop not in _OBS:
        import warnings

        warnings.filterwarnings("ignore")
        sys.setrecursionlimit(20000)
        import jax

        jax.config.update("jax_enable_x64", True)
        reg = importlib.import_module("contracts.registry")
        obs = reg.obligations(prop)
        names = [o.name for o in obs]
        dup = {n for n in names if names.count(n) > 1}
        assert not dup, "obligations of the same name: %s" % sorted(dup)
        _OBS[prop] = obs
    return _OBS[prop]


def listing(prop):
    out = []
    for k, o in enumerate(build(prop)):
        out.append({"name": o.name, "cost": o.cost, "kind": o.kind, "functions": o.functions})
    return out


def work(prop, k, seed, tier, opts=()):
    t0 = time.time()
    try:
        from jxv.prove import discharge

        ob = build(prop)[k]
        r = discharge(ob, seed, tier, inline=tuple(opts))
        dev = getattr(ob, "deviation", None)
        if r["status"] not in ("proved", "held") and dev is not None:
            d = discharge(dev, seed, tier)
            r["deviation"] = {"name": dev.name, "status": d["status"]}
        r["uses"] = sorted(getattr(ob, "uses", ()))
        r["private"] = getattr(ob, "private", None)
        return r
    except Exception as e:
        return {"name": "%s.#%d" % (prop, k), "status": "unproved", "functions": [], "kind": "proof",
                "reason": ["%s: %s" % (type(e).__name__, e), traceback.format_exc()[-2000:]],
                "seconds": round(time.time() - t0, 2)}


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("JXV_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    os.environ["VERIF_TIER"] = tier
    prop = a.property
    t0 = time.time()
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    # compiled kernels are shared by the workers of this run, in a folder of its own
    cache = tempfile.mkdtemp(prefix="jxv-")
    os.environ.update(JAX_COMPILATION_CACHE_DIR=cache, JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0.02",
                      JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="-1")
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED

    ctx = mp.get_context("spawn")
    ex = ProcessPoolExecutor(max_workers=max(1, a.jobs), mp_context=ctx)
    fatal = None
    recs = []
    try:
        obs = ex.submit(listing, prop).result(timeout=300)
    except Exception as e:
        fatal = "the contracts cannot be stated on the current code: %s: %s" % (type(e).__name__, str(e)[:1500])
        obs = []
    todo = [k for k, o in enumerate(obs) if not a.only or a.only in o["name"]]
    todo.sort(key=lambda k: -obs[k]["cost"])
    fut = {ex.submit(work, prop, k, seed, tier): k for k in todo}
    pending = set(fut)
    res = {}
    short, skipped = False, []
    while pending:
        done, pending = wait(pending, timeout=max(1, deadline - time.time()), return_when=FIRST_COMPLETED)
        for f in done:
            try:
                res[fut[f]] = f.result()
            except Exception as e:
                res[fut[f]] = {"name": obs[fut[f]]["name"], "status": "unproved", "functions": obs[fut[f]]["functions"],
                               "kind": obs[fut[f]]["kind"], "reason": ["worker: %s: %s" % (type(e).__name__, e)],
                               "seconds": 0}
            r = res[fut[f]]
            if tier == "quick" and not short and r["status"] == "violated" and r.get("counterexample") and not r.get(
                    "private") and not r.get("uses") and "deviation" not in r:
                # replayed on the real code: what is not finished soon is not waited for
                short = True
                deadline = min(deadline, time.time() + 60)
            if a.v:
                print("  %-8s %s %ss" % (res[fut[f]]["status"], res[fut[f]]["name"], res[fut[f]]["seconds"]), flush=True)
        if time.time() > deadline:
            for f in pending:
                k = fut[f]
                if short:
                    skipped.append(obs[k]["name"])
                    continue
                res[k] = {"name": obs[k]["name"], "status": "unproved", "functions": obs[k]["functions"],
                          "kind": obs[k]["kind"], "reason": ["no result before the end of the time allowed"], "seconds": 0}
            break
    # contracts of private functions that do not hold are not relied upon
    lost = {r["private"] for r in res.values() if r.get("private") and r["status"] not in ("proved", "held")}
    dropped = []
    if lost and time.time() < deadline - 60:
        again = [k for k, r in res.items() if set(r.get("uses", ())) & lost]
        fut = {ex.submit(work, prop, k, seed, tier, tuple(lost)): k for k in again}
        for f, k in fut.items():
            try:
                res[k] = f.result(timeout=max(1, deadline - time.time()))
            except Exception as e:
                res[k] = dict(res[k], status="unproved", reason=["%s: %s" % (type(e).__name__, e)])
        for k, r in list(res.items()):
            if r.get("private") in lost and r["status"] not in ("proved", "held"):
                dropped.append(r["name"])
                del res[k]
    recs = [res[k] for k in sorted(res)]
    workers = list(getattr(ex, "_processes", None) or {})
    ex.shutdown(wait=False, cancel_futures=True)
    status = report(prop, tier, seed, recs, fatal, dropped, time.time() - t0, skipped)
    sys.stdout.flush()
    for p in workers:
        try:
            os.kill(p, 9)
        except OSError:
            pass
    shutil.rmtree(cache, ignore_errors=True)
    os._exit(status)


TRUST = [
    "jax: tracing (make_jaxpr) yields the computation that runs; jax primitives compute the functions they are named after",
    "this framework's evaluator of jaxprs and its normaliser of real terms (jxv/engine.py, jxv/terms.py)",
    "z3 for contradictions of linear conditions",
]
ASSUME = [
    "floating-point arithmetic is treated as real arithmetic; 32-bit integer overflow is not",
    "identities are of real-valued expressions wherever both sides are defined (no division by zero, logarithm of a nonpositive number, or overflow)",
    "the parameters satisfy the preconditions stated with the contracts (positive densities, floating-point scale factors)",
    "arrays of symbolic size have at least the size stated in `dims` of the obligation",
    "CPython and the Python-level control flow of the traced functions, which tracing executes",
]


def report(prop, tier, seed, recs, fatal, dropped, wall, skipped=()):
    d = os.path.join(ROOT, "evidence")
    rd = os.path.join(d, "replays")
    os.makedirs(rd, exist_ok=True)
    known = [k for k in known_findings() if k.get("property") == prop and k.get("kind") == "finding"]
    bad, found = [], []
    for r in recs:
        if r["status"] in ("proved", "held"):
            continue
        k = next((k for k in known if k["obligation"] == r["name"]), None)
        if k is not None and r.get("deviation", {}).get("status") == "proved" or (
                k is not None and k.get("signature") and k["signature"] == r.get("signature")):
            found.append((k, r))
            continue
        bad.append(r)
    for k, r in found:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    lines = []
    if fatal:
        bad.append({"name": prop + ".contracts", "status": "unproved", "reason": [fatal], "functions": []})
    if not recs and not fatal:
        bad.append({"name": prop + ".contracts", "status": "unproved", "reason": ["no obligations"], "functions": []})
    for n, r in enumerate(bad):
        path = os.path.join(rd, "%s-%d.json" % (prop, n))
        body = {"property": prop, "obligation": r["name"], "functions": r.get("functions"), "status": r["status"],
                "verifier_output": r.get("reason"), "counterexample": r.get("counterexample"), "bounded": r.get("bounded"),
                "seed": seed, "rerun": "python -m jxv.run --property %s --only '%s' -v" % (prop, r["name"])}
        with open(path, "w") as f:
            json.dump(body, f, indent=1, default=str)
        cex = r.get("counterexample")
        print("%s: %s" % (r["name"], json.dumps(cex, default=str)[:600] if cex else str(r.get("reason"))[:600]))
        lines.append((0 if cex else 1, "VIOLATION property=%s replay=%s%s" % (
            prop, os.path.relpath(path, ROOT), "" if cex else " no-failing-input-found")))
    for _, l in sorted(lines):
        print(l)
    proofs = [r for r in recs if r["kind"] == "proof"]
    checks = [r for r in recs if r["kind"] != "proof"]
    extra = {}
    for r in recs:
        for k, v in (r.get("coverage") or {}).items():
            extra.setdefault(k, []).append(v)
    backends = {}
    for r in proofs:
        if r["status"] == "proved":
            b = (r.get("proof") or {}).get("backend", "term normaliser")
            backends[b] = backends.get(b, 0) + 1
    cov = {
        "obligations": len(proofs), "discharged": sum(r["status"] == "proved" for r in proofs),
        "checker_cmd": "/opt/venv/bin/python -m jxv.run --property %s --tier %s" % (prop, tier),
        "trusted_base": TRUST + sorted({t for r in recs for t in r.get("trusted", ())}),
        "backends": backends,
        "solver_calls": sum((r.get("proof") or {}).get("lra", 0) for r in proofs),
        "solver_time_s": round(sum(r.get("prove_s", r.get("seconds", 0)) or 0 for r in recs), 1),
        "functions_under_contract": sorted({f for r in recs for f in r.get("functions", ())}),
        "modular": sum(r.get("mode") == "modular" for r in proofs),
        "inlined": sum(r.get("mode") == "inlined" for r in proofs),
        "bounded_checks": [{"name": r["name"], "bound": r.get("bounded"), "runs": r.get("runs"), "status": r["status"]} for r in checks],
        "replays_on_concrete_inputs": sum(r.get("runs") or 0 for r in proofs),
        "known_findings": [k["what"] for k, _ in found],
        "not_run_after_a_violation": list(skipped),
        "private_contracts_not_relied_upon": dropped,
        "details": [{k: r.get(k) for k in ("name", "status", "mode", "functions", "note", "prove_s", "proof", "runs")} for r in recs],
    }
    cov.update(extra)
    level = "proof" if proofs else "other"
    if not proofs:
        cov["explanation"] = "bounded checks only"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ASSUME + sorted({t for r in recs for t in r.get("assumes", ())}),
          "wall_s": round(wall, 1), "violations": len(bad)}
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d bounded checks, %d violations, %.0f s" % (
        prop, cov["obligations"], cov["discharged"], len(checks), len(bad), wall))
    return 1 if bad else 0


if __name__ == "__main__":
    main()
