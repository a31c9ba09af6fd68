#!/usr/bin/env python3
"""Decides one property:  check.py ID [--tier quick|thorough]."""
import argparse
import importlib
import json
import os
import shutil
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
from vlib import cppjob, pyjob  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("checks." + a.prop)
    jobs = [j for j in mod.JOBS if a.tier == "thorough" or not j.get("thorough_only")]
    if a.job:
        jobs = [j for j in jobs if a.job in j["name"]]
    work = VERIF / "build" / "work" / a.prop
    if work.exists():
        shutil.rmtree(work)
    work.mkdir(parents=True)
    rp = VERIF / "build" / "replay" / a.prop
    if rp.exists():
        shutil.rmtree(rp)
    known = [k for k in json.loads((VERIF / "known_findings.json").read_text())["findings"] if k["property"] == a.prop and k.get("status") == "known"]

    pool = ThreadPoolExecutor(8)
    bpool = ThreadPoolExecutor(8)
    objs, notes = [], []
    cpp = [j for j in jobs if j.get("kind", "cpp") == "cpp"]
    sxe = lib = None
    if cpp:
        sxe = cppjob.ensure_engine()
        lib, errs = cppjob.build_irlib(bpool)
        for s, e in errs.items():
            notes.append(f"source not encoded: {s}")
        import threading
        lock = threading.Lock()
        memo = {}

        def nat():
            with lock:
                if "n" not in memo:
                    memo["n"] = cppjob.build_natlib(bpool)
            return memo["n"]

    def run(j):
        t1 = time.time()
        if j.get("kind", "cpp") == "cpp":
            o = cppjob.CppJob(a.prop, j, work)
            o.build(lib, nat)
            res = o.execute(sxe, a.tier)
        else:
            o = pyjob.PyJob(a.prop, j, work)
            res = o.execute(a.tier)
        out = []
        for i, f in enumerate(res["failures"]):
            out.append((f,) + tuple(o.replay(f, i)))
        val, bad = o.witnesses(res)
        res["job_wall"] = time.time() - t1
        return j, res, out, val, bad

    futs = [pool.submit(run, j) for j in jobs]
    viol, knownhit, unrep, errors = [], {}, [], []
    tot = dict(paths=0, forks=0, queries=0, steps=0, solver_s=0.0, asserts=0, solver_asserts=0)
    funcs, per, incomplete, validated, wbad = set(), [], {}, 0, []
    samples = []
    for f in futs:
        try:
            j, res, out, val, bad = f.result()
        except cppjob.BuildError as e:
            errors.append(str(e))
            continue
        except Exception:
            errors.append(traceback.format_exc())
            continue
        for k in ("paths", "forks", "queries", "steps", "solver_s"):
            tot[k] += res.get(k, 0)
        tot["asserts"] += sum(v[0] for v in res["asserts"].values())
        tot["solver_asserts"] += sum(v[1] for v in res["asserts"].values())
        funcs |= set(res["functions"])
        validated += val
        wbad += bad
        for k, v in res["incomplete"].items():
            incomplete[j["name"] + ": " + k] = v
        if not res["reached"] and not res["failures"]:
            incomplete[j["name"] + ": no reachability witness"] = 1
        if len(samples) < 4:
            for n, m in list(res["reached"].items())[:1]:
                samples.append({"job": j["name"], "witness": n, "inputs": {k: str(v).split("|")[0] for k, v in list(m.items())[:14]}})
        per.append(dict(job=j["name"], bounds=j.get("bounds", ""), paths=res.get("paths"), queries=res.get("queries"),
                        solver_s=round(res.get("solver_s", 0), 2), wall_s=round(res["job_wall"], 1),
                        assertions=sum(v[0] for v in res["asserts"].values()),
                        complete=not res["incomplete"], failures=len(res["failures"])))
        for fl, rep, text, path in out:
            desc = f"{j['name']}: {fl['kind']}: {fl['msg']}"
            if not rep:
                unrep.append(desc + " @ " + fl.get("where", "")[:200] + " " + json.dumps(fl.get("model", {}))[:300])
                continue
            k = next((k for k in known if k["job"] == j["name"] and k["msg"] == fl["msg"]), None)
            if k:
                knownhit[k["id"]] = k
            else:
                viol.append((desc, path, text))
    ev = dict(property=a.prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=getattr(mod, "LEVEL", "model_checking"),
              coverage=dict(states=tot["paths"], transitions=tot["forks"] + tot["paths"], traces_validated_against_impl=validated,
                            samples=samples, functions_encoded=sorted(funcs), bounds=getattr(mod, "BOUNDS", ""), jobs=per,
                            queries_discharged=tot["queries"], solver_s=round(tot["solver_s"], 2), instructions_executed=tot["steps"],
                            assertions_checked=tot["asserts"], assertions_decided_by_solver=tot["solver_asserts"],
                            incomplete=incomplete, counterexamples_not_reproduced=unrep, witness_mismatches=wbad, build_notes=notes + errors,
                            explanation="states = symbolic paths explored; transitions = path segments between forks; "
                                        "traces_validated_against_impl = solver models of reachability witnesses run on the native build of the real code"),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=len(viol))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{a.prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{a.prop} [{a.tier}] jobs={len(per)}/{len(jobs)} paths={tot['paths']} queries={tot['queries']} asserts={tot['asserts']} "
          f"solver={tot['solver_s']:.1f}s wall={time.time() - t0:.1f}s validated={validated}")
    for k, v in incomplete.items():
        print("INCOMPLETE:", k, v)
    for u in unrep:
        print("NOT-REPRODUCED:", u)
    for w in wbad:
        print("WITNESS-MISMATCH:", w)
    for k in knownhit.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    if a.v:
        for p in per:
            print(p)
    for d, p, t in viol:
        print(f"  {d}\n    native: {t[:300]}")
        print(f"VIOLATION property={a.prop} replay={p}")
    for e in errors[:4]:
        el = [x for x in e.splitlines() if "rror" in x]
        print("ERROR:", "\n".join((el or e.splitlines())[:6]))
    if viol:
        sys.stdout.flush()
        os._exit(1)
    if errors:
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
