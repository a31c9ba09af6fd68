"""Python jobs: symbolic runs of pyh/*.py harnesses and replays with plain values."""
import json
import os
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/qugar-venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    e.pop("PYTHONPATH", None)
    return e


def call(spec, timeout):
    r = subprocess.run([PY, str(VERIF / "vlib" / "pyrun.py"), json.dumps(spec)], capture_output=True, text=True, timeout=timeout, env=env(), cwd=str(VERIF))
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except (IndexError, ValueError):
        raise RuntimeError("harness run failed: " + (r.stderr or r.stdout)[-1500:]) from None


class PyJob:
    def __init__(self, prop, job, work):
        self.prop, self.job = prop, job

    def spec(self, **kw):
        j = self.job
        return dict(harness=j["src"], function=j["function"], params=j.get("params", {}), stub=j.get("stub", True), **kw)

    def execute(self, tier):
        j = self.job
        t = j.get("time_t", 600) if tier == "thorough" else j.get("time_q", 90)
        return call(self.spec(mode="sym", time=t, solver_ms=j.get("solver_ms", 10000)), t + 120)

    def concrete(self, inputs, t=120):
        try:
            return call(self.spec(mode="run", inputs=inputs), t)
        except subprocess.TimeoutExpired:
            return dict(status="hang", text=f"no answer after {t} s")

    def replay(self, f, i):
        """-> (reproduced, text, path)"""
        d = VERIF / "build" / "replay" / self.prop
        d.mkdir(parents=True, exist_ok=True)
        p = d / f"{self.job['name']}-{i}.sh"
        spec = self.spec(mode="run", inputs=f["model"])
        p.write_text("#!/bin/bash\n# " + f["msg"].replace("\n", " ") + f"\ncd {VERIF} && PYTHONDONTWRITEBYTECODE=1 {PY} vlib/pyrun.py '" + json.dumps(spec).replace("'", "'\\''") + "'\n")
        p.chmod(0o755)
        r = self.concrete(f["model"], 60 if f["kind"] == "hang" else 120)
        ok = r["status"] in ("assert", "exception", "unreadable", "hang")
        return ok, r.get("text", r["status"]), str(p)

    def witnesses(self, res):
        good, bad = 0, []
        for n, m in list(res["reached"].items())[:3]:
            r = self.concrete(m)
            if r["status"] == "ok" and n in r["reached"]:
                good += 1
            elif not res["failures"]:
                bad.append(f"{self.job['name']}: witness {n}: {r.get('text', r['status'])}")
        return good, bad


sys.dont_write_bytecode = True
