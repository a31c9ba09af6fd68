"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both."""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PROPS = []
SOLVER_CPP = "symbolic execution of the LLVM IR compiled from /repo's C++ on every run, assertions decided by z3 (bit-vectors, exact reals), counterexamples replayed natively"
SOLVER_PY = "symbolic execution of /repo's Python (re-executed once per path on z3-backed values), assertions decided by z3, counterexamples replayed on the real code with plain values"
NOTE_CPP = ("Every path of the encoded functions within the stated bounds is decided by the solver; doubles are treated as exact reals and algoim is replaced by the "
            "stand-in under /verif/standin; a violation is reported only after it is reproduced on a native build.")
NOTE_PY = ("Every path of the executed functions within the stated bounds is decided by the solver; modules missing from the sandbox (dolfinx, ufl, ffcx, nanobind) are replaced by "
           "stand-ins under /verif/pystub; a violation is reported only after it is reproduced with plain Python and numpy values.")


def prop(id, title, statement, over, text, why, files, mech, tech=SOLVER_CPP, note=NOTE_CPP, na=None, thorough=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na, thorough=thorough))


exec((VERIF / "tools" / "table.py").read_text())

with open(VERIF / "properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        for a in p["files"]:
            assert (Path("/repo") / a).exists(), "missing file " + a
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
man = dict(version=1, setup_cmd="make -C engine -s && mkdir -p evidence",
           checks=[], not_applicable=[dict(property=p["id"], reason=p["na"]) for p in PROPS if p["na"]])
for p in PROPS:
    if p["na"]:
        continue
    c = dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", technique=p["tech"], level="model_checking", level_note=p["note"])
    if p["thorough"]:
        c["thorough_cmd"] = f"python3 check.py {p['id']} --tier thorough"
    man["checks"].append(c)
(VERIF / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
