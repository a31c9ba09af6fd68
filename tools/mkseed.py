"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS [SRCS] < demo: writes seeded/ID from a replacement in /repo's FILE."""
import json, os, shutil, subprocess, sys
from pathlib import Path
def seed(id, prop, edits, needs, breaks, demo, srcs=None, lang="cpp"):
    R = os.environ.get("SEEDREPO", "/repo"); V = Path("/verif"); d = V/"seeded"/id
    if d.exists(): shutil.rmtree(d)
    d.mkdir(parents=True)
    assert not subprocess.run(["git","-C",R,"status","--porcelain"],capture_output=True,text=True).stdout
    try:
        for f, old, new in edits:
            p = Path(R)/f; s = p.read_text(); assert s.count(old) == 1, (f, s.count(old)); p.write_text(s.replace(old,new))
        (d/"patch.diff").write_text(subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout)
    finally:
        subprocess.run(["git","-C",R,"checkout","--","."],capture_output=True)
    (d/"meta.json").write_text(json.dumps(dict(property=prop,needs=needs,what_it_breaks=breaks),indent=1))
    if lang == "cpp":
        (d/"demo.cpp").write_text(demo)
        (d/"demo.sh").write_text((V/"tools/cppdemo.sh").read_text().replace("@SRCS@"," ".join(srcs)))
        shutil.copytree(V/"standin"/"algoim", d/"inc"/"algoim")
    elif lang == "py":
        (d/"demo.py").write_text(demo)
        shutil.copy(V/"tools"/"pystubs.py", d/"pystubs.py")
        (d/"demo.sh").write_text('#!/bin/bash\n. /opt/vp/env.sh\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 "$PY" "$here/demo.py"\n')
    else:
        (d/"demo.sh").write_text(demo)
