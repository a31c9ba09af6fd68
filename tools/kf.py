#!/usr/bin/env python3
"""kf.py PROP COMMIT TEXT: records a repaired defect"""
import json
import pathlib
import sys
p = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(p.read_text())
L = d if isinstance(d, list) else next(v for v in d.values() if isinstance(v, list))
L.append({"property": sys.argv[1], "status": "fixed", "text": f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})
p.write_text(json.dumps(d, indent=1, ensure_ascii=False) + "\n")
