"""Regenerate properties.jsonl and MANIFEST.json from one table (run by hand: python3 tools/gen.py)."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
KF = "pymc_extras/statespace/filters/"
PROPS = []
NA = []
TECH = "symbolic execution of the PyTensor graph / Python code with z3 deciding each obligation"


def P(id, title, statement, over, quant, why, files, mech, note, observe=(), na=None, technique=TECH):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None},
    })
    if na:
        NA.append({"property": id, "reason": na})
    else:
        PROPS[-1]["_note"] = note
        PROPS[-1]["_tech"] = technique


exec((HERE / "tools" / "props.py").read_text())

assert len({p["id"] for p in PROPS}) == len(PROPS)
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
checks = []
for p in PROPS:
    if "_note" in p:
        note, tech = p.pop("_note"), p.pop("_tech")
        cmd = f"/opt/venv/bin/python check.py {p['id']} --tier "
        checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": tech, "level": "model_checking", "level_note": note})
(HERE / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in PROPS))
(HERE / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path[:0] = ['/verif']; import vlib.z3shim, vlib.alg, vlib.smt\"",
    "checks": checks, "not_applicable": NA,
    "notes": "python check.py <ID> [--tier quick|thorough] [--case SUBSTRING]; VDEBUG=1 prints one line per case. No hooks in /repo.",
}, indent=1) + "\n")
print(len(PROPS), "properties,", len(checks), "checks")
