#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the harnesses and not_applicable.json."""
import json, re, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root/'properties.jsonl').read_text().splitlines() if l.strip()]
have = {}
for f in (root/'harness/overlay').rglob('*.go'):
    for m in re.finditer(r'^func (VP_([A-Z]\d+)_\w+)\(\)', f.read_text(), re.M):
        have.setdefault(m.group(2), []).append(m.group(1))
na_file = root/'tools/not_applicable.json'
na = json.loads(na_file.read_text()) if na_file.exists() else {}
notes = {}
nf = root/'tools/level_notes.json'
if nf.exists(): notes = json.loads(nf.read_text())
checks, nas = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"bash run.sh check {i} quick",
            "thorough_cmd": f"bash run.sh check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "solver-based bounded symbolic execution of the real code's SSA form (gosym engine, Z3 decides every branch and assertion), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes.get(i, "Bounded: holds for every input within the bounds each harness states (evidence coverage.bounds); environment stand-ins as listed in DESIGN.md."),
        })
    else:
        nas.append({"property": i, "reason": na.get(i, "check not built yet")})
man = {"version": 1, "setup_cmd": "bash run.sh setup",
       "hooks": {"guard": "verif", "enable": "no hooks are compiled into /repo; harnesses enter through go build overlays", "source_commits": []},
       "checks": checks, "not_applicable": nas}
(root/'MANIFEST.json').write_text(json.dumps(man, indent=1)+"\n")
print(len(checks), "checks;", len(nas), "not applicable:", [n['property'] for n in nas])
