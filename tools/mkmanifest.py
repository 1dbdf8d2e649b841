#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from tools/props.py and tools/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
import props, spec
with open(f"{V}/properties.jsonl", "w") as o:
    for p in props.PROPS:
        d = dict(p)
        d.pop("note", None)
        d.pop("na", None)
        o.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p["id"] in spec.PROPS:
        s = spec.PROPS[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 tools/check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 tools/check.py {p['id']} --tier thorough",
            "technique": "symbolic execution of the compiled code (LLVM IR of the real crates) with Z3, counterexamples replayed natively",
            "level": s["level"],
            "level_note": f"All values within: {s['bounds']}. Outside: {s['outside'] or 'nothing further'}. Trusts the executor and Z3 (path witnesses are replayed natively on every run) and the burn environment stubs.",
        })
    else:
        na.append({"property": p["id"], "reason": p["na"]})
m = {"version": 1, "hooks": {"guard": "cfg(burn_onnx_verif)", "enable": "RUSTFLAGS=\"--cfg burn_onnx_verif\" (tools/build.sh; only the gen harness uses it)"}, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "The harnesses drive the public API of the crates, built in a generated workspace (tools/gen_ws.py) whose sources mirror /repo; the gen harness adds --cfg burn_onnx_verif for one entry point of the code generator."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")

# DESIGN.md from design.in, the property and seed lists
import glob
kf = [json.loads(l) for l in open(f"{V}/known-findings.jsonl") if l.strip()]
how = "\n"
for p in props.PROPS:
    how += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    if p["id"] in spec.PROPS:
        s = spec.PROPS[p["id"]]
        n = sum(len(d["args"]) for d in s["entries"])
        nt = sum(len(d.get("args_thorough", d["args"])) for d in s["entries"])
        how += f"*Decided by* {p.get('note') or 'symbolic execution of the import'}; entries {', '.join(sorted({d['entry'] for d in s['entries']}))}, {n} templates quick, {nt} thorough. *Bounds:* {s['bounds']}. *Outside:* {s['outside'] or 'nothing further'}. *Why not tests:* {p['why_tests_cant']}\n\n"
    else:
        how += f"*Not applicable:* {p['na']}\n\n"
seeds = "\n| planted bug | property | needs | caught |\n|---|---|---|---|\n"
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(f))
    seeds += f"| {f.split('/')[-2]} | {d['property']} | {d['needs']} | {spec.CAUGHT.get(f.split('/')[-2], 'by the check of its property')} |\n"
fixed = "".join(f"- {d['property']} {d['id']} ({d['commit']}): {d['what']}\n" for d in kf if d["status"] == "fixed")
opn = "".join(f"- {d['property']} {d['id']}: {d['what']}{' *Not repaired:* ' + d['why'] if 'why' in d else ''}\n" for d in kf if d["status"] == "open")
t = open(f"{V}/tools/design.in").read()
for k, v in (("PROPS", how), ("FIXED", fixed), ("OPEN", opn), ("SEEDS", seeds)):
    t = t.replace(f"@@{k}@@", v)
open(f"{V}/DESIGN.md", "w").write(t)
