"""DESIGN.md from tools/DESIGN.in.md, the property list, the last evidence and seeded/*/meta.json.
   python3 tools/design.py"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import spec


def names(fs, n=14):
    r = []
    for f in fs:
        f = f.split(":")[-1]
        if f not in r:
            r.append(f)
    return ", ".join(f"`{f}`" for f in r[:n]) + (f" and {len(r) - n} more" if len(r) > n else "")


out = []
for p in spec.PROPS:
    r = p["rec"]
    out.append(f"### {r['id']} {r['title']}\n")
    try:
        ev = json.load(open(f"{HERE}/evidence/{r['id']}.json"))
    except FileNotFoundError:
        ev = None
    out.append(f"Decided by: {p['note']}.\n")
    if ev:
        c = ev["coverage"]
        fs = [f for k in c["contracts"] if not k.get("bounded") for f in ([k["functions"]] if isinstance(k["functions"], str) else k["functions"])]
        out.append(f"Unbounded: {c['discharged']} of {c['obligations']} obligations discharged, on {names(fs)}.\n")
        b = {}
        for k in c["contracts"]:
            if k.get("bounded"):
                b.setdefault(str(k["bounded"]), []).extend([k["functions"]] if isinstance(k["functions"], str) else k["functions"])
        for note, fs in b.items():
            out.append(f"Bounded ({note}): {names(fs)}.\n")
        rt = c.get("bounded_runtime_contracts") or []
        if rt:
            out.append("Run-time contracts (bounded, quick tier): " + "; ".join(f"{k['name']} ({k['evaluations']})" for k in rt) + ".\n")
        if ev.get("assumptions"):
            out.append("Assumed: " + "; ".join(ev["assumptions"]) + ".\n")
        out.append(f"Cost: {ev['wall_s']:.0f} s quick.\n")

seeds = ["| planted bug | what it breaks | needs | caught |", "|---|---|---|---|"]
caught = json.load(open(f"{HERE}/tools/caught.json"))
for d in sorted(glob.glob(f"{HERE}/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    seeds.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '?')} |")
fixed, known = [], []
for ln in open(f"{HERE}/known_findings.jsonl"):
    ln = ln.strip()
    if ln.startswith("fixed:"):
        _, prop, com, *rest = ln.split(" ")
        fixed.append(f"- {prop.split('=')[1]} `{com}` {' '.join(rest).replace('before the fix this did not hold: ', 'did not hold: ')}")
    elif ln:
        k = json.loads(ln)
        known.append(f"- {k.get('property')}: {k.get('what') or k.get('description') or json.dumps(k)}")
t = open(f"{HERE}/tools/DESIGN.in.md").read()
for k, v in (("PROPS", "\n".join(out)), ("SEEDS", "\n".join(seeds)), ("FIXED", "\n".join(fixed)), ("KNOWN", "\n".join(known))):
    t = t.replace(f"@@{k}@@", v)
open(f"{HERE}/DESIGN.md", "w").write(t)
