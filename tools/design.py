#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.txt, the properties and the evidence of the last quick runs (run all the quick checks, then: python3 tools/design.py)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(here, "tools/design.txt")).read()
titles = {j["id"]: j["title"] for j in map(json.loads, open(os.path.join(here, "properties.jsonl")))}
levels = {c["property"]: c for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]}
def section(m):
    id = m.group(1)
    out = [f"### {id}: {titles[id]}", "", m.group(2).strip(), ""]
    e = json.load(open(os.path.join(here, f"evidence/{id}.json")))
    assert e["tier"] == "quick", id
    sp = e["coverage"]["spaces"]
    assert all(s["complete"] for s in sp), id
    out += [f"Decided by: {levels[id]['technique']} (`{levels[id]['level']}`). Rule: {e['coverage']['rule']}.", ""]
    if e.get("assumptions"): out += ["Assumes: " + "; ".join(a.rstrip(".") for a in e["assumptions"]) + ".", ""]
    out += ["| space (quick) | enumerates | cases |", "|---|---|---|"]
    out += [f"| {s['name']} | {s['bound'].replace('|', chr(92) + '|')} | {s['cases']} |" for s in sp]
    return "\n".join(out) + "\n"
text = re.sub(r"@@(C\d\d)\n(.*?)\n@@\n", section, text, flags=re.S)
def seeds(_):
    out = ["| id | property | needs | what it breaks |", "|---|---|---|---|"]
    d = os.path.join(here, "seeded")
    for s in sorted(os.listdir(d)):
        j = json.load(open(f"{d}/{s}/meta.json"))
        out.append(f"| {s} | {j['property']} | {j['needs']} | {j['what_it_breaks']} |")
    return "\n".join(out) + "\n"
text = re.sub(r"@@seeds\n", seeds, text)
def fixed(_):
    return "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+)", r"\1, \2:", l.strip()) for l in open(os.path.join(here, "known-findings.txt")) if l.startswith("fixed:")) + "\n"
text = re.sub(r"@@fixed\n", fixed, text)
def mutants(_):
    import collections
    n, c, miss = collections.Counter(), collections.Counter(), []
    for l in open(os.path.join(here, "tools/mutants.txt")):
        id, prop, verdict = l.split()
        n[prop] += 1
        if verdict == "caught": c[prop] += 1
        else: miss.append(id)
    return " ".join(f"{p} {c[p]}/{n[p]}," for p in sorted(n)).rstrip(",") + f"; all: {sum(c.values())} of {sum(n.values())}." + (f" Not caught: {', '.join(miss)}." if miss else "") + "\n"
text = re.sub(r"@@mutants\n", mutants, text)
open(os.path.join(here, "DESIGN.md"), "w").write(text)
