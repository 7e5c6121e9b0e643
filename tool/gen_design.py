#!/usr/bin/env python3
"""assembles DESIGN.md"""
import os, re, json, ast, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tool")
import notes, design_text as D
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [D.HEAD, "## The properties\n"]
for p in P:
    i = p["id"]; f = V + "/sa/rules/%s.py" % i.lower()
    out.append("### %s %s\n" % (i, p["title"])); out.append(p["statement"] + "\n")
    if os.path.exists(f) and i in notes.TECH:
        t = ast.parse(open(f).read()); doc = ast.get_docstring(t) or ""
        lv = [ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "LEVEL"]
        ass = re.findall(r'ctx\.assumption\("((?:[^"\\]|\\.)*)"\)', open(f).read())
        out.append("*Method* (%s; level %s): %s\n" % (notes.TECH[i][0], lv[0] if lv else "other", re.sub(r"\s+", " ", doc)))
        out.append("*Covers*: %s. Tests cannot settle it: %s.\n" % (notes.TECH[i][1], p["why_tests_cant"]))
        if ass: out.append("*Assumes*: " + "; ".join(ass) + ".\n")
    else: out.append("*Not applicable*: %s\n" % notes.NA.get(i, "no check"))
out.append("## Planted changes\n\nEach compiles, passes the stable tests, and has a demonstration that fails only with the change.\n")
out.append("| change | property | what it breaks | needs | reported by |\n|---|---|---|---|---|")
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    out.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
out.append("\nBesides these, every rule was exercised with single-line mutations of the code it is about (several hundred in all, applied to a scratch clone: swapped comparisons, dropped or moved statements, wrong constants, early returns, lock taken or released elsewhere) and with "
           "behaviour-preserving rewrites (helpers extracted, loops rewritten, statements reordered, early exits turned into nesting); rules were strengthened until every mutation that breaks the property was reported and none of the rewrites was.\n")
out.append(D.LIMITS)
out.append("## Defects found in cyclone\n\nRepaired (one commit each in /repo):\n")
known = []
for l in open(V + "/known-findings.txt"):
    l = l.strip()
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: out.append("* %s `%s` %s" % m.groups()); continue
    m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", l)
    if m: known.append("* %s `%s`: %s" % m.groups())
out.append("\nRecorded, not repaired (the repair is not small):\n"); out += known
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
