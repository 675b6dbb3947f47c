#!/usr/bin/env python3
"""Write DESIGN.md: doc/head.md, one section per property, planted bugs."""
import json, os, re, shlex
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *a: open(os.path.join(V, *a)).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.loads(rd("na.json"))
o = [rd("doc", "head.md").rstrip(), "", "## Per property", ""]
for p in props:
    i = p["id"]
    o += ["### %s %s" % (i, p["title"]), ""]
    d = os.path.join(V, "props", i)
    if not os.path.exists(os.path.join(d, "note.txt")):
        o += ["Not claimed: " + na.get(i, "no check built yet"), ""]
        continue
    o += [" ".join(rd("props", i, "note.txt").split()), ""]
    if p.get("why_tests_cant"):
        o += ["Beyond tests: " + (p.get("why_tests_cant")), ""]
    ass, fn = [], []
    for f in sorted(os.listdir(d)):
        if not f.endswith(".c"):
            continue
        t = rd("props", i, f)
        o.append("* `%s` - %s" % (f, t.split("\n", 1)[0].lstrip("/ ")))
        for l in t.split("\n"):
            if l.startswith("//@file"):
                m = dict(x.split("=", 1) for x in shlex.split(l[7:]) if "=" in x)
                ass += [a.strip() for a in m.get("assume", "").split(";") if a.strip()]
                fn += [a for a in m.get("funcs", "").split(",") if a]
            if l.startswith("//@obl"):
                w = shlex.split(l[6:])
                m = dict(x.split("=", 1) for x in w[1:] if "=" in x)
                o.append("  * %s %s%s%s" % (w[0], m.get("kind", "proof"),
                         ": " + (m.get("note") or m.get("bound")) if m.get("note") or m.get("bound") else "",
                         " (stand-in: %s)" % m["standin"] if m.get("standin") else ""))
    if fn:
        o += ["", "Under contract: " + ", ".join(sorted(set(fn))) + "."]
    if ass:
        o += ["", "Assumed: " + "; ".join(sorted(set(ass))) + "."]
    o.append("")
o += [rd("doc", "tail.md").rstrip(), ""] if os.path.exists(os.path.join(V, "doc", "tail.md")) else []
o += ["", "## Planted bugs", "", "Each was written from the property's text and the code, compiles and passes the tests.", ""]
caught = json.loads(rd("doc", "caught.json"))
sd = os.path.join(V, "seeded")
for b in sorted(os.listdir(sd)):
    m = json.loads(rd("seeded", b, "meta.json"))
    o.append("* %s (%s): %s Needs %s. %s" % (b, m["property"], m["what_it_breaks"], m["needs"].rstrip("."), caught.get(b, "Not run yet.")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
