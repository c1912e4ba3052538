#!/usr/bin/env python3
"""Writes DESIGN.md from spec/props.py, spec/design.py, the facet rules in harness/props and spec/catch.json."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "spec"))
import props, design
o = [open(os.path.join(V, "spec/design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props.P:
    i = p["id"]
    o += ["### %s %s" % (i, p["title"]), ""]
    m, b = design.D[i]
    o += ["- Oracle and method: " + m, "- Bounds and preconditions: " + b]
    src = glob.glob(os.path.join(V, "harness/props/%s_*" % i.lower()))
    for s in src:
        for name, w, rule in re.findall(r'^FACET\((\w+), *([\d.]+), *"((?:[^"\\]|\\.)*)"', open(s).read(), re.M):
            o.append("- facet `%s` (weight %s): %s" % (name, w, rule))
        if s.endswith(".py"):
            o.append("- facets and rules: see the docstring of `%s`" % os.path.relpath(s, V))
    o += ["- Beyond tests: " + p["why"], ""]
o += [open(os.path.join(V, "spec/design_tail.md")).read().rstrip(), "", "## False alarms met and corrected", "", design.FALSE_ALARMS.rstrip(), ""]
o += ["## Planted bugs and the checks that catch them", ""]
for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    o.append("- `%s` -> %s: %s (needs: %s); caught by the quick check of %s" % (n, m["property"], m["what_it_breaks"], m["needs"], m["property"]))
o.append("")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
