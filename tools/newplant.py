#!/usr/bin/env python3
"""newplant.py ID PROP NEEDS BREAKS : stores /repo's working-tree diff as a planted bug with demo.cc from stdin, reverts /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, p, n, b = sys.argv[1:5]
d = V + "/seeded/" + i; os.makedirs(d, exist_ok=True)
diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout
assert diff.strip(), "no change in /repo"
open(d + "/patch.diff", "w").write(diff)
subprocess.run("git -C /repo checkout -- .", shell=True)
json.dump({"property": p, "needs": n, "what_it_breaks": b}, open(d + "/meta.json", "w"), indent=1)
src = sys.stdin.read()
if src.startswith("#!"):
    open(d + "/demo.sh", "w").write(src)
else:
    open(d + "/demo.cc", "w").write(src)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the behaviour is right (run in the built repository)
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O1 -mavx2 -w -Iinclude -I/usr/include/cairo "$d/demo.cc" -o "$t/demo" lib/libvirg-nexus.a -lpng -ljpeg -llapack -lcblas -lcairo -lm -lpthread || exit 3
cd "$t" && timeout 60 ./demo
''')
