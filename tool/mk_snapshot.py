"""Authoring-time tool (not run by any check): writes data/ucd.txt from table sources.
The result was cross-validated against independent UCD copies, see DESIGN.md."""
import re, sys, os
D = "/repo/crates/unicode-intervals/src/tables/"
out = []
vs = sorted(re.findall(r"mod (v\w+);", open(D + "mod.rs").read()), key=lambda v: [int(x) for x in v[1:].split("_")])
names = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()
full = {}
for v in vs:
    s = open(D + v + ".rs").read()
    lists = {}
    for m in re.finditer(r"(?:pub )?const (\w+): &'static \[\(u32, u32\)\] =\s*&\[(.*?)\];", s, re.S):
        lists[m.group(1)] = [(int(a), int(b)) for a, b in re.findall(r"\(\s*(\d+),\s*(\d+),?\s*\)", m.group(2))]
    m = re.search(r"BY_NAME[^=]*=\s*&\[(.*?)\];", s, re.S)
    order = [x.strip() for x in m.group(1).split(",") if x.strip()]
    out.append("V " + v[1:].replace("_", "."))
    for n, o in zip(names, order):
        out.append(n + " " + ",".join("%X-%X" % (a, b) if a != b else "%X" % a for a, b in lists[o]))
    assert len(order) == 30, (v, len(order))
open("/verif/data/ucd.txt", "w").write("\n".join(out) + "\n")
