#!/usr/bin/env python3
"""Writes harness/h/registry.go: harness name -> function."""
import re, os, glob
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "h")
names = []
for f in sorted(glob.glob(d + "/*.go")):
    if f.endswith("registry.go"): continue
    names += re.findall(r"^func ([A-Z][0-9]{2}X?_\w+)\(\)", open(f).read(), re.M)
with open(d + "/registry.go", "w") as o:
    o.write("// Code generated by tools/genreg.py. DO NOT EDIT.\n\npackage h\n\n// Registry maps harness names to functions for native replay.\nvar Registry = map[string]func(){\n")
    for n in sorted(names): o.write('\t"%s": %s,\n' % (n, n))
    o.write("}\n")
print(len(names), "harnesses")
