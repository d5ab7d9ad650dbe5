#!/usr/bin/env python3
"""Writes harness/h/sjis.go: the two-byte characters of Shift-JIS (Windows code
page 932, as Python's codec has them), the oracle of L01. 0: not assigned."""
import os
leads = list(range(0x81, 0xa0)) + list(range(0xe0, 0xf0)) + [0xfa, 0xfb, 0xfc]
out = ["// Code generated by tools/gen_sjis.py. DO NOT EDIT.", "", "package h", "",
       "var sjisLeads = []byte{" + ", ".join("0x%x" % l for l in leads) + "}", "",
       "// by lead byte (in that order) and trail byte 0x40..0xfc",
       "var sjisTable = [...]uint16{"]
used = []
for l in leads:
    row = []
    for t in range(0x40, 0xfd):
        try: c = ord(bytes([l, t]).decode("cp932")) if t != 0x7f else 0
        except UnicodeDecodeError: c = 0
        row.append("%d" % c)
    out.append("\t" + ", ".join(row) + ",")
out.append("}")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "h", "sjis.go")
open(p, "w").write("\n".join(out) + "\n")
