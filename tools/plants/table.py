#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import os, json, re
r = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../..")
by = {}
for d in sorted(os.listdir(r + "/seeded")):
    by.setdefault(json.load(open(f"{r}/seeded/{d}/meta.json"))["property"], []).append(d)
t = "| plants | caught by |\n|---|---|\n" + "".join(f"| {', '.join(v)} | quick check of {k} |\n" for k, v in sorted(by.items()))
f = r + "/DESIGN.md"; s = open(f).read()
s = re.sub(r"\| plants \| caught by \|\n\|---\|---\|\n(\| .*\n)*", lambda m: t, s)
open(f, "w").write(s)
