#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the property of each repair commit."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = """89fe3cb C04|082eed0 C04|5135ece C22|544061d C20|1d389b3 C06|b59fdbd C06|1966b81 C05|be6cfcc C07|4abb433 C07|75eafa9 C07|f0c46a7 C07|11ea2e7 C24|c9f393d C08|7af5fa4 C09|3b52b75 C10|994ee76 C12|8e857f0 C12|a1f19fa C14|be33358 C14|408d362 C14|71bdb18 C14|1b27108 C16|9c78ead C15|502c25a C15|0aec179 C15|1a2dd63 C15|a9230b3 C15|321479a C16|b05c311 C22|2d790fc C17|f9f61d1 C23|7420187 C18|3b40076 C19|cd536a3 C20|394878e C20|f04bec3 C20|a99d64a C21|3898d22 C21|3d2c018 C21|0388299 C01|2d18c97 C02|c86281d C01|a6b8f58 C01|e6b6f64 C01|1b96dce C01|9fdcbf3 C01|d9b5307 C25|8cdf5b1 C02|7377996 C02|2cbbab2 C01|81f60fd C25|5e80d49 C02|db01292 C01|3cf784e C01|fc681ad C01|0637c0e C01|00a955f C02|d0efb8b C01|b5d70cd C02|154260a C24|12bbbdd C01|a003f9f C02|0484640 C26|493f266 C26|74c1089 C26|8dfd4fc C26|ca92770 C26"""
m = dict(x.split() for x in M.split("|"))
extra = os.path.join(ROOT, "tools", "fixed_extra.txt")
if os.path.exists(extra):
    for l in open(extra):
        if l.strip(): a, b = l.split()[:2]; m[a] = b
out = []
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "7f2182a..HEAD"], text=True).splitlines()):
    h, t = l.split(" ", 1)
    if t.startswith("fix: "):
        if h not in m: print("no property for", l); continue
        out.append("fixed: property=%s %s %s" % (m[h], h, t[5:]))
k = json.load(open(os.path.join(ROOT, "known_findings.json"))); k["fixed"] = out
s = json.dumps(k, indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "known_findings.json"), "w").write(s + "\n"); print(len(out), "fixed")
