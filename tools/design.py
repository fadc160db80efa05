#!/usr/bin/env python3
"""design.py: refreshes the generated tables of DESIGN.md from seeded/, known_findings.json and MANIFEST.json"""
import json, os, re, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
s = open("DESIGN.md").read()


def block(name, text):
    global s
    b, e = "<!-- %s -->\n" % name, "<!-- /%s -->\n" % name
    if b not in s:
        s = s.replace(name + "_TBD\n", b + e)
    i, j = s.index(b) + len(b), s.index(e)
    s = s[:i] + text.rstrip("\n") + "\n" + s[j:]


rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
missed = set(open("tools/missed.txt").read().split()) if os.path.exists("tools/missed.txt") else set()
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/").replace("\n", " "),
                                            "missed" if n in missed else m["property"]))
block("SEEDED", "\n".join(rows))
k = json.load(open("known_findings.json"))
fx = {}
for l in k["fixed"]:
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    fx.setdefault(m.group(1), []).append("%s (%s)" % (m.group(3), m.group(2)))
block("FIXED", "\n".join("* %s: %s." % (p, "; ".join(v)) for p, v in sorted(fx.items())))
na = json.load(open("MANIFEST.json"))["not_applicable"]
block("NOTCLAIMED", "\n".join("* %s: %s" % (x["property"], x["reason"]) for x in na) or "* none: every property has a check.")
open("DESIGN.md", "w").write(s)
