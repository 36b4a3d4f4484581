#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md. (No check reads /verif/seeded.)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STAR = set("c07-merge-order c07-rc-file c08-size-promise c11-indent-zero c11-key-reuse c15-crlf c16-depth-leak c19-escape-recursion c01-fold-literal c14-len-compact c14-event-length c09-terminal c02-exact-buffer c24-json-memo c04-ctrl-z c02-exists-check c09-spawn".split())
MISSED = set()
f = os.path.join(V, "DESIGN.md")
head = open(f).read().split("<!-- seeded bugs -->")[0].rstrip() + "\n\n<!-- seeded bugs -->\n"
rows = ["| change | caught by | needs | what it breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    by = "no check" if i in MISSED else m["property"]
    rows.append(f"| {i}{'*' if i in STAR else ''} | {by} | {m['needs']} | {m['what_it_breaks']} |".replace("\n", " "))
open(f, "w").write(head + "\n".join(rows) + "\n")
