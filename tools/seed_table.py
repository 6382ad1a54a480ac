"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {   # missed at first: what was added to the check
    "swift-root-exponent": "fractional exponents",
    "dtrees-string-width": "string widths which differ between files",
    "fortran-cache-prefix": "all pairs of datasets and files with related names",
    "presence-prefix": "names like those of the missing files",
    "halo-pair-key": "group and particle numbers up to the largest of their type",
    "sendrecv-buffer-length": "receive buffers which are longer than the message",
    "fortran-list-names": "listings of long names",
    "match-fetch-world": "communicators which are part of the program",
    "gather-all-world": "communicators which are part of the program",
    "write-mixed-struct": "structured types with fields of both byte orders",
}
text = open(os.path.join(TOP, "DESIGN.md")).read()
rows = []
for d in glob.glob(os.path.join(TOP, "seeded", "*", "meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    b = m["what_it_breaks"] + (f" [{MISSED[i]}]" if i in MISSED else "")
    rows.append((m["property"], i + ("*" if i in MISSED else ""), b))
table = "| property and check | planted bug | what it breaks |\n|---|---|---|\n" + "".join(f"| {a} | {b} | {c} |\n" for a, b, c in sorted(rows))
head = "| property and check | planted bug | what it breaks |\n"
i = text.index(head)
j = i
for line in text[i:].splitlines(True):
    if not line.startswith("|"):
        break
    j += len(line)
open(os.path.join(TOP, "DESIGN.md"), "w").write(text[:i] + table + text[j:])
