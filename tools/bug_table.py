"""Rewrites the table of planted bugs in DESIGN.md (which check catches which)."""
import json
import os

TOP = __file__.rsplit("/", 2)[0]
MISSED_FIRST = {
    "c15-iterators": "dims given as iterators were not generated",
    "c16-attrs-shared": "the attributes of a quantity were not changed by the caller",
    "c16-time-names": "data sets had no variable named like the time",
    "c33-metadata-pickle": "metadata were not pickled alone",
    "c35-roll-back": "crash points came too late in the history (Hypothesis prefers zero)",
    "c14-interior-negative": "no integers were used on the interior view",
    "c27-namelist": "each namelist was used once",
    "c01-prefix-dims": "no other dimension had a name starting with x or y",
    "c29-prefix": "no other dimension had a name starting with x or y",
    "c04-id-cache": "quantities were kept until the end of a case",
    "c11-names-once": "all states of a case had the same names",
    "c17-level-chunks": "no dimension was longer than a few points",
}
rows = []
for name in sorted(os.listdir(f"{TOP}/seeded")):
    with open(f"{TOP}/seeded/{name}/meta.json") as f:
        meta = json.load(f)
    note = "; missed at first: " + MISSED_FIRST[name] if name in MISSED_FIRST else ""
    rows.append(f"| {name} | {meta['property']} | {meta['needs']}{note} |")
with open(f"{TOP}/DESIGN.md") as f:
    text = f.read()
start, end = "<!-- planted bugs -->\n", "<!-- end of planted bugs -->\n"
head, rest = text.split(start)
tail = rest.split(end)[1]
with open(f"{TOP}/DESIGN.md", "w") as f:
    f.write(head + start + "| bug | caught by | needs |\n|---|---|---|\n" + "\n".join(rows)
            + "\n" + end + tail)
print(len(rows), "planted bugs")
