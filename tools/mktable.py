#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md (between the markers)"""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ADDED = {
    "p40": "missed; text conditions were decided from 3 probes, now from every text of the domain",
    "p43": "missed; `FRESH` and the drivers C02_shares, C02_options added",
    "p44": "missed; C03_stray added",
    "p47": "missed (undecided); draws of unbounded distributions modelled",
    "p50": "missed; C30_poles added",
    "p63": "missed (undecided); byte order of dtypes modelled",
    "p69": "missed; C37_plane drivers (plain mapper) added",
    "p75": "missed; expansion of `~` and `$` modelled, such names added to the C11 texts",
    "p52": "missed; images of very different brightness in C15_batch",
}


def main():
    rows = ["| id | property | what breaks | needs | caught by |", "|-|-|-|-|-|"]
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        i = f.split(os.sep)[-2]
        m = json.load(open(f))
        rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m['property']}"
                    + (" — " + ADDED[i] if i in ADDED else "") + " |")
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"<!-- planted -->.*<!-- /planted -->",
               lambda _: "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->", s, flags=re.S)
    open(p, "w").write(s)


main()
