#!/usr/bin/env python3
"""writes MANIFEST.json from CLAIMED below and properties.jsonl"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = "gated value graph of the source (global value numbering) compared by random interpretation"
VGN = ("Equality of the code's value graph with the reference graph, for every option combination and the "
       "array sizes of the drivers; equal value numbers are identities, the rest agree under random "
       "interpretation of the gates. Trusts the numpy model in sa/evalr.py.")
AL = ("abstract interpretation of every public entry point with symbolic arguments: alias and mutation analysis "
      "(origins of every written object)")
ALN = ("Every write reached from a public function or method of any class is classified by the origin of the written "
       "object; view-making numpy operations keep the origin. Loops are joined, so it covers all paths; values of "
       "unknown external calls are assumed fresh.")
EF = ("abstract interpretation of every public entry point with symbolic arguments: effect analysis of process-wide "
      "state with restore matching")
EFN = ("Every effect on numpy/warnings/random/os state reachable from a public entry point must be restored on all paths "
       "or be on the documented list. Effects inside third party code are taken from a table.")
TA = "taint analysis of argument vectors over the value graph of every process start"
TAN = ("Every process start reachable from a public entry point: each path/header value occurs in the argument vector as "
       "exactly one whole element and no shell is used; joins and splits are interpreted on the graph.")
CLAIMED = {
    "C01": (AL, ALN),
    "C07": (VG + "; range obligations, rounding excursions on the exact floating point value", VGN),
    "C08": (VG, VGN),
    "C10": (VG, VGN),
    "C11": (TA, TAN),
    "C12": (VG + "; event order on the modelled file and process objects", VGN),
    "C17": (EF, EFN),
    "C02": (VG, VGN),
    "C03": (VG, VGN),
    "C04": (VG, VGN),
    "C05": (VG, VGN),
    "C06": (VG + "; a probe set records what is computed; lookup of every table entry and offered name", VGN),
    "C09": (VG, VGN),
    "C13": (VG + "; destinations recorded on modelled files", VGN + " Files, processes and the header reader are modelled."),
    "C14": (VG + " under modelled executors (completion order, failing call and worker mode symbolic)",
            VGN + " Executors, futures and the progress bar are modelled as the standard library documents them."),
    "C16": (VG + "; recorders with the library signatures behind every command; binding and kind rules over the option declarations",
            VGN + " Conversion callbacks of clasp are trusted by name."),
    "C29": (VG, VGN),
    "C15": (VG + "; a recording stand-in for the model counts what is recomputed", VGN),
    "C18": (VG + "; effect analysis of random sources and unordered iteration", VGN),
    "C19": (VG, VGN),
    "C20": (VG, VGN),
    "C21": (VG + "; environment, files and standard streams are modelled", VGN + " The process environment, files and imports are modelled."),
    "C22": (VG, VGN),
    "C23": (VG, VGN),
    "C24": (VG, VGN),
    "C25": (VG, VGN),
    "C26": (VG, VGN),
    "C27": (VG, VGN),
    "C28": (VG, VGN),
    "C30": (VG, VGN),
    "C31": (VG + "; area element per pixel and its sum over the image", VGN + " The sum is compared at two image sizes up to 2 %."),
    "C32": (VG, VGN),
    "C35": (VG, VGN),
    "C36": (VG, VGN),
    "C37": (VG, VGN + " Image files are modelled."),
    "C39": (VG, VGN + " Files are modelled."),
    "C34": ("abstract interpretation of the culling loop over all neighbourhood relations (complete for up to five vectors)",
            "The search tree is abstracted to the symmetric relation it computes; every relation over up to five vectors is "
            "enumerated and the loop interpreted on it, from source. Trusts scipy's tree (lists in increasing order)."),
}
NOT = {
    "C33": "cleaning runs data dependent loops over header lines; idempotence needs their invariants for every text",
}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    na = [{"property": i, "reason": NOT.get(i, "no check is claimed yet")} for i in ids if i not in CLAIMED]
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import numpy, scipy'",
         "checks": [{"property": i, "quick_cmd": f"python3-vt check.py {i}",
                     "thorough_cmd": f"python3-vt check.py {i} --thorough",
                     "evidence_file": f"evidence/{i}.json",
                     "technique": CLAIMED[i][0], "level": "other", "level_note": CLAIMED[i][1]}
                    for i in ids if i in CLAIMED],
         "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
