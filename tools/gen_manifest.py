#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "Exhaustive enumeration of bounded makefile spaces: an executable reference model (explicit state) and the real engine read every text, and outcome and database are compared after every makefile"
NOTE = "Every text of the bounded spaces is explored, and every model trace is replayed against the real code (no trace is judged on the model alone). Trusts the reference model (cross-checked against GNU make 4.3 while it was written) and the bounds listed in the evidence; constructs hastur declares unimplemented are outside."
T = {
 "C01": (MODEL, NOTE), "C02": (MODEL, NOTE), "C03": (MODEL, NOTE),
 "C04": (MODEL + ", character by character with the location of each", NOTE),
 "C05": (MODEL + ", with the sensitivity set of every text", NOTE),
 "C06": ("Exhaustive enumeration of blocks built from pieces through the public API, every slice and operation compared with a flat-string model", "All piece sequences, slices and slices of slices within the bounds are run on the real types; the model is a flat string with one location per character."),
 "C07": (MODEL, NOTE),
 "C08": ("Exhaustive enumeration of layout variants of makefiles, real engine against real engine on the plain layout and against the reference model", NOTE),
 "C09": (MODEL, NOTE), "C10": (MODEL, NOTE),
 "C11": ("Exhaustive enumeration of character strings, token sequences and broken makefiles; outcome, error kind and surviving state compared with the reference model; crashes and hangs detected by a supervising process", NOTE),
 "C12": ("Explicit-state exploration of all operation sequences on databases and engines up to a depth, against a map model, with every earlier snapshot re-checked after every step", "All sequences of the stated operations to the stated depth, on the real Database; observations go through the public accessors and the read-only hooks."),
 "C13": ("Exhaustive enumeration of expression texts and trees; the real syntax tree, its printed form and the trace of visitors are compared with a model parser", "All token sequences up to the stated length; the model parser is trusted."),
 "C14": ("Explicit-state exploration of all interning operation sequences up to a depth against a map model, and of the names met while reading makefiles", "All sequences of the stated operations to the stated depth on the real NameCache."),
 "C15": ("Exhaustive enumeration of location pairs and triples (order laws) and of located strings with all slices, against a per-character model", "All values of small domains, exhaustively."),
 "C16": (MODEL, NOTE), "C17": (MODEL, NOTE),
 "C18": (MODEL + ", with the references through which each character came", NOTE),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
done = sys.argv[1].split(",") if len(sys.argv) > 1 else ids
checks = []
for i in ids:
    if i in done:
        t, n = T[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique="model checking: " + t[0].lower() + t[1:], level="model_checking", level_note=n))
m = dict(version=1, setup_cmd="bash build.sh",
 hooks=dict(guard="cfg(hastur_verif)", enable="RUSTFLAGS=\"--cfg hastur_verif\" (set by build.sh for the harness build)",
  source_commits=[subprocess.check_output(["git","-C","/repo","rev-parse",c],text=True).strip() for c in ("f757f9d","bc17169","0a7eaed")]),
 checks=checks,
 not_applicable=[dict(property=i, reason="the check is still being built") for i in ids if i not in done],
 notes="Known findings and fixes: known-findings.txt. Method, bounds and results: DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
