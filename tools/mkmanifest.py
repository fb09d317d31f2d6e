#!/usr/bin/env python3
# Source of /verif/MANIFEST.json (run: python3 tools/mkmanifest.py)
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based round trip: random value trees in random legal spellings, read back and compared with the tree", ""),
 "C02": ("property-based metamorphic test: padded documents read whole, byte by byte and in random pieces, compared with the model", ""),
 "C03": ("property-based round trip of adversarial stream contents with right, absent and wrong lengths", ""),
 "C04": ("property-based round trip through an independent encoder for every filter and random filter chains", ""),
 "C05": ("property-based round trip through an independent PNG/TIFF predictor", ""),
 "C06": ("fault injection by random cuts and damage of encoded streams, compared with independent reference decoders", ""),
 "C07": ("property-based round trip through an independent encryptor for every supported scheme", ""),
 "C08": ("property-based testing of wrong passwords and mutated encryption dictionaries against the required error and empty output", ""),
 "C09": ("model-based testing of random revision histories: every object number compared with the model's last definition", ""),
 "C10": ("fault injection into cross-references of random documents, compared with the model of what is written in the file", ""),
 "C11": ("model-based testing of random reference graphs with random sequences of lookups", ""),
 "C12": ("structure-aware fuzzing (generators of hostile values, mutation of random documents) under CPU, memory, stack and liveness limits", ""),
 "C13": ("property-based testing: random page trees and contents, extracted text compared with the model's lines", ""),
 "C14": ("property-based testing of random ToUnicode maps against a reference translation", ""),
 "C15": ("property-based testing: random placements of actions, output compared with the model's multiset", ""),
 "C16": ("property-based testing: random file specifications and forms, output directory compared with the model", ""),
 "C17": ("property-based round trip: raw.pdf of random documents read back by an independent reader and compared with the model", ""),
 "C18": ("property-based differential test: errors.txt compared with the messages an independent lenient reader calls for", ""),
 "C19": ("grammar-based fuzzing of malformed objects, compared with an independent lenient reader", ""),
 "C20": ("property-based testing of command lines on scratch directory trees, snapshots compared before and after", ""),
 "C21": ("model-based testing of random sequences and concurrent runs of parses, results compared with those of separate runs", ""),
 "C22": ("model-based testing of every typed lookup on random containers, keys and indices", ""),
 "C23": ("property-based testing of random cyclic and shared page trees, name trees, action and section chains against a reference walk", ""),
 "C24": ("metamorphic test: two random representations of one logical document must extract alike", ""),
 "C25": ("fault injection into the reads of the source at random offsets and calls, compared with the model of the readable part", ""),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
src = "".join(open(os.path.join(HERE, "harness", f)).read() for f in os.listdir(os.path.join(HERE, "harness")) if f.endswith(".go"))
checks, na = [], []
for i in ids:
    if 'ID: "%s"' % i not in src:
        na.append({"property": i, "reason": "the check of this property is not built yet"})
        continue
    t, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh check " + i,
        "thorough_cmd": "./run.sh thorough " + i,
        "technique": t,
        "level": "exploration",
        "level_note": "Holds on every generated case of the run (thousands in the quick tier, hundreds of thousands in the thorough tier); nothing is shown about inputs that were not generated. Trusts the generators, encoders and oracles in /verif/harness (written from the PDF specification, sharing no code with /repo) and the Go toolchain." + (" " + note if note else ""),
    })
m = {"version": 1, "setup_cmd": "./run.sh list", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the exported API, the documented output files and the command line tool, built from /repo's working tree."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
