#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl (the checks all have the same form)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
TECH = "deterministic simulation with fault injection (seeded whole-program runs, reference-model oracle)"
TECHA = "deterministic simulation with fault injection (seeded API histories with allocation or I/O faults, reference-model oracle)"
NOTE = {
 "C18": "Sampled histories of the library API against a reference model; allocation failures injected at every allocation.",
 "C19": "Sampled histories of the library API against a reference model with failing allocations; every allocation accounted for.",
 "C20": "Sampled histories of the injectors over a simulated C library against a reference model.",
 "C22": "Sampled sequences of loads of the real library with file and allocation faults against a reference model; every allocation, file and handler accounted for.",
 "C23": "Sampled programs of nested blocks, calls and throws run through the real macros and through a model; every step compared.",
}
DEF = ("Sampled whole-process runs (real code from main() to the console) under a simulated C library, disk, pipes and GDB; each run is "
       "exactly repeatable from its seed and every violation is replayed in a fresh process before it is reported. Evidence, not proof; "
       "the mri core is the machine code the project ships.")
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every libc entry point of the compiled sources is renamed with objcopy to a simulator seam, so the sources are compiled unmodified. See DESIGN.md."}
for i in ids:
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                        "evidence_file": "evidence/%s.json" % i, "technique": TECHA if i in ("C18", "C19", "C20", "C22", "C23") else TECH,
                        "level": "exploration", "level_note": NOTE.get(i, DEF)})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
