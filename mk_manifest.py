#!/usr/bin/env python3
"""Writes MANIFEST.json from suites.py and the list below."""
import json, os
from suites import PROPS
NA = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "not_applicable.json")))
note = {
 "data": "Seeded search: histories of public operations under injected allocation failures, compared step by step with a small "
         "reference model; failures replay from a minimised file. Samples, does not enumerate; trusts the model, the sanitizers "
         "and one compiler.",
 "mod": "Seeded search: histories over modules and what they generate, under injected allocation failures, compared with a "
        "reference model. Samples, does not enumerate; trusts the model and one compiler.",
 "text": "Seeded search: histories of conversions of whole, cut and damaged texts under injected allocation failures, compared "
         "with an independent codec. Samples, does not enumerate; trusts that codec and one compiler.",
 "gen": "Seeded search: histories over modules and the IDL generated from them, read back by an independent reader and compared "
        "with a model, under injected allocation failures and, in a second part, under seeded interleavings of generating "
        "threads with race detection. Samples, does not enumerate; trusts that reader, the model and one compiler.",
 "idl": "Seeded search: histories of parses of generated documents under injected failures of memory, files, pipes and the "
        "preprocessor, compared with what the documents declare, and of generated IDL parsed again. Samples, does not enumerate; "
        "trusts the document model, one compiler and a stand-in for the PEG engine, which is absent here.",
 "conc": "Seeded search over interleavings of caller threads at instrumented memory accesses inside one process, with allocation "
         "failures, a happens-before race detector and comparison with the single-threaded results. Samples schedules; assumes "
         "sequential consistency plus race detection.",
}
tech = {
 "data": "deterministic simulation: seeded histories with injected allocation failures against a reference model",
 "mod": "deterministic simulation: seeded histories with injected allocation failures against a reference model",
 "text": "deterministic simulation: seeded histories with injected text damage and allocation failures against a reference codec",
 "gen": "deterministic simulation: seeded histories and thread schedules with injected allocation failures against a reference reader",
 "idl": "deterministic simulation: seeded histories of parses with injected memory, file, pipe and process failures against a reference model",
 "conc": "deterministic simulation: seeded schedules of caller threads with injected allocation failures, race detection and a reference run",
}
checks = []
for p in sorted(PROPS):
    s = PROPS[p]["parts"][0]["suite"]
    checks.append({"property": p, "quick_cmd": "python3 check.py run %s quick" % p,
                   "thorough_cmd": "python3 check.py run %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                   "technique": PROPS[p].get("technique", tech[s]), "level": "exploration",
                   "level_note": PROPS[p].get("note", note[s])})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items()) if k not in PROPS],
     "notes": "No hooks in /repo: the seams are the global allocator, stream arguments, compiler instrumentation and symbol "
              "interposition, all on the harness side. See DESIGN.md."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
