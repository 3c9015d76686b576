#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "generated-input search for panics and crashes, debug and release builds",
 "C02": "property-based testing against a reference recogniser",
 "C03": "property-based testing against a reference error locator",
 "C04": "differential testing of lists against single compilations",
 "C05": "property-based testing against a reference conflict finder",
 "C06": "boundary-value property testing, limits set through a hook",
 "C07": "property-based testing against a reference parser",
 "C08": "property-based testing against a reference verb scanner, metamorphic relations",
 "C09": "metamorphic testing under changes of letter case",
 "C10": "property-based testing against the expected automaton",
 "C11": "property-based testing against a reference literal extractor",
 "C12": "model-based testing of operation histories (map of literals)",
 "C13": "model-based testing of operation histories (maps of IDs)",
 "C14": "model-based testing of operation histories (boolean array), enumeration of ranges",
 "C15": "property-based testing against definitions, enumeration of small sets",
 "C16": "property-based testing against a sequence model, order laws",
 "C17": "round-trip testing: printed, then read back",
 "C18": "property-based testing against integers, order laws",
 "C19": "property-based testing against arithmetic in wider integers",
 "C20": "property-based testing, enumeration of resource combinations",
 "C21": "stateful and concurrent repetition against a fixed expectation",
 "C22": "property-based testing against a reference relation on generated regions",
 "C23": "property-based testing against definitions on generated graphs",
 "C24": "model-based testing of operation histories (replay of what was added)",
}
NOTE = ("Generated-input search: shows the presence of violations, not their absence. Explores the "
        "stated domain with seeded structured generators, complete enumeration of small spaces, and "
        "coverage-guided variation, in builds with and without overflow checks and debug assertions. "
        "Trusts rustc, the oracle in /verif/harness, and, unless public, the accessors in src/verif.rs.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {
  "guard": "rescan_verif",
  "enable": "RUSTFLAGS='--cfg rescan_verif --cfg rescan_verif=\"AREA\" ...' with one AREA for each part of the crate a check looks into (the table AREAS in check.py); check.py builds /verif/harness, which depends on /repo by path, once for each property with only its areas; C01 to C05 are built with none of it",
  "source_commits": ["2c6207dbba5dc6ddfa4153a3b654cbcc0c4c042a", "c9ffdea4d97f63d9b97f6fc22ce1e01d6adb8745",
                     "befcca9bebec5a7384bc9ba543f59b43ba401949"],
 },
 "checks": [
  {
   "property": p["id"],
   "quick_cmd": f"VERIF_TIER=quick ./check.py {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.py {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": TECH[p["id"]],
   "level": "exploration",
   "level_note": NOTE,
  }
  for p in props
 ],
 "not_applicable": [],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
