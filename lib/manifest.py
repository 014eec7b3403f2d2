#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of properties."""
import json
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for line in open(VERIF + "/properties.jsonl"):
    p = json.loads(line)
    titles[p["id"]] = p["title"]
assert set(titles) == set(PROPS), set(titles) ^ set(PROPS)
NOTE = ("%s. The TLA+ specification is explored exhaustively within the bounds of the models named %s; the real code is bound to "
        "it by validating recorded executions call by call with TLC (every public call: state, messages and results must be "
        "those of the specification) plus specification-level monitors of the property on the observed states. Trusted: the "
        "accessors used for observation, TLC, and the usage contract of the library; executions are finite and bounded.")
m = {
    "version": 1,
    "setup_cmd": "python3 lib/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public headers only", "source_commits": []},
    "checks": [{
        "property": k,
        "quick_cmd": "python3 lib/check.py " + k,
        "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py " + k,
        "technique": "TLA+ specification: TLC model checking, trace validation of the real code and replay of model behaviours",
        "level": "model_checking",
        "level_note": NOTE % (titles[k], ", ".join(v["models"])),
    } for k, v in sorted(PROPS.items())],
    "not_applicable": [],
    "notes": "See DESIGN.md. Genuine defects that were repaired are listed in KNOWN_FINDINGS.txt.",
}
json.dump(m, open(VERIF + "/MANIFEST.json", "w"), indent=1)
