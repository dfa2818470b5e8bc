#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py."""
import json, os
import registry

V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Every path of the harness and the real code (LLVM IR of /repo's current source) up to the bounds is executed symbolically; "
        "each branch, access and assertion is decided by Z3 for all inputs of the path. Not covered: %s. Trusted: rustc/LLVM, the engine's "
        "IR semantics (validated against native runs on sampled paths in every check), Z3, and the oracle in harness/src.")
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the LLVM IR with Z3",
        "level": "model_checking",
        "level_note": NOTE % registry.PROPS[p]["outside"],
    } for p in ids if p in registry.PROPS],
    "not_applicable": [{"property": p, "reason": registry.NOT_APPLICABLE.get(p, "not yet covered")} for p in ids if p not in registry.PROPS],
    "notes": "No hooks in /repo: the harness crate uses the public interface, and includes bin/schema.rs as a module.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
