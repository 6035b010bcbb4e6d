#!/usr/bin/env python3
"""writes MANIFEST.json from config.PROPS and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import config as C
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C.PROPS:
        k = C.PROPS[i]
        checks.append({
            "property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": k.get("technique", C.technique(k)), "level": k["level"],
            "level_note": k.get("note", C.NOTE) + " Assumes: " + "; ".join(k.get("assumptions", [])),
        })
    else:
        na.append({"property": i, "reason": C.NOT_APPLICABLE.get(i, "no check yet")})
m = {
    "version": 1, "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "rustc cfg flags scarlet_verif (scalar type = symbolic scalar) and scarlet_verif_f64 (scalar type = f64)",
        "enable": "RUSTFLAGS='--cfg scarlet_verif' with SCARLET_VERIF_SYM=/verif/engine/sym.rs; RUSTFLAGS='--cfg scarlet_verif_f64'",
        "source_commits": C.HOOKS,
    },
    "checks": checks, "not_applicable": na,
    "notes": "Contract-based deductive verification: contracts in harness/src/contracts, run over the real compiled code of /repo with a symbolic scalar that generates proof obligations, discharged by a polynomial normaliser, z3 and cvc5; Kani for bit-level scalar functions. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
