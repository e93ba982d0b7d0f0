#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (claimed = has an entry in props.TABLE)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

MC = "TLA+ design model checked by TLC; recorded executions of the real code validated by TLC against the specification"
TV = "recorded executions of the real code validated by TLC against an exact TLA+ specification"
GEN = "TLC-enumerated behaviours replayed into the real code and validated by TLC against the TLA+ specification"
INFO = {
    "C01": (MC + "; all merge histories of 4 elements replayed", "Exhaustive for small structures (model) and replayed histories; larger ones sampled. Trusts the reading of the public output."),
    "C02": (MC, "The algorithm is exhaustive over all small networks; the real solver is compared with the minimum over all enumerated cuts, or with a flow certificate TLC checks, on enumerated and random networks. Capacities have exactly representable sums."),
    "C03": (MC, "As C02, for the search-tree solver including the returned value."),
    "C07": (TV, "Exact determinant signs over numbers of several magnitudes; inputs are sampled with deliberate degeneracy, so conformance is by exploration."),
    "C08": (TV, "As C07 for incircle, insphere and lifted orientation."),
    "C09": (TV, "Every combination of representations in every argument position; sampled near-degenerate points; the specification knows the represented points exactly."),
    "C10": (TV, "As C09 for coordinate comparison, in-segment and explicit coordinates."),
}
try:
    from manifest_info import INFO as MORE
    INFO.update(MORE)
except ImportError:
    pass

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.TABLE:
        t, n = INFO[i]
        checks.append(dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                           evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
         notes="TLA+ with TLC. One entry point: ./check <property>; VERIF_TIER and VERIF_SEED are honoured. No hooks in /repo are needed: everything is observed through the public API.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
