#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V + "/bin")
import props
T_D = "bounded model checking (Kani/CBMC + SAT) of the derived impls, differential against the payload"
N_D = ("Translation validation: the impl the derive generates from /repo's current source is compiled and symbolically "
       "executed; CBMC shows for all inputs within the bounds that it agrees with the payload's own method.")
claims = {**{c: (T_D, "translation_validation", N_D) for c in
             ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10")}, **props.CLAIMS}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [dict(property=i, quick_cmd=f"bin/check {i}", thorough_cmd=f"VERIF_TIER=thorough bin/check {i}",
               technique=claims[i][0], level=claims[i][1], level_note=claims[i][2]) for i in ids if i in claims]
na = [dict(property=i, reason=props.NA.get(i, "no check built yet")) for i in ids if i not in claims]
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
