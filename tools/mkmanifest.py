#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "e9782c5"
full = subprocess.run(["git", "-C", "/repo", "rev-parse", HOOK], capture_output=True, text=True).stdout.strip()
FAMILY = {
    "Captcha": "C01 C02 C03 C04 C19", "Sites": "C05 C06 C08 C09 C10 C11", "Queue": "C12 C13 C14 C15",
    "Defense": "C07", "Redis": "C16 C17 C18 C20",
}
fam = {p: f for f, ps in FAMILY.items() for p in ps.split()}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
claimed = [p for p in props if p in checks.CHECKS]
m = dict(version=1,
    setup_cmd="./setup.sh",
    hooks=dict(guard="cfg(libmcaptcha_verif)", enable='RUSTFLAGS="--cfg libmcaptcha_verif --cap-lints allow"', source_commits=[full]),
    checks=[dict(property=p, quick_cmd=f"VERIF_TIER=quick ./check {p}", thorough_cmd=f"VERIF_TIER=thorough ./check {p}",
        technique=f"model-based verification: TLA+ design model {fam[p]}Impl checked exhaustively with TLC against the observer {fam[p]}Obs; "
                  f"model-generated and randomised scripts replayed on the real code, every recorded trace judged by TLC against {fam[p]}Obs",
        level="model_checking",
        level_note="exhaustive on the bounded design model; sampled on the implementation (the traces replayed and judged are counted in the evidence)")
        for p in claimed],
    not_applicable=[dict(property=p, reason="its check is still being built") for p in props if p not in claimed],
    notes="TLA+ (TLC). See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(claimed), "claimed")
