"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
keys = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
with open(f"{root}/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in keys}, ensure_ascii=False) + "\n")
checks = []
for p in sorted(P, key=lambda p: p["id"]):
    if p["crate"]:
        c = p["crate"]
        checks.append(dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick ./run.sh {c} {p['id']}",
                           thorough_cmd=f"VERIF_TIER=thorough ./run.sh {c} {p['id']}",
                           technique=p["technique"], level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA,
         notes="Checks build harness/ (Cargo workspace with path dependencies on /repo) and run generated-input searches; see DESIGN.md.")
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
crates = sorted({p["crate"] for p in P if p["crate"]})
open(f"{root}/setup.sh", "w").write("""#!/bin/sh
# Builds every harness crate (written by meta/gen.py).
cd "$(dirname "$0")/harness" || exit 2
unset RUSTFLAGS RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true
for c in %s; do
    cargo build --offline -q -p $c || exit 1
done
""" % " ".join(crates))
os.chmod(f"{root}/setup.sh", 0o755)
print(len(P), "properties,", len(checks), "checks")
