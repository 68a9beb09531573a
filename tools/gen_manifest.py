"""Writes MANIFEST.json from the properties that have a check."""
import json, os
NOTES = {
 "C01": ("TLA+ naming model checked by TLC; TLC trace validation of the classes built by the real code for TLC-enumerated and random sharing patterns",
         "Design model: all patterns in the bound. Code: every recorded construction (1-6 ranks) is decided by the specification; sharing patterns beyond those explored are not."),
 "C02": ("TLA+ model of the two-phase class reduction (all interleavings, TLC); TLC trace validation of recorded exchanges with random message delays",
         "Protocol model exhaustive in its bound; the real exchanges are decided on the explored patterns, operations and delays only."),
 "C03": ("TLA+ model of the owner exchange (all interleavings, TLC); call sequences generated by TLC replayed into DCCMap; TLC trace validation",
         "Values are integers and compared exactly. Call sequences obey the contract specified in OwnershipGen."),
}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
extra = V + "/tools/manifest_notes.json"
if os.path.exists(extra):
    NOTES.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in NOTES and os.path.exists("%s/checks/%s.py" % (V, p.lower())):
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s --tier quick" % p, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": NOTES[p][0], "level": "model_checking", "level_note": NOTES[p][1]})
    else:
        na.append({"property": p, "reason": "no check yet (work in progress)"})
json.dump({"version": 1, "setup_cmd": "bash tools/build.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC; no hooks in /repo. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
