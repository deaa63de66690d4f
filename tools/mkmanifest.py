"""Writes MANIFEST.json from properties.jsonl and the checks in harness/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "codec": "property-based testing (Hypothesis): generated models and bytes against a reference codec, round-trip, shrinking",
    "history": "stateful property-based testing (Hypothesis): generated histories against a reference model, shrinking",
}
HIST = {"C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C21", "C32", "C33", "C34", "C35", "C36", "C37", "C38", "C39", "C41", "C42"}
NOTE = ("Generated search, no proof: shows no counterexample among the generated and enumerated cases counted in the evidence. "
        "Trusts the reference model in harness/ref.py, Jython 2.7 as the interpreter and a stand-in for the absent mmap module")
EXTRA = {
    "C29": "; runs the repository's own validator (cerberus) for every case",
    **{c: "; the serial device, MQTT client and sleeping are stand-ins that record calls" for c in ("C32", "C33", "C34", "C35", "C36", "C39", "C41")},
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "harness/props/%s.py" % i.lower())):
        checks.append({"property": i, "quick_cmd": "bash run.sh %s" % i, "thorough_cmd": "bash run.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH["history" if i in HIST else "codec"],
                       "level": "exploration", "level_note": NOTE + EXTRA.get(i, "") + "."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. known_findings.json lists the recorded defects and the repairs made in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
