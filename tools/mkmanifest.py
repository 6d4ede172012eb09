#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing against an independent reference codec",
    "C02": "property-based testing against an independent reference codec",
    "C03": "structured and (thorough) coverage-guided fuzzing of every decoder with crash, hang and allocation oracles",
    "C04": "property-based testing: every cut of generated messages must be an error",
    "C05": "property-based testing against an independent reference codec",
    "C06": "property-based testing against an independent reference codec",
    "C07": "property-based testing against an independent reference codec",
    "C08": "property-based testing against an independent reference codec",
    "C09": "property-based testing and (thorough) coverage-guided fuzzing against an independent reference codec, round trip",
    "C10": "property-based testing against an independent reference codec, round trip",
    "C11": "property-based testing against an independent reference codec",
    "C12": "property-based testing against an independent reference codec, round trip",
    "C13": "property-based testing of invalid requests through encoders and client",
    "C14": "structural mutation fuzzing and coverage-guided fuzzing (thorough) judged by an independent recognizer of the grammar",
    "K14": "generated operation sequences repeated in virtual time, growth of heap and goroutines as oracle",
    "K01": "generated schedules of replies in virtual time against a device model",
    "K02": "generated fault schedules in virtual time against a model of attempts",
    "K03": "structured fuzzing of the running client in virtual time, liveness oracle",
    "K04": "model-based stateful testing in virtual time",
    "K05": "model-based stateful testing in virtual time",
    "K06": "property-based testing around the size boundary against the reference codec",
    "K07": "generated announcement schedules in virtual time against a model",
    "K08": "generated announcement schedules in virtual time against a model",
    "K09": "generated devices and faults against a device model",
    "K10": "property-based testing of all transmitted frames, parsed by an independent codec",
    "K11": "fuzzing (coverage-guided in the thorough tier) of frames that look like replies, judged by an independent recognizer of replies",
    "K12": "property-based testing of reply sizes over in-memory and real links",
    "K13": "property-based testing over real loopback sockets",
    "R01": "generated concurrent workloads under the race detector",
    "N01": "generated points against a device model, in memory and over UDP",
    "N02": "generated writes against a device model, in memory and over UDP",
    "N03": "generated object lists and faults against a device model",
    "N04": "generated networks of devices against a model, in memory and over UDP",
    "N05": "model-based stateful testing of the store",
    "T01": "round-trip property-based testing and malformed-input fuzzing",
    "T02": "model-based stateful testing against a list of bits",
    "T03": "round-trip property-based testing",
    "T04": "property-based testing against a model of the array",
    "T05": "differential property-based testing against an independent parser",
    "T06": "property-based testing against tables transcribed from the standard",
    "T07": "property-based testing against a model of the reply",
    "T08": "model-based stateful testing of the helpers",
}
NOTE = {
    "C": "Exploration: tens to hundreds of thousands of generated cases per run; assumes harness/ref states clause 20 of the standard correctly.",
    "K": "Exploration: thousands of generated histories per run in virtual time (testing/synctest), so that time-outs and orders are exact and repeatable; assumes the in-memory data link behaves like the UDP one (K13 checks that one).",
    "R": "Exploration: the race detector sees only accesses of the schedules that happened.",
    "N": "Exploration: thousands of generated device worlds per run over an in-memory link, and some over real loopback sockets.",
    "T": "Exploration: tens of thousands of generated cases per run against a model; small identifier spaces are covered nearly completely.",
}
NOT_APPLICABLE = []
out = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": NOT_APPLICABLE,
       "notes": "No hooks: the checks use the exported API and reflection only. check.py --replay FILE runs a recorded failing case again. Recorded findings are in known-findings.txt."}
skip = {n["property"] for n in NOT_APPLICABLE}
for line in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i in skip:
        continue
    out["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                          "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration", "level_note": NOTE[i[0]]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
