"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TV = ("TLA+ specification (Session.tla) checked with TLC against recorded sessions of the real daemon (trace validation): %s. "
      "Every stimulus and every packet any peer receives is a step; a step the specification does not allow is a violation.")
TRUST = (" Bounded by sampling: seeded random sessions, not all; assumes MTA behaviour as listed in DESIGN.md (environment assumptions).")
CL = {
 "M01": "verdict mixes over 1-8 milters, all parallel commands, random arrival orders",
 "M02": "failing, timing-out, unsolicited and waived answers over whole histories",
 "M03": "coded and plain answers mixed over milters and commands",
 "M04": "evaluation-mode milters with every verdict, change and failure",
 "M05": "refused connections, closes, timeouts, illegal answers at every point, all fallback statuses",
 "M06": "per-milter verdict histories over several messages",
 "M07": "negative verdicts at every stage",
 "M08": "header and body changes by several milters in sequence",
 "M09": "net effect of the changes sent to the MTA compared with the combined result",
 "M10": "byte-exact bodies, chunk sizes, replacement, bodies beyond the 5 MB on-memory limit",
 "M11": "up to six messages per session with aborts at any point",
 "M12": "quit and disconnect at any point; descriptors and connections left over",
 "M13": "2-5 sessions at once, interleaved step by step",
 "M14": "all kinds of offers and per-milter answers",
 "M15": "macro tables and per-stage requests",
 "M16": "streams cut into pieces and packets glued together",
 "M17": "changes not negotiated, at wrong times, by evaluated milters",
 "M18": "out-of-order packets, failures and disconnects; process survival and later sessions",
}
EXTRA = json.load(open(os.path.join(HERE, "tools/extra_checks.json"))) if os.path.exists(os.path.join(HERE, "tools/extra_checks.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    c = {"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i}
    if i in CL:
        c.update(technique="TLA+ specification, TLC: validation of recorded traces and model-generated tours of the real daemon; closed models of the specification model-checked in the thorough tier", level="model_checking", level_note=TV % CL[i] + TRUST)
    if i in EXTRA:
        c.update(EXTRA[i])
    if "technique" in c and not c.pop("off", False):
        checks.append(c)
    else:
        na.append({"property": i, "reason": EXTRA.get(i, {}).get("reason", "the specification does not cover this part yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build /repo's working tree with their own build (harness/mmbuild.py) and run the daemon unmodified."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
if os.path.exists("/root/.vp/MANIFEST.schema.json"):
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for f in os.listdir(os.path.join(HERE, "evidence")):
        jsonschema.validate(json.load(open(os.path.join(HERE, "evidence", f))), json.load(open("/root/.vp/EVIDENCE.schema.json")))
print(len(checks), "claimed", len(na), "not")
