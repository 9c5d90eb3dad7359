#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when a harness file for it exists and it is not declined below."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DECLINED = {
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    hs = [f for f in glob.glob(f"{ROOT}/harness/*/{i.lower()}*.go")]
    if i in DECLINED or not hs:
        na.append({"property": i, "reason": DECLINED.get(i, "no check has been built for it yet")})
        continue
    n = sum(len(re.findall(r"^func ZZ%s_" % i, open(f).read(), re.M)) for f in hs)
    dirs = sorted({os.path.basename(os.path.dirname(f)).replace("__", "/") for f in hs})
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "bounded symbolic execution of the real Go code (SSA) with an SMT solver (z3, cvc5), counterexamples replayed on the compiled code",
        "level": "model_checking",
        "level_note": f"{n} harnesses ({', '.join(dirs)}) decide the property for every value within the bounds stated in the evidence file (input sizes, number of operations, preemptions); nothing is claimed outside them. Trusted: the SSA executor and its models of time, sync, channels, fmt, reflect2 and encoding/json (DESIGN.md), and the solver; sample paths are re-run on the compiled code, and a violation is reported only if it reproduces there.",
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: harnesses are overlaid in memory (go/packages overlay) and natively (go test -overlay). Repairs of genuine defects are the fix: commits of /repo listed in known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
