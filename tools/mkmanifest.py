"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
TECH = "TLA+ trace validation with TLC (spec/PTNEngine.tla) of executions recorded from the real code under a deterministic scheduler"
NOTE = ("Every recorded execution (API calls and results, callbacks, virtual time) is checked by TLC to be a behaviour of the "
        "TLA+ specification, whose own properties are model checked on small nets. Bounded: random programs and schedules, "
        "sequentially consistent interleavings at synchronisation points and sampled memory accesses; a trace whose search "
        "exceeds the state limit is counted undecided. Trusts the virtual runtime (harness/vrt.cpp), the event recorder and TLC.")
SPECIAL = {
    "C04": ("TLC-enumerated final markings (spec/Finals.tla) compared with seeded runs of the real code, plus trace validation",
            "TLC enumerates all final markings the firing rule allows; each must be reached with a fair share in 260 runs "
            "with independent engine random seeds. Statistical: a share under 1/12 of the uniform one is a violation."),
    "C30": ("TLA+ trace validation with TLC (spec/JobQueue.tla) of executions of the real JobQueue under a deterministic scheduler",
            NOTE),
}
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
       "notes": "No hooks: the checks compile /repo's sources unchanged against harness/vrt.cpp, which intercepts "
                "pthreads, futexes, clocks, sleeps and random_device."}
for p in props:
    t, n = SPECIAL.get(p["id"], (TECH, NOTE))
    out["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
                          "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                          "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": "model_checking",
                          "level_note": n})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
