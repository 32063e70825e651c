import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/lib")
import targets as T
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = {
    "C30": "The views are pure functions of the range they were built from: no schedule, clock, fault, I/O or history is involved in what they address, so there is nothing to simulate (their use from several threads is covered by C08).",
    "C31": "Pure functions of their input: no schedule, clock, fault or interleaving, so deterministic simulation does not apply (their use from several threads is covered by C08).",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T.PROPS:
        P = T.PROPS[i]
        th = P["targets"][0]["kind"] == "threads"
        checks.append(dict(
            property=i, quick_cmd="./check " + i, thorough_cmd="./check " + i,
            technique="deterministic simulation: seeded schedules of real threads under a simulated scheduler, history and race checking" if th else
            "deterministic simulation with fault injection: seeded histories with injected failures against a reference model",
            level="exploration",
            level_note=P.get("note") or ("Seeded search, not exhaustive: a clean run means no violation in the schedules sampled. " if th else
            "Seeded search, not exhaustive: a clean run means no violation in the histories and faults sampled. ") +
            "Trusts the simulator and reference models in /verif/sim, g++ and its sanitizers. Real code: " + P["real"] + ". Simulated: " + P["stub"] + "."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Not built yet: the check for this property is in progress.")))
m = dict(version=1, setup_cmd="./check --build", checks=checks, not_applicable=na,
         notes="Every check builds its world from /repo/include as it is, explores seeded runs in 8 processes, minimises and replays violations in fresh processes (see DESIGN.md). No hooks in /repo are needed: the seams are template parameters, allocators, streams, and the compiler's and libc's interfaces.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
