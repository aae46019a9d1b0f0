#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
T = "deterministic simulation with fault injection"
WHAT = {
    "C01": "seeded schedules and histories of creation; every returned handle compared with all earlier ones",
    "C02": "concurrent create_atomic phases ended by maintain, clear or reset; membership compared with a model",
    "C03": "dead, queued and made-up handles given to every operation; must act on nothing",
    "C04": "every operation and view compared with a map model, with injected panics",
    "C05": "about 115 query types in all ways of consumption compared with the model's answer",
    "C06": "layouts changed, nested and reordered under histories; results compared with a model without groups",
    "C07": "slices and density of group queries compared with the model, up to 16 components and 64 groups",
    "C08": "parallel iteration under a simulated work-stealing pool compared with the model and with sequential order",
    "C09": "borrow intervals of interleaved callers checked for exclusion; refusals must have a conflicting holder",
    "C10": "ledger of every component value and of every block of memory, with injected destructor panics",
    "C11": "panics injected in destructors, iterators and closures; world audited and drops accounted for afterwards",
    "C12": "shared-reference operations interleaved access by access; race detection and linearization of create_atomic",
    "C13": "index counter and versions moved to the end of their range, then concurrent and exclusive creation",
    "C14": "clear and reset at arbitrary points with queued entities, groups and injected panics",
    "C16": "cycles that restore the contents repeated in random states; the memory held by the crate must stop growing",
    "C17": "fit and unfit groups declared in any order; refusals required and the world compared with the model afterwards",
    "C15": "order of handles compared with the documented first-in-first-out order, linearized across threads",
}
NA = {
    "N02": "pure function of two handles; nothing in it depends on a schedule or a fault",
    "N03": "a single-owner container without I/O, threads or user callbacks outside of a world; inside of a world C04 and C10 exercise it",
    "N04": "a statement about separate builds of the crate, not about executions; the simulator is built with one feature set",
}
props = [json.loads(l) for l in open("properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"./check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": f"{T}: {WHAT[i]}",
        "level": "exploration",
        "level_note": "Seeded search over plans, schedules and faults: a clean run is evidence, not proof. The real crate "
                      "runs, built from /repo's working tree; threads, the rayon pool, the allocator and the memory "
                      "model are simulated, and what runs and fails when follows from the seed. Trusted: the "
                      "simulator, the reference model and the compiler's instrumentation pass. Failing allocations "
                      "(which abort) and spurious compare-exchange failures are not simulated.",
    })
m = {
    "version": 1,
    "setup_cmd": "sim/build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the simulator takes control through compiler instrumentation, a patched rayon-core, the "
             "global allocator and the crate's public generic interface. See DESIGN.md; known_findings.txt lists defects.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
