#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
checks = {
 "C01": "seeded histories with crashes and restores at any step over archived objects; lock-step comparison with an uninterrupted twin",
 "C02": "seeded checkpoint/restore histories of generators with torn, truncated and damaged state; lock-step comparison with reference twins",
 "C03": "seeded histories of accumulators with crash/restore and failing feeds against exact arithmetic",
 "C04": "seeded histories driving counters to their limits against an exact reference model",
 "C05": "seeded histories with failing allocations and torn restores against an exact reference histogram",
 "C06": "seeded proposal/answer histories with failing allocations and crash/restore against a reference state machine",
 "C07": "simulated file system with disk faults and process crash at any call; exactly-once rows judged over the recorded history",
 "C08": "simulated file system with disk faults; saved tables judged against an independent lattice model",
 "C09": "simulated file system with split, interrupted, failing and concurrently changed reads; judged against the bytes delivered",
 "C10": "simulated stream buffers that split, end, fail and damage the text; judged against a reference reader",
 "C11": "controlled scheduler for real threads over instrumented code: seeded preemptions, happens-before race detection, results compared with each thread alone",
 "C12": "scripted and extreme generator words behind the generator seam; choices and shares judged against exact weights",
 "C13": "the real program on a simulated standard output with disk faults; output read back against a freshly seeded generator",
 "C14": "seeded conversions and failures with failing allocations and poisoned freed memory; texts judged over exception lifetimes",
 "C15": "failing allocations at any point of seeded object histories, judged against an independent lattice model",
 "C17": "simulated file system with disk faults and neighbouring files; open files, other files and memory judged after every operation",
 "C18": "seeded histories of copying, assigning, moving and containing with failing allocations; each object compared with one that went through the same history and was never copied",
 "C19": "the same seeded program run in two processes whose memory, stack, errno, locale, clock, entropy, environment and past (including operations cut short by failing allocations) the simulator makes different; answers compared bit for bit",
 "C16": "checkpoints cut, damaged, unreadable or out of memory at any step of seeded histories; lock-step comparison with twins that met no damage",
}
note = ("Seeded search over plans, schedules and faults; no exhaustiveness is claimed. Trusts the simulator in /verif/sim, "
        "the reference models in /verif/checks, g++ 13 and libstdc++/boost as installed. ")
notes = {
 "C01": "Crash points lie between operations and at failing allocations inside archive writes.",
 "C03": "Error bounds are those of the documented algorithms with a small constant.",
 "C07": "close() errors and power loss (loss of data the kernel accepted) are not simulated: the property speaks of process crashes.",
 "C08": "close() errors are not simulated.",
 "C11": "Interleavings are sequentially consistent; races are found by happens-before, so weak-memory effects are covered as races. Uninstrumented code inside libstdc++.so/libc is not preempted.",
 "C12": "Shares are measured by stratified words, not proved.",
}
na = {
 "C20": "Grid indices are pure functions of size and index: no schedule, fault, clock or history occurs. (C15 compares the same answers with a model as its oracle, but does not decide this for every size.)",
 "C21": "Distances and neighbours are pure functions of the lattice: nothing for a simulator to decide. (They are used as oracle in C08 and C15.)",
 "C22": "Duality of constant vectors is a static fact: nothing nondeterministic for it to depend on.",
 "C23": "Rational arithmetic and comparison are pure functions of two values.",
 "C24": "Pair indices are a pure function of an integer.",
 "C25": "Approximate comparison is a pure function of its operands.",
 "C26": "Sequences are pure functions of their end points and length.",
 "C27": "The mathematical helpers are pure functions of their arguments.",
 "C28": "The generated operators are pure functions of two values.",
 "C29": "Linking of several translation units is a static fact about programs; there is no execution to simulate.",
}
have = {c for c in checks if os.path.exists(os.path.join(here, "checks", c.lower() + ".cpp"))}
for c in sorted(set(checks) - have):
    na[c] = "no check yet"
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": c,
   "quick_cmd": f"./check.sh {c}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {c}",
   "evidence_file": f"evidence/{c}.json",
   "technique": T + checks[c],
   "level": "exploration",
   "level_note": (note + notes.get(c, "")).strip(),
 } for c in sorted(have)],
 "not_applicable": [{"property": c, "reason": na[c]} for c in sorted(na)],
 "notes": "No hook in /repo was needed: every seam is at the library's existing boundaries (libc calls, operator new, stream buffers, the generator argument, compiler instrumentation).",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
