#!/usr/bin/env python3
# writes MANIFEST.json (kept next to it so that the two stay in step)
import json
T={
"C01":("seeded simulation of planner histories (refused, aborted and interleaved requests injected); reference: documented definition",
 "Random and systematic request histories for f32, f64 and the simulated number type; every instance handed out is checked against the closed-form definition within a rounding envelope. Lengths up to a few thousand; a wrong result smaller than the envelope is not seen."),
"C02":("seeded deterministic scheduling of concurrent calls at arithmetic-operation and machine-instruction granularity; bitwise comparison with the same call run alone in another process",
 "Exact (bitwise) oracle. Interleavings are sequentially consistent: weak-memory reorderings are not simulated."),
"C03":("fault injection: panics at seeded arithmetic steps, in window functions and failing allocations, during scheduled concurrent calls; bitwise comparison with an undisturbed run",
 "Crash points are arithmetic operations, window functions and allocations; foreign unwinding from anywhere else is not possible in safe use. Requests planned after an abort are compared with the definition, all others bitwise."),
"C04":("fault injection into caller memory (dirty, left-over, NaN, oversized, displaced scratch; old outputs), bitwise comparison with clean scratch",
 "Exact oracle; seeded contents, sizes and placements."),
"C05":("seeded simulation with exactly the advertised scratch against an unmapped page, every allocation denied, caller-written inner transforms of varied scratch demands; compared with a run with unlimited scratch",
 "Compositions up to a few levels deep; inner transforms are any of the library's or the simulator's own."),
"C06":("fault injection: mis-sized calls and invalid construction requests inside scheduled concurrent histories; buffers watched, everything else compared bitwise with a history without them",
 "Refusal means a panic; buffers are compared after the refusal."),
"C07":("seeded deterministic scheduling with ownership hashes, canaries and unmapped pages checked at the scheduler's switches, faults injected",
 "Foreign writes that are undone between two scheduling points of the same slice of one caller are seen only if the schedule has a switch between them; foreign reads are seen through unmapped pages and poisoned contents."),
"C08":("seeded drop orders and aborted requests under a simulated allocator that accounts for every byte and poisons what is freed",
 "Leaks are exact byte counts; use after free is seen through poison, protected pages and changed results."),
"C09":("discrete-event simulation of MDCT streams over a channel that loses, duplicates, reorders, corrupts and partitions, with encoder and decoder crashes and restarts; sequential reference model",
 "Reconstruction within a rounding tolerance, independence of arrival order exactly (bitwise)."),
"C10":("seeded scheduling with callers stalled or killed mid-call; own-step budgets counted in arithmetic operations of the simulated number type",
 "Budgets are calibrated with slack (about 4x); steps are arithmetic operations, plus a CPU-time watchdog for loops without arithmetic."),
"C11":("the same program under simulated environments (hash seeds, heap layout and contents, clocks, environment variables, alignment, thread of origin); bitwise comparison",
 "Covers one machine and CPU feature set."),
}
NA={
"C12":"A pure function of one call's input: no schedule, fault or history enters, so there is nothing for a simulator to decide; it needs numerical analysis or an arbitrary-precision comparison.",
"C13":"A pure algebraic relation between two calls' inputs and outputs; no schedule, fault or history enters (the stateful form of reconstruction, over a lossy channel, is C09).",
"C14":"Windows are pure functions of a length, evaluated once; nothing nondeterministic or stateful enters.",
"C15":"A pure relation between functions of the input; deciding it is equivalence checking or property-based testing, not simulation.",
}
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"No hooks in /repo: the generic number type, the global allocator, futex/getrandom/clock/getenv interposition and caller memory are seams the library already has. /repo carries only fix: commits."}
for k,(t,n) in T.items():
    m["checks"].append({"property":k,"quick_cmd":f"./run.sh {k} quick","thorough_cmd":f"./run.sh {k} thorough","technique":"deterministic simulation with fault injection: "+t,"level":"exploration","level_note":n})
json.dump(m,open("MANIFEST.json","w"),indent=1); print("ok")
