"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "TLC recomputes every recorded exact (finite-field) call from the TLA+ definitions"
PH = "TLC checks recorded impulse responses as integer phase intervals"
AC = "and recorded error measurements against the specified bounds"
NOTE = ("Evidence for the executions recorded in this run: lengths, algorithms, inputs listed in the evidence file. ")
T = {
 "C01": ("TLA+/TLC trace validation: exact recomputation in GF(p), integer phases of impulse responses, error bounds",
         NOTE + "A linear transform is determined by its impulse responses, so at the lengths done in full every coefficient is decided; exact runs decide the control flow of the generic code without tolerance. Trusts TLC, the recording harness, and for error sweeps the reference whose phase table TLC compares with the specification."),
 "C02": ("TLA+/TLC trace validation: exact recomputation in GF(p), integer phases of impulse responses, error bounds", NOTE + "As C01, for types 5 to 8, including one length beyond 2^16 per kind."),
 "C03": ("TLA+/TLC trace validation of every construction tree, incl. hostile inner transforms: exact, phases, error bounds", NOTE + "Construction trees of bounded depth over planned, naive, DFT and spying inner transforms."),
 "C04": ("TLA+/TLC trace validation: exact MDCT with random asymmetric windows, phases, error bounds", NOTE),
 "C05": ("TLA+/TLC trace validation: exact accumulating IMDCT, phases, error bounds", NOTE),
 "C06": ("TLA+/TLC trace validation: exact overlap-add reconstruction in GF(p), error bounds with all built-in windows", NOTE),
 "C07": ("TLA+/TLC trace validation: window values as integer phase intervals, symmetry and energy", NOTE + "Sizes listed in the evidence."),
 "C08": ("TLA+/TLC trace validation: results under varied scratch contents and surplus", NOTE),
 "C09": ("TLA+ contract model and TLC validation of recorded accepted and rejected calls, two build profiles", NOTE),
 "C10": ("TLA+ contract model and TLC validation of recorded constructions, two build profiles", NOTE),
 "C11": ("TLC model checking of the planner (refinement to a session specification) and replay of TLC-generated request histories", NOTE + "The planner model is exhaustive for its constants; the code is bound by replaying exhaustive short and random long histories."),
 "C12": ("TLC model checking of the planner (refinement to a session specification) and replay of TLC-generated request histories", NOTE + "Object identity observed as the address of the shared object."),
 "C13": ("TLC-generated interleavings replayed on the real code at arithmetic-operation granularity, results validated by TLC", NOTE + "Interleavings with up to three context switches at eight points are exhaustive in the model; their placement in a call is proportional. Switches happen between arithmetic operations of an instrumented number type; real-thread runs in f32/f64 complete this."),
 "C14": ("TLA+/TLC trace validation: exact round trips in GF(p), error bounds", NOTE),
 "C15": ("TLA+/TLC trace validation of error measurements against logarithmic and linear bounds", NOTE + "Numeric accuracy is measured on sampled inputs, not proved."),
 "C16": ("TLC sweep of the planner's cost recurrences and TLC validation of measured operation counts and scratch", NOTE + "Operation counts are exact counts of an instrumented number type."),
 "C17": ("TLA+/TLC trace validation of heap requests observed during calls", NOTE + "Heap requests are seen by a global allocator."),
 "C18": ("TLA+/TLC trace validation of calls between inaccessible pages, release and debug builds", NOTE + "Accesses beyond a slice that stay inside the same page-aligned allocation gap are caught by canaries only when they write."),
 "C19": ("TLA+/TLC trace validation: user-defined exact number types, recomputed exactly", NOTE),
 "C20": ("TLC model checking of the planner's memory (refinement to a memory specification) and TLC validation of heap balances over replayed histories", NOTE + "Bytes are those requested from the global allocator by the thread that plans, calls and drops."),
}
checks = []
for pid in sorted(T):
    t, n = T[pid]
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} quick", "thorough_cmd": f"python3 check.py {pid} thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": t, "level": "model_checking", "level_note": n.strip()})
m = {"version": 1, "setup_cmd": "cd harness && CARGO_TARGET_DIR=target cargo build --release --offline --bin rdf", "checks": checks,
     "not_applicable": [],
     "notes": "TLA+ with TLC. No hooks in /repo are needed: the library's public interface is generic in the number type and in inner transforms, which is where the harness observes it."}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
