#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json
T = "stateless model checking of the real code: all choice sequences up to a deviation bound (task order, tokio yields, select order, transport splits and delays, scenario choices), every execution run on the implementation"
N = "All executions with at most the stated number of deviations from the default schedule are run on the real code (bound reached per scenario in the evidence); assumes the single-threaded runtime with virtual time and a vendored tokio that only delegates its choices."
TI = "bounded exhaustive enumeration of inputs on the real code against an independent reference model"
TF = "exhaustive enumeration of fault, tampering or cancellation points on the real code, combined with deviation-bounded schedule exploration"
TT = "stateless model checking of real threads: every schedule up to a preemption/delay bound, every atomic operation a scheduling point (own sanitizer runtime), clock steps chosen by the explorer"
L = {}
def c(p, level, technique, note):
    L[p] = dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough", technique=technique, level=level, level_note=note)
for p in "C01 C02 C03 C04 C05 C06 C07 C11 C13 C14 C15 C18 C19 C22".split():
    c(p, "model_checking", T, N)
c("C16", "model_checking", TT, "Sequentially consistent schedules only (no weak-memory reorderings); 2-3 threads, short clock histories.")
c("C17", "model_checking", T + "; and of real threads: every schedule up to a delay bound with every atomic operation a scheduling point", N + " Thread schedules are sequentially consistent.")
for p in ["C09", "C12", "C20", "C21"]:
    c(p, "fault_enumeration", TF, N)
for p in ["C08", "C10"]:
    c(p, "exploration", TI, "Every input of the stated alphabet; values outside it are covered only by the boundary classes chosen.")
c("C23", "exploration", "exhaustive enumeration of conversation scripts, replayed on real sockets and compared with the in-memory transport that the other checks explore (conformance of the explored transport)", "Every script of the stated alphabet up to the stated length; the kernel's own nondeterminism is not enumerated.")
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": [L[k] for k in sorted(L)], "not_applicable": []}, open("/verif/MANIFEST.json", "w"), indent=1)
