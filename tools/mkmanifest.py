#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("TLA+/TLC trace validation: QP.tla convergence predicate on recorded runs", "Bounded by the recorded problems and options."),
 "C02": ("TLA+/TLC: SmallQP.tla enumerates problems with known optima, FinalTrace.tla judges the real outcomes", "Exhaustive over the small integer problems of the listed shapes; sampled beyond."),
 "C03": ("TLA+/TLC: MCQP.tla runs the specified algorithm, QPTrace.tla validates every iterate of real runs against it", "Every iterate of every recorded run, obtained through iteration limits 0,1,2,..."),
 "C04": ("TLA+/TLC trace validation of the run protocol (QPTrace.tla)", "Every limit up to convergence for each recorded problem."),
 "C05": ("TLA+/TLC: MCQP.tla runs the specified algorithm, QPTrace.tla validates every step of real runs against it", "Directions compared up to rounding and elimination growth; knife-edge cases excluded by the specification's own ambiguity test."),
 "C06": ("TLA+/TLC paired-trace validation (PairTrace.tla): any ordering and any relabelling against the built-in one", "Sampled orderings and relabellings; decisive states compared step by step."),
 "C07": ("TLA+/TLC paired-trace validation (PairTrace.tla): sparse, row-major, column-major, stored zeros, shuffled rows", "Sampled problems; every iterate of each pair compared."),
 "C10": ("TLA+/TLC paired-trace validation (PairTrace.tla, bit equality) and FinalTrace.tla for supplied equalities", "Every combination of null equality inputs over sampled problems."),
 "C11": ("TLA+/TLC: KKTPatterns.tla enumerates sparsity patterns, KKT.tla judges the matrix the real setup builds", "Exhaustive over the small patterns of the listed shapes; sampled beyond."),
 "C17": ("TLA+/TLC: LDLModel.tla enumerates all graphs and proves the symbolic theory on them, LDL.tla judges the real factorisation", "Exhaustive over graphs up to 4 (quick) or 5 nodes, sampled beyond."),
 "C18": ("TLA+/TLC: Shapes.tla enumerates arguments, Helpers.tla judges every real call by its definition", "Exhaustive over small shapes, sampled beyond."),
 "C08": ("TLA+/TLC: QPApi.tla enumerates call histories over several objects, QPApiTrace.tla judges the real heap and the caller's read-only arrays", "All histories of up to 3 objects and 3 solves as listed; problems sampled."),
 "C09": ("TLA+/TLC: QPApi.tla interleavings replayed on real objects and under a deterministic thread scheduler, judged by QPApiTrace.tla", "Thread switches at allocator and clock calls and between basic blocks, plus free-running threads."),
 "C13": ("TLA+/TLC: PyCall.tla enumerates calls and proves the decision procedure, PyTrace.tla judges the real Python calls", "Calls that differ in at most two arguments from a well-formed one (sampled in quick), several shapes."),
 "C14": ("TLA+/TLC trace validation (PyTrace.tla) of Python results against the native library", "Sampled problems, element types, byte orders, layouts, options and threads."),
 "C15": ("TLA+/TLC: SessionModel.tla histories replayed, SessionTrace.tla judges settings, captured output and iterates", "Sampled problems; enumerated histories."),
 "C16": ("TLA+/TLC: AMDModel.tla enumerates patterns and proves the ordering theory, AMDOrder.tla judges the real AMD calls", "Exhaustive over small patterns, sampled beyond."),
 "C19": ("TLA+/TLC: SessionModel.tla enumerates histories of solve/option/data changes, SessionTrace.tla judges the real object", "All histories up to the listed length over sampled problems."),
 "C20": ("TLA+/TLC: MexCall.tla and SimBlock.tla enumerate gateway calls and block histories, MexTrace.tla and SimTrace.tla judge the real code against stand-ins for MATLAB", "Calls differing in at most two arguments from a well-formed one (sampled in quick); MATLAB itself is replaced by stand-ins."),
 "C12": ("TLA+/TLC trace validation of statistics against QP.tla, of times against a simulated clock (TimeTrace.tla)", "Every recorded run; sampled clocks and histories."),
}
NA_DEFAULT = "check under construction"
if __name__ == "__main__":
    props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    checks = [dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p,
                   technique=T[p][0], level="model_checking", level_note=T[p][1]) for p in props if p in T]
    na = [dict(property=p, reason=NA_DEFAULT) for p in props if p not in T]
    json.dump(dict(version=1, setup_cmd="python3 -m vt.build", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
