"""Writes MANIFEST.json for the properties that have a check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": ("seeded search over histories of random activity, failed/interrupted calls, clock jumps and fresh processes; isolated-fork reference",
            "Sampled histories; the reference is the same call made alone in a pristine fork. Trusts fork isolation, the RNG seam and tolerance 1e-6."),
    "C02": ("seeded search over call sequences on simulated shared random streams, each sequence replayed from the same stream seeds",
            "Sampled sequences; the stream seam sees every draw of numpy.random's global functions, scipy's default stream and Python's random. The external Clifford sampler is outside the statement."),
    "C03": ("seeded search over biased but legal outcomes of the random streams, class-membership oracles on every delivered object",
            "Sampled draws, sizes up to 4 modes; oracles use an independent Jordan-Wigner model with tolerances 1e-7/1e-6."),
    "C04": ("seeded search over draws, option combinations and stream histories; every jointly returned object checked against its partners",
            "Sampled draws, sizes up to 4 modes, including rounding-level perturbations of the matrix functions."),
    "C05": ("adversarial random source behind the stream seam, biased to rejection for any number of attempts and then fair",
            "Sampled adversaries; bounded termination is judged by a library-step budget."),
    "C06": ("seeded search over graph-edit histories with simulated tie-breaking in the graph algorithms, interruptions and output failures; exact matching-sum model",
            "Sampled histories on graphs of up to 14 nodes; relative tolerance 1e-6 against an exact dynamic program."),
    "C07": ("seeded search over legal embeddings, spanning trees and iteration orders behind the graph seams; invariants on faces, dual tree and orientation",
            "Sampled connected planar graphs of up to 14 nodes and alternatives."),
    "C08": ("numerical backend behind a seam returning randomly chosen legal decompositions and failing at chosen calls",
            "Sampled Hamiltonians of up to 4 modes and legal Schur/eigen alternatives; tolerance 1e-7 relative."),
    "C09": ("numerical backend behind a seam returning randomly chosen legal decompositions and failing at chosen calls",
            "Sampled states of up to 4 qubits; defining formulas as oracle, tolerances 1e-8 to 1e-6."),
    "C10": ("cooperative line-level thread scheduler with seeded preemption; results compared with the model or the isolated call",
            "Sampled schedules of 2-4 caller threads preempted between source lines of the library (not inside C extensions). One listed known finding: concurrent generators sharing one random stream."),
    "C11": ("fault injection at source lines, backend, random-source, graph, import and output calls within call sequences; reference model and settings snapshots",
            "Sampled sequences and fault points; faults are not injected inside finally/with/except clean-up lines."),
    "C12": ("seeded histories of calls and caller-side in-place changes; byte-wise snapshots of arguments and earlier results, reference model for later calls",
            "Sampled histories; views of arguments are allowed only for the two cast functions."),
    "C13": ("simulated output stream and conversions failing at every write, prior print settings and thread schedules chosen by the seed",
            "Sampled objects, settings, faults and schedules; faults are injected where output and conversions can fail."),
    "C14": ("seeded histories of evaluations, faults, other paths, caller mutations and thread schedules on built path closures",
            "Sampled pairs of vectors of dimension 2-6; tolerance 1e-7."),
    "C15": ("ensemble statistics over many independent simulated streams",
            "Fixed thresholds at about 7 standard errors on bounded statistics, so a false alarm is less likely than 1e-9 per check; deviations smaller than the thresholds are not seen."),
    "C16": ("seeded histories of figures, plot calls, numerical calls and drawing/showing failures on a headless backend behind a seam",
            "Sampled histories; artists on the current axes are compared with the data given."),
}
NA = {
    "C17": "pure functions of one matrix: no scheduling, time, I/O, randomness or fault for a simulator to decide; judged only incidentally as reference-model checks inside C10-C12",
    "C18": "algebraic identities of pure functions; nothing nondeterministic to control (the reference model checks them incidentally inside C10-C12)",
    "C19": "inequalities between pure functions of probability vectors; no schedule, fault or history enters (decomposition choice, where it does enter, is C09)",
    "C20": "linear-algebra identities of pure functions; no schedule, fault or history enters",
    "C21": "pure predicates on one matrix; no schedule, fault or history enters",
    "C22": "pure rounding and formatting of one value; no schedule, fault or history enters (output failures and settings are C13)",
}

checks, na = [], []
for pid, (tech, note) in CHECKS.items():
    if os.path.exists(os.path.join(HERE, "dst", "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "./check %s" % pid, "thorough_cmd": "./check %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": TECH + tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": pid, "reason": "check under construction"})
for pid, why in NA.items():
    na.append({"property": pid, "reason": why})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every seam lies at the boundary to numpy, scipy, networkx, matplotlib, stim, the standard library and the interpreter's line events."}, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks")
