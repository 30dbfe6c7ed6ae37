"""C09 State measures do not depend on which decomposition the backend picks."""
from . import c08

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 10000, "thorough": 60000}
LISTS = ("calls",)
RULE = ("A run evaluates 1-6 measures (covariance distribution, FAF, stabilizer distribution, SRE, trace distance, determinant by eigenvalues, completed "
        "bases) on random mixed, pure, diagonal, stabilizer, Gaussian and low-rank states in matrix, wave-function, column and probability form of up to 4 "
        "qubits, while the decompositions beneath are permuted, rephased, rotated within degenerate spaces and rounded, or fail at a chosen call; values "
        "are compared with the defining formulas. Non-trivial: a substituted decomposition or a backend failure; distinct by event log.")
REAL = c08.REAL
STUBS = c08.STUBS
ASSUMPTIONS = ["tolerances 1e-8 to 1e-6 relative"]
NAMES = ["cov_distribution", "FAF", "stabilizer_distribution", "SRE", "trace_distance", "dt_eigen", "get_orthogonal_vectors"]
simplify = c08.simplify
run = c08.run


def gen(r, tier, index):
    return {"calls": c08.gen_calls(r, NAMES, 4, 0.15)}
