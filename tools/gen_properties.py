"""Writes /verif/properties.jsonl (kept as a script so the texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
LIB="src/ff/ff_lib.py"; RS="src/ff/ff_random_states.py"; GT="src/ff/ff_graph_theory.py"; UT="src/ff/ff_utils.py"; DM="src/ff/ff_distance_measures.py"; CO="src/ff/ff_combinatorics.py"
RNG=("process-wide random streams","numpy.random's global stream and Python's random module, shared by every caller in the process","numpy.random / random")
p("C01","Seeded random generation is a function of the arguments and the seed",
 "Every generator of random states, rotations, Hamiltonians or planar graphs that accepts a seed returns, for every integer seed including 0, the same object whatever was drawn, reseeded, called, failed or interrupted earlier in the process, at whatever clock time, and in a fresh process. Two different seeds give different objects (for the generators with continuous outcomes).",
 ["histories","fault_sequences","configurations"],"all generators and option combinations, all seeds in [0, 2^32-2], all histories of other random activity, failed and interrupted calls before the seeded call, fresh processes with any hash seed",
 "tests call each generator twice in a row with seed 42 or 123 and compare; they never use seed 0, never interleave other random activity, failures or interruptions, and never compare across processes.",
 [LIB,RS,GT],[("seeding of the global stream on entry","random_FF_rotation, random_FF_state, random_H_generator (ff_lib); all of ff_random_states; generate_random_planar_graph")],[RNG],["return values of the generators"])
p("C02","Unseeded generation draws only from the shared random streams",
 "Called without a seed, every generator (other than the external Clifford sampler) takes all its randomness from the process-wide stream that users seed themselves (numpy's global stream; Python's for planar graphs), so seeding once replays any whole sequence of calls exactly, and successive unseeded calls return fresh values and never reset the stream. Functions that are not random generators neither read nor disturb those streams.",
 ["histories","fault_sequences"],"all sequences of unseeded and seeded generator calls, user draws, deterministic calls and failing or interrupted calls after a user seeds the streams",
 "the tests seed once and draw once; no test replays a sequence of calls, nor checks the streams after deterministic functions.",
 [LIB,RS,GT,UT],[("draws from numpy.random / random without private streams","all generators")],[RNG],["return values","numpy.random.get_state()","random.getstate()"])
p("C03","Random quantum objects are valid members of their class for every draw",
 "Whatever values the random source delivers, each random-state generator returns a finite, normalised object of the documented shape and class: density matrices are Hermitian and positive, free-fermion pure and thermal states are Gaussian with definite parity symmetry (Wick's theorem holds), fixed-particle-number states commute with the number operator, a requested particle number fixes the parity, Clifford states are stabilizer states, rotations are free-fermion unitaries with proper orthogonal action, and Hamiltonians are Hermitian quadratic forms.",
 ["inputs","fault_sequences"],"all outcomes of the random source, including unlikely ones (zeros, ties, near-degenerate, tails), all sizes and options",
 "tests look at one or two seeds per generator and mostly check shape, norm and trace; Gaussianity, parity, the sectors of options and rare draws are not reached.",
 [LIB,RS],[("symplectic rotation from a special orthogonal draw","random_FF_rotation"),("thermal state of a quadratic operator","random_FF_state, random_FF_state_randH"),("vacuum projection and creation operators","random_FF_pure_state_CN, random_FF_pure_state_WN")],[RNG],["return values of the generators"])
p("C04","Objects returned together come from the same draw",
 "When a generator is asked for its generator matrix, orbital rotation or spectrum along with, or instead of, the state, the returned objects describe one and the same random draw, seeded or not: the pure state is the returned generator's evolution of the vacuum, the thermal state is a Gibbs state of the returned generator at some positive inverse temperature, the rotated mixture has the returned spectrum in matching parity sectors, and for one seed the rotation, its generator and its orbital matrix represent the same transformation. Asking for the extra object does not change the state obtained for a given seed.",
 ["histories","inputs"],"all seeds and unseeded stream states, sizes, option combinations and preceding random activity",
 "tests that use the optional return values check only shapes and Hermiticity.",
 [LIB,RS],[("returnH / returnOrb / returnS branches","random_FF_state, random_FF_rotation, random_FF_state_rotPDF")],[RNG],["tuples returned by the generators"])
p("C05","Rejection sampling is bounded and yields only valid samples",
 "For every behaviour of the random source the random planar graph generator finishes after a bounded number of attempts and returns either a simple connected planar graph on the requested nodes or nothing, and it does return a graph when the source behaves fairly while attempts remain. Random bit strings have exactly the requested length and weight, for every outcome of the source, and nothing is returned for an impossible weight.",
 ["fault_sequences","inputs"],"all random streams, including ones biased towards rejected samples for any number of attempts and then fair",
 "tests use one fair seed; the retry loop's rejections and exhaustion are never exercised.",
 [GT,UT],[("bounded retry loop","generate_random_planar_graph"),("choice without replacement","generate_random_bitstring")],[RNG],["return values"])
p("C06","Perfect-matching counts depend only on the graph, not on its history",
 "After any history of adding, removing, relabelling and reweighting nodes and edges, the perfect-matching count of a graph equals the sum over its perfect matchings of the product of positive edge weights, planar or not, connected or not, and whatever tie-breaking the graph algorithms beneath it use; the explicit enumeration lists each perfect matching exactly once. Queries leave the graph unchanged, and a query that was interrupted or could not print does not affect later ones.",
 ["histories","schedules","fault_sequences"],"all construction histories of simple graphs with positive weights, all hashable node labels, all legal iteration orders, spanning trees and embeddings chosen below, interruptions and output failures during queries (enumeration limited to 15 nodes)",
 "tests count matchings of a dozen fixed graphs whose nodes are inserted in sorted order 0..n-1; construction order, labels, components, weights and traversal choices are never varied.",
 [GT,CO],[("FKT orientation and determinant","count_perfect_matchings_planar, pfo_algorithm"),("enumeration","find_perfect_matchings_brute, count_perfect_matchings")],None,["return values"])
p("C07","Planar faces, dual tree and orientation are valid under every traversal",
 "For every connected planar graph and every legal choice of embedding, spanning tree and iteration order, the traced faces use each edge exactly once per direction and obey Euler's formula, the dual graph of the non-tree edges is a spanning tree of the faces, and the Pfaffian orientation orients exactly the edges of the graph so that all faces but at most one have an odd number of edges against the traversal and all perfect matchings get the same sign. Completing a face changes only its one unassigned edge, and tree depth is the eccentricity of the first node.",
 ["schedules","histories"],"all connected simple planar graphs, all embeddings, spanning trees and set-iteration orders, all orders of completing faces",
 "tests only assert that an orientation matrix is returned or that one face count matches Euler's formula.",
 [GT],[("face tracing","faces"),("dual tree","dual_graph_H"),("leaf-to-root completion","pfo_algorithm, complete_face")],None,["return values of faces, dual_graph_H, pfo_algorithm, complete_face, compute_tree_depth"])
p("C08","Symplectic diagonalisation holds for every legal backend answer or fails",
 "For every well-formed quadratic Hamiltonian, including degenerate ones and ones with zero modes, and for every decomposition the numerical backend may legally return (any block order, sign, phase or basis of degenerate spaces), each symplectic or Majorana diagonaliser returns a transformation that is unitary or orthogonal, has its documented structure, and brings the input to its documented eigenvalue form. If the backend fails the call raises; it never returns a wrong decomposition, and the next call is unaffected.",
 ["inputs","fault_sequences"],"all Hermitian A and antisymmetric B or Z blocks up to moderate norm, all legal Schur and eigenvalue decompositions, backend failures at every call",
 "tests diagonalise a few random generic matrices with the one answer the installed LAPACK gives; degenerate spectra with other legal orderings and backend failures cannot be produced by them.",
 [LIB],[("real Schur form sorted with zero modes last, reordered and rotated","eigh_sp, eigm_sp_can"),("wrappers","eigv_sp, eigm_sp"),("lifts","generate_gaussian_state")],None,["return values"])
p("C09","State measures do not depend on which decomposition the backend picks",
 "Fermionic covariance distribution and anti-flatness, stabilizer distribution and entropy, trace distance, determinant by eigenvalues and completed orthonormal bases equal their defining formulas on every valid state, vector or matrix for every legal answer of the numerical backend (ordering, sign, phase, last-digit rounding). When the backend fails, the call raises or gives the documented empty answer rather than a number, and later calls are unaffected.",
 ["inputs","fault_sequences"],"all valid density matrices, wave functions and probability vectors up to 4 qubits, all legal decompositions, backend failures at every call",
 "tests evaluate the measures on a handful of states with one LAPACK and never with a failing or differently ordering backend.",
 [DM,CO,RS],[("squared Schur entries","cov_distribution, FAF"),("Pauli expectations","stabilizer_distribution, SRE"),("eigenvalue sums and products","trace_distance, dt_eigen"),("QR completion","get_orthogonal_vectors")],None,["return values"])
p("C10","Concurrent callers get the results they would get alone",
 "When several threads use the library at the same time, on separate or shared input objects, every call of a deterministic function returns the documented function of its own arguments, and every seeded generator call returns what it returns alone, under every interleaving. Every call finishes, shared inputs are never modified, and no call fails because of another.",
 ["schedules","histories"],"all interleavings of calls made by several caller threads, at the granularity of single source lines",
 "all tests are single-threaded.",
 [LIB,CO,GT,UT,DM,RS],[("no shared mutable state other than the random streams","all modules")],[RNG],["return values and exceptions of each thread"])
p("C11","A fault during a call never yields wrong data or poisons later calls",
 "If a call is hit by an interruption, an allocation failure, a numerical backend failure or an output-stream failure at any point, it either raises or returns its correct result (an eigenvalue determinant may report a failed decomposition as nothing). Its arguments and previously returned objects stay intact, global settings of the process are as before, and every later call gives correct results.",
 ["fault_sequences","crash_points","histories"],"all single and repeated faults at every source line and every backend, allocation and output call of a call, in every sequence of calls",
 "no test injects a fault.",
 [LIB,CO,GT,UT,DM,RS],[("computation on fresh local objects, no retained state","all modules"),("LinAlgError handling","dt_eigen")],None,["return values, exceptions, arguments after the call, numpy and matplotlib settings"])
p("C12","Arguments and results belong to the caller",
 "Apart from face completion, whose purpose is to update its orientation matrix, no function modifies the arrays, lists or graphs passed to it. Objects returned to the caller are never changed by later calls, and whatever the caller does to objects it passed or received never changes the result of any later call.",
 ["histories"],"all sequences of calls to the public functions mixed with arbitrary in-place changes by the caller to its arguments and to results it received",
 "tests use each input and each result once and never modify a result before calling again.",
 [LIB,CO,GT,UT,DM,RS],[("copies before modification; nothing cached","clean, kron_plus, rotate_operators, build_*, jordan_wigner_*, cast_to_*")],None,["arguments and retained results after every call"])
p("C13","Printing never changes numpy's print settings or the printed object",
 "Custom printing with any precision leaves the process's numpy print settings exactly as they were, whether it succeeds, the object cannot be converted, or the output stream fails or is interrupted at any write, and also with several threads printing at once. What is printed depends only on the object, the precision and the user's other print settings, the printed object is unchanged, and later prints are unaffected.",
 ["fault_sequences","schedules","histories"],"all printable objects and precisions, all prior print settings, faults at every output write and conversion, interleavings of printing threads",
 "tests print a few arrays to a working stream and do not look at the settings under failure or concurrency.",
 [UT],[("try/finally around the precision setting","_print, print_custom")],[("numpy print options","precision and other settings","numpy")],["numpy.get_printoptions()","captured output"])
p("C14","Interpolation paths are fixed once built",
 "A path built between two vectors starts at the normalised first vector, ends at the normalised second, has unit norm at every parameter value, and for the unitary path moves at constant speed. Evaluations give the same vector for the same parameter in any order, any number of times, from any thread, after failed or interrupted evaluations, whatever other paths are built, and whatever the caller later does to the vectors it passed in or received.",
 ["histories","schedules","fault_sequences"],"all pairs of non-antiparallel nonzero vectors of dimension at least 2, all histories of evaluations, caller mutations, interruptions and interleavings",
 "tests evaluate a path at a few fixed parameters right after building it.",
 [RS],[("captured normalised copies and Hermitian generator","build_unitary_path, build_linear_path, get_orthogonal_vectors")],[("closure state","normalised end points and generator held by the returned path","build_unitary_path, build_linear_path")],["values of the path"])
p("C15","Random draws follow their documented ensembles",
 "Over many unseeded calls the generators reproduce the documented distributions: Haar-random complex qubit states, orthogonal-group-random fermion rotations and the states rotated by them, Dirichlet spectra, standard-normal real and imaginary Hamiltonian entries, uniformly chosen particle numbers, bit strings uniform over the requested weight, and planar graphs in which no node label is favoured. Every documented outcome remains reachable.",
 ["inputs","histories"],"the distribution over all streams of the random source, estimated over many independent simulated streams",
 "tests never look at more than two samples of a generator.",
 [LIB,RS,UT,GT],[("scipy.stats.special_ortho_group / unitary_group, numpy dirichlet, randn, randint, choice","generators")],[RNG],["empirical moments of return values"])
p("C16","Plotting helpers only draw: data and global plot settings are untouched",
 "The plotting helpers draw the data they were given (edge weights, orientation, populations), return the graph they describe where documented, and never modify their inputs, the process-wide plot configuration or figures other than the current one, for any history of figures and even if showing or drawing fails part-way; the next plot is then correct. Numerical functions called without their verbose option never open or draw on a figure.",
 ["histories","fault_sequences"],"all sequences of plotting and numerical calls, user figure operations and drawing or showing failures",
 "tests patch away the display and check that plotting raises nothing.",
 [GT,UT],[("drawing on the current axes of pyplot","plot_graph_with_edge_weights, plot_planar_embedding, analyze_pdf, pfo_algorithm(verbose)")],[("pyplot state","figures, current axes, rcParams","matplotlib")],["artists on the current axes","matplotlib.rcParams","plt.get_fignums()"])
# pure functions: written down for completeness, not decidable by this family
p("C17","Pfaffian, hafnian, permanent and determinant equal their definitions",
 "For every square matrix the combinatorial functions equal their defining sums, and hence obey pf(A)^2 = det(A) for antisymmetric A and agree with each other.",
 ["inputs"],"all square matrices of feasible size","tests use a few small matrices",[CO],[("permutation sums","pf, hf, pt, dt, sgn")])
p("C18","Jordan-Wigner operators satisfy the canonical anticommutation relations",
 "For every number of sites the Jordan-Wigner operators and every symplectic rotation of them satisfy the canonical anticommutation relations, and quadratic lifts, covariance and correlation matrices agree with their definitions.",
 ["inputs"],"all sizes, coefficient matrices and states","tests use up to four sites and few matrices",[LIB],[("tensor products","jordan_wigner_lowering, build_op, compute_2corr_matrix")])
p("C19","Entropies and distances satisfy their defining inequalities",
 "Entropies, divergences and distances between probability vectors obey their bounds, symmetries and monotonicities (non-negativity, Jensen-Shannon at most log 2, Renyi entropies decreasing in the order, triangle inequality) and vanish exactly on equal inputs.",
 ["inputs"],"all pairs of distributions or states","tests use a handful of distributions",[DM],[("formulas","renyi_entropy, relative_entropy, jensen_shannon_divergence, total_variation_distance")])
p("C20","Partial traces and direct sums satisfy their algebraic identities",
 "Both partial traces preserve the trace, are linear, and invert tensor products with normalised factors; direct sums place both matrices in diagonal blocks.",
 ["inputs"],"all matrices and divisors","tests use a few sizes",[UT],[("block sums","partial_trace_diagblocksum, partial_trace_blockTr, kron_plus")])
p("C21","Structural predicates accept exactly the matrices of their class",
 "The predicates for symplectic, matchgate and canonical-form matrices return true exactly on matrices of that class up to rounding.",
 ["inputs"],"all matrices","tests check a few members and non-members",[LIB],[("allclose comparisons","is_symp, is_matchgate, check_canonical_form")])
p("C22","Cleaning and formatting round values without changing their meaning",
 "Cleaning rounds each number to the requested digits, maps values below the threshold to zero and drops a negligible imaginary part; formatted output parses back to the rounded number.",
 ["inputs"],"all numbers, arrays, lists and thresholds","tests use a few values",[UT],[("rounding","clean, formatted_output")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
