"""Regenerates properties.jsonl (kept as code so that edits stay reviewable)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, **extra):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": dict({"files": files,
                               "mechanism": [{"name": n, "where": w}
                                             for n, w in mech]}, **extra)})


CL = "harold/_classes.py"
SF = "harold/_system_funcs.py"
DF = "harold/_discrete_funcs.py"
SO = "harold/_solvers.py"
TD = "harold/_time_domain.py"
FD = "harold/_frequency_domain.py"
FP = "harold/_frequency_domain_plots.py"
TP = "harold/_time_domain_plots.py"
AL = "harold/_aux_linalg.py"
PO = "harold/_polynomial_ops.py"
KO = "harold/_kalman_ops.py"
SC = "harold/_static_ctrl_design.py"
SP = "harold/_system_props.py"
BD = "harold/_bd_algebra.py"
AU = "harold/_arg_utils.py"

# ---------------------------------------------------------------- simulated
prop("C01", "Assigning to a model attribute is all-or-nothing",
     "Assigning to any data attribute of a State or Transfer model (a, b, c, "
     "d, num, den, SamplingPeriod, DiscretizedWith, DiscretizationMatrix, "
     "PrewarpFrequency) either takes full effect or leaves everything "
     "observable about the model exactly as it was. "
     "When the value is rejected the model is unchanged. "
     "When a numerical routine or a memory allocation fails during the "
     "assignment, or the assignment is interrupted, the model is afterwards "
     "wholly the old one or wholly the new one, never a mixture.",
     ["crash_points", "fault_sequences", "histories", "inputs"],
     "Every history of assignments (valid, invalid, non-finite values) on "
     "every kind of model, with a failure injected at any call made while "
     "an assignment is in progress.",
     "The tests assign a handful of good values and a few wrong shapes and "
     "look at the exception only; no test fails a numerical kernel or "
     "interrupts an assignment, and none looks at the model afterwards.",
     [CL],
     [("setters validate first, then store and recompute", CL + ":258-345"),
      ("State setters", CL + ":1807-1908"),
      ("recomputation of poles, zeros, stability", CL + ":347-383,1910-1927")],
     observe_at=["model attributes and analysis results after the failed "
                 "assignment"], hook_needed=None)

prop("C02", "A model always agrees with the data it currently holds",
     "After any history of accepted, rejected and failed assignments, a "
     "model's poles, zeros, sizes, sampling information, static-gain status "
     "and printed summary, and the result of every analysis function on it, "
     "equal those of a new model constructed from the same data and sampling "
     "period. "
     "The stored data and the discretization record (method, matrix, prewarp "
     "frequency) equal the last accepted assignments.",
     ["histories", "fault_sequences", "inputs"],
     "Every sequence of attribute assignments, failures in the middle of "
     "them, and model-producing calls between them.",
     "The tests build a model and look at it; at most one assignment is "
     "followed by one look, so stale derived data after two or more steps, "
     "or after a failed step, is out of reach.",
     [CL, SF],
     [("recomputation after each assignment", CL + ":347-383,1910-1927"),
      ("sampling period setter", CL + ":258-273,1851-1866")],
     state=[{"name": "poles, zeros, stability and gain flags",
             "meaning": "derived data cached on the model",
             "where": CL + ":347-383"}],
     observe_at=["poles, zeros, repr, system_norm, dcgain, "
                 "frequency_response, simulate_*, to_array, arithmetic"],
     hook_needed=None)

prop("C03", "No call ever modifies the arguments it was given",
     "No public function, method, operator or constructor changes the models, "
     "arrays, lists or dictionaries passed to it, whatever their memory "
     "layout and number type. "
     "This also holds when the call rejects its arguments, when a numerical "
     "routine or an allocation fails part-way, and when it is interrupted at "
     "any point.",
     ["crash_points", "fault_sequences", "inputs"],
     "Every public call, every memory layout (C order, Fortran order, "
     "strided view, list) of its arguments, and a failure at any call made "
     "while it runs.",
     "The tests compare return values and never look at the arguments "
     "again; in-place kernels only hit Fortran ordered input, which no test "
     "passes, and no test stops a call half-way.",
     [CL, SF, SO, DF, TD, FD, FP, TP, AL, PO, KO, SC, SP, BD],
     [("arguments are copied before work", CL + ":(validate_arguments)"),
      ("overwrite flags handed to LAPACK", SO + ":(qz calls)"),
      ("default keyword handling of the plots", FP + ":(gridspec_kw)")],
     observe_at=["arguments before and after the call"], hook_needed=None)

prop("C04", "Models own their data; nothing done elsewhere changes a model",
     "A model changes only through assignments to its own attributes or "
     "in-place edits of the arrays handed out by its own data attributes. "
     "Later changes to the arrays and lists it was built from, to other "
     "models derived from it or that it was derived from, or to arrays "
     "returned by library calls on it, never show up in it. "
     "Time vectors returned by the simulation functions are likewise "
     "independent of the ones passed in.",
     ["histories", "inputs"],
     "Every interleaving of building models from caller-owned arrays, "
     "deriving models and arrays from models, and in-place edits of any of "
     "the other parties.",
     "Aliasing is invisible to single-call tests: it takes a construction, a "
     "later write by some other party and a look at the first model.",
     [CL, SF, DF, TD],
     [("constructors copy their input", CL + ":(validate_arguments)"),
      ("results are freshly allocated", CL + ":(to_array, "
       "concatenate_state_matrices), " + TD)],
     observe_at=["model attributes after edits of other objects"],
     hook_needed=None)

prop("C05", "Concurrent callers get the results a lone caller would get",
     "Threads that concurrently run analysis, conversion, arithmetic and "
     "construction calls, on models they share but do not assign to and on "
     "models of their own, get exactly the results the same calls return "
     "when run alone, under every interleaving. "
     "An exception or interrupt in one thread changes no other thread's "
     "results, and every thread finishes.",
     ["schedules", "fault_sequences", "inputs"],
     "Every interleaving of the line steps of two or more library calls, "
     "with interrupts of any of them at any step.",
     "No test starts a thread; even a test that did would see one schedule "
     "chosen by the operating system and could not repeat it.",
     [CL, SF, SO, DF, FD, TD, AU],
     [("no module-level scratch state; work arrays are per call",
       SO + ":(mat33, mat44)"),
      ("warning handling", CL + ":3211, " + DF + ":376,469, " + SF +
       ":547,570")],
     observe_at=["return values per thread", "termination of all threads"],
     hook_needed=None)

prop("C06", "Process-wide settings are left as they were found",
     "Whatever the library is asked to do, once the calls in progress have "
     "ended, process-wide settings are as before: warning filters and "
     "display hooks, NumPy error and print settings, plotting defaults, "
     "environment, working directory, standard streams and signal handlers. "
     "This holds for calls that succeed, are rejected, fail part-way or are "
     "interrupted, and for any interleaving of calls in several threads.",
     ["schedules", "crash_points", "fault_sequences"],
     "Every interleaving of calls from several threads and every failure "
     "point inside them.",
     "Tests are single threaded and run under a runner that replaces the "
     "warning machinery for every test, so a leaked filter cannot be seen.",
     [CL, SF, DF, FP, TP, AU],
     [("scoped warning suppression", CL + ":3211, " + DF + ":376,469, " + SF +
       ":547,570"),
      ("scoped error state", FD + ":(errstate)")],
     state=[{"name": "warnings.filters",
             "meaning": "process-wide, saved and restored by each scoped "
                        "suppression", "where": CL + ":3211"}],
     observe_at=["warnings.filters, showwarning, np.geterr, printoptions, "
                 "rcParams, os.environ, cwd, streams, signal handlers"],
     hook_needed=None)

prop("C07", "Model reduction gives the right answer for every random draw",
     "For every state of the random number generator, minimal realization "
     "returns a model with the true minimal number of states, the same "
     "sampling period and the same input-output behaviour, and the DC gain "
     "and the frequency response with reduction requested equal the true "
     "values. "
     "The bounds reported for the distance to the nearest uncontrollable or "
     "unobservable system are ordered, and enclose the true distance, for "
     "every draw.",
     ["schedules", "inputs", "histories"],
     "Every stream of random numbers consumed by the calls, every position "
     "in that stream, and every model with well separated modes.",
     "The tests run each case with one unfixed draw; a result that is wrong "
     "for some draws shows up as an unrepeatable failure or not at all.",
     [SF, FD],
     [("random extension of the controllability pencil",
       SF + ":(cancellation_distance)"),
      ("staircase reduction until the distance exceeds the tolerance",
       SF + ":(_minimal_realization_state)")],
     observe_at=["minimal_realization, dcgain, frequency_response, "
                 "cancellation_distance"], hook_needed=None)

prop("C08", "A result depends only on the arguments, not on earlier calls",
     "Every library call returns, whatever calls ran earlier in the process, "
     "the same values, the same kind of exception and the same warnings as "
     "when it is the first call in a fresh process. "
     "Earlier calls include ones that were rejected, that failed part-way or "
     "were interrupted, and the same call retried after a failure.",
     ["histories", "fault_sequences", "crash_points"],
     "Every history of successful, rejected, failed and interrupted calls "
     "before the call, and every failure point inside them.",
     "The tests run in one fixed order with no failures in between, so each "
     "call sees the same short, clean history every time.",
     [CL, SF, SO, DF, FD, TD, AL, PO, KO, SC, SP, BD],
     [("no caches, no module-level work arrays, no mutable defaults",
       "harold/*.py")],
     observe_at=["return values, exceptions and warnings vs. a fresh "
                 "process"], hook_needed=None)

prop("C09", "A failing numerical kernel never turns into a wrong answer",
     "When an eigenvalue, Schur, QZ, singular value or least squares routine "
     "fails to converge, memory runs out, or an interrupt arrives, at any "
     "point inside a library call, that call either raises an exception or returns the answer it "
     "returns without the failure. "
     "It never returns a different answer as if nothing had happened.",
     ["fault_sequences", "crash_points", "inputs"],
     "Every numerical routine invocation or allocation point inside every "
     "public call, failing once.",
     "Kernels do not fail on the small well-behaved examples in the tests, "
     "so no error path behind a kernel has ever run.",
     [CL, SF, SO, DF, FD, TD, AL, KO, SC, SP],
     [("except clauses around numerical work", SF + ":(dcgain), " + DF +
       ", " + CL)],
     observe_at=["return value or exception of the faulted call"],
     hook_needed=None)

prop("C10", "Each plot call draws its own figure and nothing else",
     "A successful plot call opens exactly one new figure whose axes, curves "
     "and labels depend only on the arguments, not on figures, current axes "
     "or plot calls that came before. "
     "Figures that already exist keep their content, and plotting defaults "
     "and the arguments stay untouched, also when a plot call is rejected, "
     "fails part-way or is interrupted.",
     ["histories", "crash_points", "fault_sequences"],
     "Every history of plot calls of the four kinds, user figure and axes "
     "actions between them, and failures at any point in a plot call.",
     "The tests contain no plot call at all.",
     [FP, TP],
     [("each call creates its own figure and axes grid",
       FP + ":(subplots), " + TP + ":(subplots)")],
     observe_at=["pyplot figure registry, artists of every open figure"],
     hook_needed=None)

prop("C11", "A saved or copied model is the same model and independent",
     "At any point of any history, a model that is pickled and restored "
     "(also in another process), or deep-copied, is indistinguishable from "
     "the original, including its discretization record. "
     "Afterwards the two evolve independently: continuing the history on the "
     "restored model has the same outcome as continuing on the original, and "
     "neither sees changes made to the other.",
     ["histories", "crash_points"],
     "Every history of assignments with checkpoints, process crashes and "
     "restores at any step between them.",
     "The tests never pickle a model and never continue with a copy.",
     [CL],
     [("models are plain attribute holders", CL + ":30-73,1602-1638")],
     observe_at=["restored model vs. a twin that never crashed"],
     hook_needed=None)

prop("C12", "Random models honour their specification for every random draw",
     "For every state of the random number generator a random state model "
     "has the requested sizes and sampling period, is stable when stability "
     "is requested, and contains no pole of a kind whose probability is zero "
     "except for at most one real pole filling a slot nothing permitted "
     "fits. "
     "The model is fully determined by the state of the NumPy global "
     "generator, so that seeding reproduces it.",
     ["schedules", "inputs", "configurations"],
     "Every stream of random numbers, every size, sampling period and "
     "probability assignment.",
     "One test draws five models from one seed.",
     [CL],
     [("pole type selection loop and remainder filling",
       CL + ":(random_state_model)")],
     observe_at=["the returned model"], hook_needed=None)

# ------------------------------------------------------------ pure functions
PURE = "Sampled at a few fixed examples by the tests."
prop("C13", "Model arithmetic agrees with arithmetic of transfer functions",
     "Sum, difference, product, quotient, matrix product and slicing of "
     "models of either representation equal, at every complex frequency, the "
     "same operation on the evaluated transfer matrices, and keep the "
     "sampling period.",
     ["inputs"], "Every pair of compatible models, gains and arrays.",
     PURE, [CL], [("operator methods", CL)])
prop("C14", "Conversion between representations preserves behaviour",
     "Converting a model between state and transfer representation preserves "
     "its input-output behaviour and sampling period.",
     ["inputs"], "Every model.", PURE, [CL],
     [("state_to_transfer, transfer_to_state", CL)])
prop("C15", "Discretization and its inverse are faithful",
     "Discretization maps a continuous model to the discrete model its "
     "method defines, records the method, and undoing it with the recorded "
     "method returns the original model.",
     ["inputs", "configurations"], "Every model, sampling period and method.",
     PURE, [DF], [("discretize, undiscretize", DF)])
prop("C16", "Time simulation solves the model equations",
     "Simulated step, impulse and general responses are the solution of the "
     "model equations at the returned time points.",
     ["inputs"], "Every model, input signal and initial condition.",
     PURE, [TD], [("simulate_linear_system", TD)])
prop("C17", "Frequency response equals evaluation on the frequency axis",
     "The frequency response equals the transfer matrix evaluated on the "
     "imaginary axis or unit circle at the returned frequencies.",
     ["inputs"], "Every model and frequency grid.", PURE, [FD],
     [("frequency_response", FD)])
prop("C18", "Feedback returns the closed loop",
     "Feedback interconnection returns the closed loop of its operands with "
     "the requested sign, or an error if the loop is ill-posed.",
     ["inputs"], "Every compatible pair of models.", PURE, [BD],
     [("feedback", BD)])
prop("C19", "Lyapunov solutions satisfy their equation",
     "Solutions of the continuous and discrete, ordinary and generalized "
     "Lyapunov equations satisfy the equation to working precision.",
     ["inputs"], "Every solvable set of coefficients.", PURE, [SO],
     [("lyapunov_eq_solver", SO)])
prop("C20", "Designed feedback gains do what was asked for",
     "LQR gains stabilize and minimise the cost; pole placement puts the "
     "closed loop poles where requested.",
     ["inputs"], "Every stabilizable/controllable model and valid weights.",
     PURE, [SC], [("lqr, ackermann", SC)])
prop("C21", "Poles and transmission zeros are the true ones",
     "Reported poles and transmission zeros are exactly the points where the "
     "model loses rank or has no finite value.",
     ["inputs"], "Every model.", PURE, [CL],
     [("transmission_zeros", CL)])
prop("C22", "Structural decompositions are similarity transformations",
     "Staircase, Hessenberg and Kalman decompositions return forms similar "
     "to the input with the promised zero structure, and the controllability "
     "and observability verdicts are right.",
     ["inputs"], "Every well conditioned model.", PURE, [SF, KO],
     [("staircase, hessenberg_realization, kalman_decomposition", SF)])
prop("C23", "Polynomial arithmetic is exact up to rounding",
     "Least common multiple, greatest common divisor, sums, products and "
     "divisions of polynomials satisfy their defining identities.",
     ["inputs"], "Every set of real polynomials.", PURE, [PO],
     [("harold polynomial functions", PO)])
prop("C24", "Malformed input is refused with an explanation",
     "Shapes, types and values that make no sense raise a ValueError, "
     "TypeError or IndexError with an explanation and never return a model.",
     ["inputs"], "Every malformed argument combination.", PURE,
     [CL, AU, DF, TD], [("argument validation", CL)])
prop("C25", "System norms are the true norms",
     "The H2 and H-infinity norms equal their definitions; unstable models "
     "have infinite H2 norm.",
     ["inputs"], "Every model.", PURE, [SP], [("system_norm", SP)])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
