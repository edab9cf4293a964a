#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/known_findings.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RK = ("Every recorded run is walked through by TLC step by step against the specification, which evaluates the formulas "
      "with 40 digits; the control flow (Stepper.tla) is explored exhaustively for small constants and its behaviours "
      "(accept / error reject / solver failure sequences) are forced onto the real integrators. ")
TR = "Trusted: the 40-digit arithmetic in Num.java, the recording harness, TLC. Runs are sampled (seeded), so it is exhaustive only for the abstract model. "
C = {
 "C01": ("TLA+ trace validation (RkTrace) of runs incl. all spec-generated accept/reject behaviours", RK + TR),
 "C02": ("TLA+ trace validation: every accepted step re-evaluated from the published tableau (Tableau.tla, RkStep.tla)", RK + TR),
 "C03": ("TLA+ trace validation: attempts reconstructed from the functor calls are actions of Stepper.tla", RK + TR),
 "C04": ("TLA+ trace validation: attempts reconstructed from Jacobian calls are actions of Stepper.tla", RK + TR),
 "C05": ("TLA+ trace validation: stage equations with the published tableau within the Newton tolerance", RK + TR),
 "C06": ("TLA+ trace validation: counters of the Stepper.tla state against the returned ones and the calls observed", RK + TR),
 "C07": ("TLA+ trace validation against Stepper.tla incl. spec-generated behaviours and unlimited reference runs", RK + TR),
 "C08": ("TLA+ trace validation; failure sequences generated from Stepper.tla are injected into the functor", RK + TR + "Termination is judged within a budget of functor calls and CPU time."),
 "C09": ("TLA+ trace validation of recorded and streamed output against a fully recorded reference run", RK + TR),
 "C10": ("TLC on CyclicBuffer.tla (exhaustive, small periods) and replay of its simulated behaviours in the real buffer", "Exhaustive refinement of the bounded-sequence view in the model for small periods; real code on generated histories. " + TR),
 "C11": ("TLA+ specification of merge (ApiTrace) evaluated on recorded merges", "Pairs of random, empty, failed and merged solution objects. " + TR),
 "C12": ("TLA+ specification of the registry (ApiTrace) evaluated on recorded query histories, also multi-threaded", "All codes and names and random unknown ones. " + TR),
 "C13": ("TLA+: tableaus, rooted-tree order conditions and simplifying assumptions evaluated by TLC on the exact tables", "Complete over the methods: every implemented method, every tree up to 6 (thorough: 9) nodes and every simplifying assumption. " + TR),
 "C14": ("TLA+: Lagrange-basis integrals evaluated by TLC on recorded interpolation matrices and weights", TR),
 "C15": ("TLA+ trace validation: Newton iteration as a state machine over the observed evaluations (NewtonTrace)", TR),
 "C16": ("TLA+ trace validation: Broyden iteration as a state machine over the observed evaluations (NewtonTrace)", TR),
 "C17": ("TLA+ trace validation: every point from the earlier ones, start-up against the Taylor flow (MsTrace, Flow)", TR),
 "C18": ("TLA+ trace validation: residual of the BDF equation at every point, start-up against the Taylor flow", TR),
 "C19": ("TLA+: central differences re-evaluated by TLC from the observed evaluations", TR),
 "C20": ("TLA+ specification of the expansion (ApiTrace) evaluated on recorded inputs and outputs", TR),
 "C21": ("TLA+ (Purity): result is a function of the call; simulated interleavings forced onto real threads, sequences, NDEBUG build", TR + "Interleavings are forced at functor calls; finer ones only by free-running threads."),
 "C22": ("TLA+ specification of the timer (ApiTrace) on recorded histories with a simulated clock", TR),
 "C23": ("TLA+ specification of the validators (ApiTrace) on enumerated shapes and matrices", TR),
 "C24": ("TLA+ trace validation: the lines written against the Reported attempts of Stepper.tla (RkTrace)", RK + TR),
 "C25": ("TLA+ specification of defaults and overloads (InterfaceTrace) evaluated on recorded structs and paired runs", "Defaults completely; overloads on sampled problems. " + TR),
 "C26": ("TLA+ specification of the printed forms (InterfaceTrace) against the exact tables of Tableau.tla", "All methods, statuses; sampled lists and times. " + TR),
 "C27": ("TLA+ specification of the adapters (InterfaceTrace) on recorded evaluations and paired runs", "Sampled functors and points. " + TR),
 "C29": ("TLA+ trace validation: tabulated values against the stability function of the tableau, solved in exact arithmetic (StabilityTrace)", "All methods; sampled grid points, all points of the list. " + TR),
 "C30": ("TLA+ trace validation: every stage iteration replayed from the calls of f and of its Jacobian (StageTrace)", RK + TR),
 "C31": ("TLA+ trace validation: the controller as part of the state, every attempted step against its proposal (StageTrace)", RK + TR),
 "C32": ("TLA+ trace validation: the messages of a run against how the abstract machine ended (RunLog)", "Messages are recognised by their wording. " + TR),
 "C33": ("TLA+ trace validation: reported times against a simulated clock that only evaluations advance (RunLog)", TR),
 "C28": ("TLA+ trace validation: reports against the observed iterates (NewtonTrace)", TR),
}
EXTRA = {}
try:
    from manifest_extra import C as EXTRA   # later properties
except ImportError:
    pass
C.update(EXTRA)
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert set(props) == set(C), set(props) ^ set(C)
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p, quick_cmd="python3 tools/check.py " + p,
                      thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + p,
                      technique=C[p][0], level="model_checking", level_note=C[p][1]) for p in props],
         not_applicable=[],
         notes="No hooks: the checks observe the library through its public API, the functor and the standard streams.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

F = []
D64 = "b2 0.0833333333 0.0833333333 0.4166666667 0.4166666667 gamma 0.0000000000"
for n in ("order condition of a tree with 2 nodes", "order condition of a tree with 3 nodes"):
    F.append(dict(property="C13", trace="irk231", clause="embedded method: " + n, detail=D64,
                  what="LOBATTO_IIIC_64: the embedded weights have order 1, not the declared 4 (" + n + ")"))
F.append(dict(property="C13", trace="irk231", clause="embedded weights integrate polynomials of degree below the order", detail=D64,
              what="LOBATTO_IIIC_64: the embedded weights do not integrate polynomials up to the declared order"))
F.append(dict(property="C13", trace="irk222", clause="embedded method is a different one",
              detail="b2 -0.4761904762 0.1384130237 0.2158726906 0.2438095238 0.2158726906 0.1384130237 0.0238095238 gamma 0.5000000000",
              what="LOBATTO_IIIA_127: the embedded formula is the main one (its error estimate is zero up to rounding)"))
F.append(dict(property="C19", trace="*", clause="verifier accepts a Jacobian that disagrees",
              what="verify_jacobi_matrix returns true for any Jacobian"))
fixed = """C21 0675ed1 FSAL helpers were defined more than once in static links
C23 38c9042 verify_solver_options was not defined with the signature it is declared with
C12 2406547 looking up an unknown method added it to the registry
C11 f1fcaef merge left the evaluation counters out
C06 cead7df status, elapsed_time, accept_frac and output_stream were not initialised
C10 37fad86 cyclic_buffer assignment did not compile
C10 9e49e6c cyclic_buffer::resize left an unusable buffer
C10 371a34c cyclic_buffer iterators did not visit the stored values from newest to oldest
C10 0c0c531 values written through cyclic_buffer::operator[] were lost at the wrap
C07 f510c31 one step more than max_steps was taken
C01 4d432b5 the last step missed the end time by rounding
C07 2332f16 max_dt did not limit the initial step
C09 ab5c5aa explicit methods wrote rejected attempts and ignored the output options
C08 e56c939 explicit methods accepted non-finite attempts and did not stop when the step vanished
C21 38e5bb9 the LU decomposition of the stage solver was part of an assertion
C05 35a61d4 refresh_jac = 0 divided by zero
C13 d03a1a6 orders of GAUSS_LEGENDRE_147, LOBATTO_IIIA_127 and unknown methods were not set
C05 c2c3766 implicit integration with a constant step size threw
C05 c09399e implicit methods returned zeros instead of the stages
C05 8b25dd4 implicit methods with a singular matrix threw
C08 f613a58 implicit methods accepted non-finite residuals, errors and states
C06 2294242 the failed attempt of a constant-step implicit run was not counted
C08 c81bbd6 implicit methods retried forever when the step vanished
C15 2e9af76 Newton convergence in the last allowed iteration was reported as a failure
C16 6946384 Broyden iteration moved farther than max_step
C16 8e2e913 Broyden iteration did not report non-convergence
C17 2d84290 Adams-Bashforth evaluated earlier points at the wrong times
C17 c284b98 multistep start-up values were copies of the initial value
C17 198aec9 Adams-Bashforth aborted on unsupported orders
C17 6341185 multistep methods ignored a failed start-up
C17 9ab4e87 Adams-Bashforth reported success with a non-finite solution
C13 77137dc embedded weights of RADAU_IIA_32
C13 39bd539 embedded weights of GAUSS_LEGENDRE_42 were swapped
C13 8828cd0 embedded weights of LOBATTO_IIIC_43
C08 5e462e6 implicit integration from t = 0 did not give up when the step vanished
C14 06c22ea interpolation weights of a single node were zero
C13 36a3172 embedded weights of LOBATTO_IIIC_85 were shifted by one stage
C15 942c3b4 Newton iteration took a step cut to max_step for convergence
C26 f220f02 the timing table showed a tenth of the times in seconds
C29 221ec5a the region of explicit methods was that of an empty tableau
C29 ebebb89 the weight gamma of embedded methods was left out
C29 9b27ae9 methods without embedded method and unknown names aborted the program
C29 e7c505e poles of the stability function aborted the program
C33 7a6054b the time of failed stage iterations was counted again""".split("\n")
try:
    from manifest_extra import FIXED, FINDINGS
    fixed += FIXED
    F += FINDINGS
except ImportError:
    pass
json.dump(dict(findings=F, fixed=["fixed: property=%s %s %s" % tuple(x.split(" ", 2)) for x in fixed]),
          open(os.path.join(here, "known_findings.json"), "w"), indent=1)
