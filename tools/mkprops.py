#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = obs or ["public API: returned structs, calls made to the user's functor"]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p("C01", "Runge-Kutta trajectories cover exactly the requested interval",
  "With every step recorded, a Runge-Kutta integration (explicit or implicit, fixed or adaptive) returns a trajectory that starts at exactly the given start time and initial state, has strictly increasing times none of which exceeds the end time, and keeps times, states, stages, error vectors and error norms aligned one to one. Every recorded state is that of the recorded time: a component whose derivative is constant has the value it has at that time. "
  "When it reports success the last recorded time is exactly the end time. When it reports an error, everything recorded is still a prefix that satisfies the same rules.",
  ["inputs", "configurations", "histories"],
  "every method, right-hand side, interval (any sign and magnitude of the times), initial step (also larger than the interval), tolerance, step limit and accept/reject history",
  "The tests integrate four problems on [0, x] with the default options and look at a final value; no test compares the last time with the end time, uses a negative or large start time, or checks alignment of the arrays.",
  ["erk.hpp", "irk.hpp", "output.hpp"],
  [("clamping of the last step and the t < t1 loop", "erk.hpp erk_guts, irk.hpp irk_guts"), ("push_back of a row per accepted step", "erk.hpp erk_guts, irk.hpp irk_guts")],
  [("t, y, dt", "current time, state and step", "erk_guts/irk_guts locals")])

p("C02", "Explicit Runge-Kutta steps follow the method's formula exactly",
  "Every accepted step of an explicit method is y_new = y + dt*sum(b_i k_i) with k_i = f(t + c_i*dt, y + dt*sum_{j<i}(a_ij k_j)) computed from the state and time the step starts at, where (a, b, c) are the published coefficients of the selected method, up to rounding. "
  "The stage values returned with the step are those k_i, and the returned error vector of an adaptive step is dt*sum((b2_i - b_i) k_i). "
  "This holds in particular for methods whose first stage is the last stage of the step before, whatever mix of accepted and rejected attempts came before.",
  ["inputs", "configurations", "histories"],
  "every explicit method, right-hand side (autonomous or not, any dimension), step size and history of accepted/rejected attempts",
  "The suite runs no explicit integration at all; the drivers only plot results.",
  ["erk.hpp", "erk.cpp"],
  [("stage loop", "erk.hpp erk_guts"), ("first-same-as-last reuse", "erk.hpp apply_fsal/erk_guts"), ("coefficient tables", "erk.cpp get_coefficients")],
  [("Ks", "stage matrix, its first column is carried over by FSAL methods", "erk.hpp erk_guts")])

p("C03", "Explicit adaptive stepping obeys the error test and the step controller",
  "In an adaptive explicit integration an attempt is accepted exactly when its error norm, the root mean square of error_i/(abs_tol + rel_tol*max(|y_i|,|y_new,i|)), is below 1; a rejected attempt leaves time, state and recorded output untouched and is retried from the same state with a strictly smaller step. "
  "The step proposed after an attempt is 0.9*dt*min(4, norm^(-1/(q+1))) with q the lower order of the pair, limited by the maximum step and by the distance to the end time. "
  "The norm reported with a step is that norm.",
  ["inputs", "configurations", "histories"],
  "every embedded explicit method, tolerance pair, right-hand side and accept/reject history",
  "No test runs an explicit method adaptively; acceptance and step growth are internal decisions that a final-value comparison cannot see.",
  ["erk.hpp"],
  [("error norm, acceptance, controller", "erk.hpp erk_guts")],
  [("err, dt", "scaled error norm and step size", "erk.hpp erk_guts")],
  ["returned structs, functor calls, progress lines on the error stream"])

p("C04", "Implicit adaptive stepping obeys the error test and bounded step changes",
  "In an adaptive implicit integration every recorded step has a reported error norm at most 1, equal to the root mean square of error_i/(abs_tol + rel_tol*max(|y_i|,|y_new,i|)) for the reported error vector, which is dt times the solution of (I - gamma*dt*J) x = (embedded minus main increment), the embedded increment being evaluated once more at the state plus that estimate until the first step is accepted and after a step rejected by the error test. "
  "An attempt with a larger norm, or whose stage equations did not converge, changes nothing that is recorded and is followed by an attempt from the same state with a strictly smaller step. "
  "From one converged attempt to the next the step grows at most by the factor 0.9*min(8, norm^(-1/(q+1))), with q the lower order of the pair, and never beyond the maximum step or the end time.",
  ["inputs", "configurations", "histories"],
  "every embedded implicit method, tolerance pair, right-hand side with Jacobian, and accept/reject/non-convergence history",
  "The suite makes one implicit adaptive run and checks only the times of the merged output; rejections and Newton failures are never provoked.",
  ["irk.hpp"],
  [("error estimate 8.19/8.20, acceptance, controller", "irk.hpp irk_guts"), ("retry after Newton failure", "irk.hpp irk_guts")],
  [("err, dt, dts, errs", "scaled norm, step size and their short history", "irk.hpp irk_guts")],
  ["returned structs, functor calls, progress lines on the log stream"])

p("C05", "Implicit Runge-Kutta steps satisfy the method's stage equations",
  "For every recorded step of an implicit method, fixed or adaptive, the returned stage values k_i satisfy k_i = f(t + c_i*dt, y + dt*sum_j(a_ij k_j)) to within the Newton tolerances and the step satisfies y_new = y + dt*sum(b_i k_i) up to rounding, with the published coefficients of the selected method. "
  "The stage solver reports success only when the stage residual or the last correction is below its tolerance, whatever the Jacobian refresh interval (zero meaning never).",
  ["inputs", "configurations"],
  "every implicit method, right-hand side with exact Jacobian (stiff and non-stiff, autonomous or not, any dimension), step size and Newton options",
  "Tests check one stage solve of one method to 1e-2 and one integration of a scalar linear problem; no method besides the default one is integrated.",
  ["irk.hpp", "irk.cpp"],
  [("stage Newton iteration", "irk.hpp newton_solve_stages/construct_R"), ("update with inverse-A weights", "irk.hpp irk_guts"), ("coefficient tables", "irk.cpp get_coefficients")],
  [("Y", "stacked stage increments", "irk.hpp newton_solve_stages")])

p("C06", "Work counters account for every attempt and every evaluation",
  "After a Runge-Kutta integration, successful or not, the reported numbers of right-hand-side and Jacobian evaluations equal the calls actually made to the user's functor by it. "
  "The attempts equal the accepted steps plus the error rejections plus (implicit) the Newton rejections, converged solves equal accepted steps plus error rejections, Newton rejections equal the sum of their reported causes, and the accepted fraction is accepted steps over attempts. "
  "An explicit attempt costs exactly one evaluation per stage, or one less for methods that reuse their last stage, plus one evaluation at the start.",
  ["inputs", "configurations", "histories"],
  "every method, configuration and history, including runs that stop early",
  "No test reads a counter.",
  ["erk.hpp", "irk.hpp"],
  [("counters", "erk.hpp erk_guts, irk.hpp irk_guts, newton_solve_stages")])

p("C07", "Step-count and step-size limits are never exceeded",
  "With a non-negative step limit a Runge-Kutta integration takes at most that many steps and, if the end time is not reached with them, reports the maximum-steps error together with the steps taken so far; it never reports that error when the steps allowed suffice, and a negative limit means no limit. "
  "With a positive maximum step size no adaptive or fixed step, including the first one, is longer than it.",
  ["inputs", "configurations"],
  "every method, limit value (including 0 and the exact number needed), maximum step and initial step",
  "No test sets a limit.",
  ["erk.hpp", "irk.hpp", "options.hpp"],
  [("max_steps and max_dt handling", "erk.hpp erk_guts, irk.hpp irk_guts")])

p("C08", "Runge-Kutta integrations terminate and never report a failed run as a success",
  "Every Runge-Kutta integration over an interval t0 < t1 with a positive initial step terminates. It reports success only if it reached the end time and every recorded state is finite; when the right-hand side yields NaN or infinity, or the implicit stage equations cannot be solved, it reports an error status after recording only finite states, without aborting the process. "
  "A temporary failure (non-finite values or non-convergence confined to the intermediate evaluations of some attempts) makes an adaptive run retry with a smaller step and still succeed, while a fixed-step run reports the failure. Without failures and without a limit on the steps, a run over an interval on which the solution is smooth and bounded succeeds.",
  ["inputs", "fault_sequences"],
  "every method and every set of evaluations at which the right-hand side fails (non-finite value, unsolvable stage equations), permanent or temporary",
  "Tests never use a right-hand side that fails.",
  ["erk.hpp", "irk.hpp"],
  [("acceptance test and status", "erk.hpp erk_guts, irk.hpp irk_guts"), ("Newton status", "irk.hpp newton_solve_stages")])

p("C09", "Trajectory output goes where and as often as requested",
  "The output vectors hold the initial point and then exactly every output_interval-th accepted step when storing in vectors is on, and nothing more than the initial point when it is off; the output stream, when set, receives one line 't y1 ... yN' for exactly the same accepted steps, with that step's own time and state, and never anything for a rejected attempt. "
  "Turning one destination on or off, in any order, changes neither the other one nor the computed trajectory.",
  ["configurations", "histories"],
  "every method, output mode history, output interval and accept/reject history",
  "No test writes to a stream or changes the interval or mode.",
  ["erk.hpp", "irk.hpp", "options.hpp"],
  [("output bits", "options.hpp output_options"), ("store/write on acceptance", "erk.hpp erk_guts, irk.hpp irk_guts")])

p("C10", "The cyclic buffer always holds the most recent values in order",
  "After any sequence of operations on a cyclic buffer of period p, its size is the number of values pushed since creation or the last resize, capped at p, it is empty exactly when that is zero, and index i yields the value pushed i pushes ago for every i below the size. "
  "Iterating yields those values from newest to oldest, each exactly once. Copies and assignments are equal to and independent of their source, and writing through an index changes that value only until it is pushed out.",
  ["histories"],
  "every period and every sequence of push, index, write, copy, assign, resize and iterate operations",
  "One test pushes eleven integers into a buffer of period five; copy, assignment, resize and iteration are never used.",
  ["cyclic_buffer.hpp"],
  [("doubled storage with wrap-around", "cyclic_buffer.hpp push_back/operator[]")],
  [("current_, size_, storage_", "newest slot, fill count, doubled ring", "cyclic_buffer.hpp")])

p("C11", "Merging two solutions concatenates them and adds up their statistics",
  "The merge of two solution objects contains the first one's times, states, stages, error vectors and error norms followed by the second one's, in order and unchanged. "
  "Its status is the bitwise union of both statuses, every counter and the elapsed time are the sums, and the accepted fraction is the average weighted by the numbers of recorded points (if there is at least one). Neither argument is modified.",
  ["inputs"],
  "every pair of solution objects, including empty ones, failed ones and results of earlier merges",
  "The test compares times and states of two merges; counters, stages, errors and status are never looked at.",
  ["irk.cpp", "irk.hpp"],
  [("merge_rk_output", "irk.cpp")])

p("C12", "The method registry is a fixed one-to-one map between names and codes",
  "For both families, each published method code maps to its published name and back, the list of all names is exactly the published set without repetition, and coefficients obtained for a code carry that code's name. "
  "An unknown name or code maps to zero or to the empty string. None of these answers ever depends on earlier queries, also not on unknown ones or on queries from other threads.",
  ["inputs", "histories", "schedules"],
  "every sequence of lookups by known and unknown names and codes, from one thread or several",
  "No test calls a lookup function.",
  ["irk.cpp", "erk.cpp", "enums.hpp"],
  [("registry maps", "irk.hpp/erk.hpp rk_method_to_string, rk_string_to_method"), ("method_to_name/name_to_method/all_method_names", "irk.cpp, erk.cpp")])

p("C13", "Built-in coefficients are those of the named methods and reach their order",
  "For every implemented method the node, weight and matrix coefficients are those of the published method of that name: collocation (Gauss, Radau IIA, Lobatto IIIA) and Lobatto IIIC methods satisfy the simplifying assumptions that characterise them and the explicit methods equal their published tableaus, to the accuracy of double precision. "
  "The weights satisfy all order conditions up to the declared order and the embedded weights all conditions up to the declared embedded order, row sums equal the nodes, and the first-same-as-last flag is set only if the last stage is evaluated at the end point of the step.",
  ["configurations"],
  "every method code and every order condition (rooted tree or simplifying assumption) up to the declared orders",
  "Tests compare two weights of one method with its own interpolation matrix.",
  ["irk.cpp", "erk.cpp"],
  [("coefficient tables", "irk.cpp get_coefficients, erk.cpp get_coefficients")])

p("C14", "Dense-output weights integrate the stage interpolant",
  "For any set of distinct nodes the generated interpolation matrix, and hence the weights evaluated for any theta, are the integrals from 0 to theta of the Lagrange basis polynomials of the nodes, so that sum_j b_j(theta) c_j^(k-1) = theta^k/k for k = 1..s. "
  "For the methods offering dense output the weights at theta = 1 are the method's weights, at 0 they vanish, and for collocation methods at theta = c_i they are row i of the matrix.",
  ["inputs", "configurations"],
  "every set of distinct nodes, every theta (also outside [0,1]) and every method with dense output",
  "The test evaluates two methods at three values of theta.",
  ["irk.cpp", "erk.cpp"],
  [("collocation_interpolate_coeffs, project_b", "irk.cpp"), ("project_b", "erk.cpp")])

p("C15", "Newton root finding follows Newton's iteration and reports honestly",
  "Newton iteration visits x_{k+1} = x_k - lambda*inv(J)*F(x_k), with the Jacobian taken at the current iterate, or at the initial guess when refreshing is off, lambda = 1 (or 1/(1+|F|^2) with step limiting on), and never moves farther than a positive maximum step in one iteration. "
  "It reports success only if the last correction, before damping and limiting, is below the increment tolerance and the residual is finite, and then returns the last iterate; otherwise it reports an error after at most the allowed number of iterations and returns the initial guess unchanged. "
  "The reported iteration count and residual norm are those of the last iterate.",
  ["inputs", "configurations"],
  "every system with Jacobian, initial guess, tolerance, iteration limit, maximum step and combination of solver options",
  "The tests run one function family from one starting point with one option set to convergence; failure reporting, limits and options are untested.",
  ["newton.hpp"],
  [("newton_iterate_impl, option dispatch", "newton.hpp")])

p("C16", "Broyden root finding follows Broyden's update and reports honestly",
  "Broyden iteration starts from the identity as inverse Jacobian, moves each time by -lambda*B*F(x) with lambda = 1/sqrt(1+|F|^2), limited to a positive maximum step, and updates B by the rank-one secant formula so that B maps the last residual change to the last step. "
  "It reports success only if the last step or the residual norm is below its tolerance, and otherwise reports that the iteration limit was exceeded or a generic error (non-finite values); the reported iterations never exceed the (positive) limit and the reported residual is that of the returned point.",
  ["inputs", "configurations"],
  "every system, initial guess, tolerance, iteration limit and maximum step",
  "The test runs one function from one starting point to convergence.",
  ["newton.hpp"],
  [("broyden_iterate", "newton.hpp")])

p("C17", "Adams-Bashforth runs follow the multistep formula on a uniform grid",
  "An Adams-Bashforth run of order q (1 to 5) returns times t0, t0+dt, t0+2dt, ... up to the first grid point at or after the end time (or the last start-up point), with the step reduced to the interval length when it is larger. "
  "The first q points are accurate solution values, and every later value is y_n + dt*sum_i(beta_i f(t_{n-i}, y_{n-i})) with the published coefficients of that order and the recorded earlier points. Any other order is reported as an error without a trajectory, and so is, keeping the points so far, a start-up that fails or a value that is not finite.",
  ["inputs", "configurations"],
  "every order, right-hand side (also non-autonomous), interval and step",
  "The test computes errors for one autonomous scalar problem and asserts nothing about them.",
  ["multistep.hpp", "cyclic_buffer.hpp"],
  [("adams_bashforth_step, bootstrap_history, adams_bashforth", "multistep.hpp")],
  [("history", "the last q states", "multistep.hpp cyclic_buffer")])

p("C18", "BDF runs satisfy the backward differentiation formula on a uniform grid",
  "A BDF run of order q (1 to 6) returns a uniform grid as for Adams-Bashforth, its first q+1 points are accurate solution values, and every later value solves y_{n+1} + sum_i(alpha_i y_{n-i}) = beta*dt*f(t_{n+1}, y_{n+1}) with the published coefficients of that order and the recorded earlier points, within the Newton tolerance. "
  "If that equation cannot be solved the run stops with the internal-solver error keeping the points so far, a failed start-up is reported as an error too, and any other order is reported as an error without a trajectory.",
  ["inputs", "configurations", "fault_sequences"],
  "every order, right-hand side with Jacobian, interval, step and point of failure of the inner solve",
  "No test runs BDF.",
  ["multistep.hpp", "cyclic_buffer.hpp", "newton.hpp"],
  [("bdf, bootstrap_history", "multistep.hpp")])

p("C19", "Numerical Jacobians are central differences and verification means agreement",
  "The numerical Jacobian has as column j the central difference (F(y + h e_j) - F(y - h e_j))/(2h), so it is exact up to rounding for quadratic systems, with all other components unperturbed. "
  "The Jacobian verifier reports true only if the supplied Jacobian agrees with the numerical one.",
  ["inputs"],
  "every system, point and difference step",
  "The tests only call the verifier and expect true; they would pass if it always returned true.",
  ["newton.hpp"],
  [("approx_jacobi_matrix, verify_jacobi_matrix", "newton.hpp")])

p("C20", "Product expansion enumerates all combinations in order",
  "The expansion of two coefficient lists contains, for each element of the first list in order and within it each element of the second list in order, the concatenation of the two, and nothing else; it is empty if either list is empty. "
  "Expanding repeatedly therefore enumerates all terms of a product of sums and does not depend on how the factors are grouped.",
  ["inputs"],
  "every pair (and triple) of coefficient lists, including empty lists and empty elements",
  "The test expands three fixed examples.",
  ["irk.cpp"],
  [("expand", "irk.cpp")])

p("C21", "Results are a function of the problem and the numerical options only",
  "The same problem, method and numerical options give bit-identical times, states, errors and counters on every call, whatever was integrated before in the process, in whatever order, and also when several integrations run at the same time in different threads. "
  "Progress printing, timing, log destination and output destination never change them, nor does building with assertions disabled.",
  ["histories", "schedules", "configurations"],
  "every history of earlier calls, every interleaving of concurrent calls and every setting of the options that are not numerical",
  "The tests run each integration once in a fresh process.",
  ["erk.hpp", "irk.hpp", "irk.cpp", "erk.cpp", "multistep.hpp", "newton.hpp"],
  [("all solver state is local to the call", "erk.hpp erk_guts, irk.hpp irk_guts, newton.hpp"), ("assertions without side effects", "irk.hpp newton_solve_stages")])

p("C22", "The timer reports milliseconds since its last start and prints only when asked",
  "A timer started at construction and restarted by each tic reports, for any later toc, the milliseconds between the last start and the moment of the call, without restarting it; the elapsed time against a stored start time is measured the same way. "
  "It prints exactly one line per toc, containing the first message, that number in milliseconds and in seconds, and the second message, if and only if an output stream is set.",
  ["histories"],
  "every sequence of tic, toc, output switching and clock advances, including second boundaries",
  "No test looks at a value returned by the timer.",
  ["my_timer.hpp"],
  [("tic/toc/get_elapsed", "my_timer.hpp")])

p("C23", "Coefficient and option validation accepts exactly the usable inputs",
  "Coefficients are accepted exactly when there is at least one stage and the weights, nodes and both dimensions of the matrix have the same size, and for explicit methods additionally only when the matrix is strictly lower triangular. "
  "Unknown method codes yield coefficients that are rejected, every implemented method yields coefficients that are accepted, and implicit solver options are accepted exactly when Newton options are set.",
  ["inputs"],
  "every combination of sizes, every single non-zero position of the matrix, every method code and option struct",
  "No test calls a validation function.",
  ["irk.cpp", "erk.cpp", "irk.hpp", "erk.hpp"],
  [("verify_solver_coeffs, verify_solver_options", "irk.cpp, erk.cpp")])

p("C24", "Progress reports are one line per attempt at multiples of the interval",
  "With a progress interval n > 0 a Runge-Kutta integration writes exactly one header line and one line for each attempt (implicit methods: each attempt whose stage equations were solved) made while the number of accepted steps is a multiple of n. "
  "Each line contains that number, the time the attempt starts from, its step length and its error norm, and for implicit methods the number of Newton iterations. With interval 0 nothing is written, and reporting never changes the integration.",
  ["inputs", "configurations", "histories"],
  "every method, interval, right-hand side, tolerance and accept/reject/failure history",
  "No test sets a progress interval or reads what is printed.",
  ["erk.hpp", "irk.hpp", "output.hpp"],
  [("progress lines", "erk.hpp erk_guts, irk.hpp irk_guts")], None, ["standard output and standard error, log stream"])

p("C25", "Unset options have documented defaults; short calls equal full ones",
  "Options that are never set have the documented defaults (relative tolerance 1e-4, absolute 1e-3, adaptive, no step limit, no progress or timing; Newton tolerances 1e-4, 5000 iterations, refresh every 10, no step limit; output stored in vectors at every step, no stream, log on standard output), and new solution objects are empty with zero counters. "
  "A call that leaves out arguments equals, bit for bit, the call that names them: Dormand-Prince 5(4) or Radau IIA 5(3) with an initial step of 1e-6, the Newton iteration of the shorter implicit call using a tenth of the smaller tolerance and refreshing every 25 iterations, and root finders being quiet.",
  ["configurations", "inputs"],
  "every option struct and every overload of the integrators and root finders, on any problem",
  "No test reads a default; the tests that rely on one would pass with other values.",
  ["options.hpp", "erk.hpp", "irk.hpp", "newton.hpp", "output.hpp"],
  [("constructors of the option structs", "options.hpp, newton.hpp, output.hpp"), ("overloads of odeint", "erk.hpp, irk.hpp")])

p("C26", "Printed coefficients, status names and timing tables show the actual values",
  "The printed form of implicit coefficients shows the method's name and, up to the printed precision, every node, matrix row and both weight rows in their places; the printed form of a coefficient list shows its elements in order; every Newton status has its own name. "
  "The timing table shows for each part its time and its share of the total in percent, and the total is their sum, in the unit it names.",
  ["inputs"],
  "every method, coefficient list, status code and set of measured times",
  "No test reads what is printed.",
  ["irk.cpp", "irk.hpp", "newton.hpp", "my_timer.hpp"],
  [("operator<<, status_message, timing breakdown", "irk.cpp, irk.hpp, newton.hpp")], None, ["text written to the given stream"])

p("C27", "Functor adapters pass evaluations through unchanged",
  "The function and Jacobian values seen through the functor interface, through the combined compute call and through the Newton wrappers for objects and pairs of callables are exactly those of the wrapped object at the same arguments, and the Jacobian is computed only if it was asked for. "
  "Integrating or solving through an adapter or a base-class reference gives the same result, bit for bit, as using the object itself.",
  ["inputs", "configurations"],
  "every functor, point, adapter and integrator",
  "The tests use one adapter on one problem and check a rounded result.",
  ["functor.hpp", "newton.hpp"],
  [("functor::compute", "functor.hpp"), ("newton_functor_wrapper, newton_lambda_wrapper", "newton.hpp")])

p("C28", "Root finders report each iteration when asked and are silent otherwise",
  "A root finder that is not quiet writes one report for every iteration (Newton: also for the last iterate), in order, each showing the iteration number, the iteration limit, the square of the residual, the length of the last correction (Newton: the last two) and the components of the iterate it is about, up to the printed precision. "
  "A quiet one writes none, and reporting does not change the iterates, the status or the result.",
  ["inputs", "configurations"],
  "every system, initial guess, tolerance, limit, and sequence of failures of the function",
  "The tests print some iterations and look at none.",
  ["newton.hpp"],
  [("print_stats", "newton.hpp newton_iterate_impl, broyden_iterate")], None, ["standard output and standard error"])

p("C29", "The stability region program tabulates the stability functions of the methods",
  "For every Runge-Kutta method it is given by name, the stability region program ends normally and writes |R(z)| = |1 + z b.K|, (I - zA)K = 1, of that method's tableau for every point of its 400 x 80 grid over [-190, 10] x [-20, 20] and for its list of real z; "
  "likewise for the embedded method (R(z) = 1 + gamma z + z b2.K) if the method has one, and no numbers for it if it has none. Hence the implicit methods show |R| <= 1 left of the imaginary axis and Radau IIA and Lobatto IIIC vanish at -infinity. "
  "A name that is not a method's is refused with a nonzero exit code and nothing is tabulated.",
  ["inputs", "configurations"],
  "every method name (explicit and implicit, with and without embedded method), other names, every grid point",
  "Nothing runs the program in the tests; its output is a plot looked at by eye.",
  ["stability_region/main.cpp", "irk.cpp", "erk.cpp"],
  [("stability_function, rk_to_stab_region, stability_limit, stability_region", "stability_region/main.cpp"), ("coefficient tables", "erk.cpp, irk.cpp get_coefficients")], None,
  ["the files the program writes, its exit code"])

p("C30", "The stage iteration of implicit methods honours its options",
  "In every attempt of an implicit step the stages are found by the simplified Newton iteration from zero increments: with Y_i = h sum_j a_ij k_j and R(Y) = Y - h (A x I) F(Y), every correction D solves (I - h A x J) D = -R with the most recent Jacobian J, which is that of f at the (t, y) the attempt starts from, evaluated once at the start and again after every refresh_jac-th correction that did not suffice (never again if refresh_jac is 0). "
  "At least one correction is made (if maxit allows one); then the iteration ends, converged, as soon as |R| < tol or |D| < dx_delta; otherwise only on non-finite values or at the limit of maxit evaluations of all stages (extended by maxit when an iteration fails more than 15 accepted steps after the last extension). A step is accepted only if it converged; the stages of the step are those of the last iterate; and the counters of converged solves and of failures by cause count exactly these.",
  ["inputs", "configurations", "histories"],
  "every problem, implicit method, tolerance, iteration limit, refresh interval, and sequence of failures and inexact Jacobians",
  "The tests integrate some problems with default options; how often f and the Jacobian are evaluated, and when the iteration stops, is never looked at.",
  ["irk.hpp"],
  [("newton_solve_stages, construct_R", "irk.hpp"), ("newton_maxit, counters", "irk.hpp irk_guts")], None,
  ["calls of f and of the Jacobian with arguments and values, recorded stages, counters"])

p("C31", "Implicit step sizes follow the predictive controller",
  "In an adaptive implicit integration the step proposed after a converged attempt of length h with error norm e is 0.9 (maxit + 1)/(maxit + it) h min(8, e^-x, e^-x r (e'/e)^x), x = 1/(q+1), where q is the lower order of the pair, it the number of Newton iterations of the attempt, maxit the iteration limit in force, e' the norm of the converged attempt before (0.9 at the start) and r the ratio of the last two proposals; it is capped by max_dt and by the end time. "
  "An attempt whose iteration failed is repeated with 0.7 times its length. The run gives up only when the proposed step is lost in the rounding of the time.",
  ["inputs", "configurations", "histories"],
  "every embedded implicit method, problem, tolerance, and history of accepted, rejected and failed attempts",
  "The tests look at the end of one adaptive implicit run; any sequence of steps would do.",
  ["irk.hpp"],
  [("step size controller 8.27/8.28, retry after Newton failure", "irk.hpp irk_guts")], None,
  ["times of the evaluations of f, recorded times and error norms"])

p("C32", "Integrations announce themselves and say why they stop early",
  "Every integration writes, once, the interval it is going to cover and the name of the method it uses, explicit and multistep methods to the standard error, implicit Runge-Kutta methods to the log stream of the output options. "
  "If the first step (the one asked for, no larger than the step-size limit) reaches beyond the end it says so, once, with the step asked for and the step taken; if adaptive steps are asked of a method without error estimate it warns. An integration that stops before the end gives the reason, once: limit of steps reached, step size vanished, state no longer finite, stage iteration failed with a constant step, start-up or implicit equation of a multistep method failed, order not supported; and gives it only then. A successful run writes nothing more (but for progress reports and timings that were asked for).",
  ["inputs", "configurations", "histories"],
  "every problem, method, interval, step, limit and failure",
  "No test reads the messages.",
  ["erk.hpp", "irk.hpp", "multistep.hpp"],
  [("messages of erk_guts, odeint", "erk.hpp"), ("messages of irk_guts, odeint", "irk.hpp"), ("messages of adams_bashforth, bdf", "multistep.hpp")], None,
  ["standard streams, status, counters"])

p("C33", "Reported times are the wall time spent, each piece counted once",
  "The elapsed time of a Runge-Kutta result is the wall time between call and return, in milliseconds, whatever the options. An implicit run writes a table of timings exactly when asked to (time_internals); in it the total is the sum of the entries and accounts for all time spent in the functor, every evaluation in exactly one entry however often attempts are rejected or fail; "
  "evaluations of the Jacobian and of the stages are in the stage updates, and setting up, storing and choosing the step contain no evaluation. Seconds are the unit from one second on.",
  ["inputs", "configurations", "histories"],
  "every run and every pattern of time spent in f and in its Jacobian",
  "No test looks at a reported time.",
  ["irk.hpp", "erk.hpp", "my_timer.hpp"],
  [("timings, print_timing_breakdown, elapsed_time", "irk.hpp irk_guts"), ("elapsed_time", "erk.hpp erk_guts")], None,
  ["elapsed_time, timing table, simulated clock"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
