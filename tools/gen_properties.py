"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os
S = "optimistix/_solver/"
def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    return d

L = [
P("C01", "Success is only ever reported for a converged, finite iterate",
  "Whatever the problem, solver and step budget, a solve is reported as successful only if the solver's own stopping test held and the iterate that was tested is finite. A non-finite iterate is reported as non-finite, exhausting the budget without stopping is reported as running out of steps, and a failure code raised by the solver stops the solve and is the code the user sees.",
  ["inputs", "programs", "configurations"], "all user functions (including ones producing inf/nan), all solvers with the solver interface, all budgets",
  "Tests run a fixed list of well-behaved problems to convergence; a result code that is dropped, overwritten or computed from the wrong flag only shows on inputs that fail in a particular way.",
  ["optimistix/_iterate.py", "optimistix/_misc.py", "optimistix/_solution.py"],
  [("finite test and termination test combined before and inside the loop", "optimistix/_iterate.py"), ("max-steps code assigned after the loop", "optimistix/_iterate.py")],
  ["Solution.result"]),
P("C02", "Step budget is respected and the step count is exact",
  "A solve takes at most the requested number of steps, takes none once its stopping test or a failure code says to stop, and has no limit when the limit is None. The step count and limit in the returned statistics are exactly the number of steps taken and the limit that was passed, next to any statistics the solver itself adds.",
  ["inputs", "configurations"], "all budgets including 0 and None, all adjoint methods, all solvers",
  "Tests assert step counts for a couple of solver/problem pairs only; an off-by-one or a limit not forwarded on one of the routes is invisible whenever the solve converges well inside the budget.",
  ["optimistix/_iterate.py", "optimistix/_adjoint.py", S + "nelder_mead.py"],
  [("loop guard, loop counter and max_steps given to the loop", "optimistix/_iterate.py"), ("loop constructor chosen by the adjoint", "optimistix/_adjoint.py")],
  ["Solution.stats"]),
P("C03", "Failures raise exactly when asked to; the solution is one consistent bundle",
  "With throw=True an unsuccessful result always raises and a successful one never does; with throw=False no failure during the solve raises and the same code is returned in the solution. The value, auxiliary output, result, statistics and state in the returned solution all come from the same final iterate after the solver's own post-processing, on every route by which a problem can be solved.",
  ["inputs", "configurations", "fault_sequences"], "all failure kinds, throw on/off, all four problem types and conversions between them",
  "Tests exercise throw on a few failing problems; a mixed-up bundle or a swallowed error needs a particular failure on a particular route.",
  ["optimistix/_iterate.py", "optimistix/_root_find.py", "optimistix/_minimise.py", "optimistix/_least_squares.py", "optimistix/_fixed_point.py"],
  [("error_if on the result, Solution construction", "optimistix/_iterate.py")],
  ["Solution", "raised exception"]),
P("C04", "Entry points pass every user argument through unchanged",
  "On every route through minimise, least_squares, root_find and fixed_point, the user's function, initial guess, args, options, step limit, adjoint and throw reach the solver exactly as given. Missing options become an empty dictionary, the initial guess and function outputs are only converted to inexact arrays, a function without auxiliary output behaves as one whose auxiliary output is None, and has_aux=True uses the function's own pair.",
  ["configurations", "inputs"], "every combination of entry point x solver kind x optional argument",
  "Tests mostly use default options, adjoint and budget on the converted routes, so a dropped or swapped argument on one route goes unnoticed.",
  ["optimistix/_minimise.py", "optimistix/_least_squares.py", "optimistix/_root_find.py", "optimistix/_fixed_point.py", "optimistix/_misc.py"],
  [("argument forwarding in the four entry points", "optimistix/_{minimise,least_squares,root_find,fixed_point}.py"), ("output/aux wrappers", "optimistix/_misc.py")],
  ["arguments seen by AbstractIterativeSolver.init/step/terminate/postprocess"]),
P("C05", "Solving one problem type with another type's solver keeps its meaning",
  "A least-squares problem given to a minimiser minimises half the sum of squared residuals; a fixed-point problem given to a root finder solves fn(y) - y = 0; a root-finding problem given to a least-squares solver or a minimiser drives the same function to zero, measured by the solver's norm in the minimiser case. Such a root-find only stops successfully if, in addition to the solver's own test, the function value is below the absolute tolerance in the solver's norm, and the user always gets their own auxiliary output back.",
  ["programs", "inputs", "configurations"], "all user functions, all solvers of each kind, with and without aux, nested conversions (fixed point -> root -> minimise)",
  "Tests check final values on problems whose minimum is a root; a missing near-zero test, a wrong objective or leaked wrapper auxiliary only matters on rootless problems or aux-returning ones.",
  ["optimistix/_root_find.py", "optimistix/_least_squares.py", "optimistix/_fixed_point.py"],
  [("conversion wrappers for functions and solvers", "optimistix/_root_find.py, _least_squares.py, _fixed_point.py")],
  ["objective seen by the inner solver", "Solution.aux", "Solution.result"]),
P("C06", "Implicit gradients solve the linearised optimality condition of the problem",
  "With the implicit adjoint, tangents of the solution equal minus the inverse Jacobian (with respect to the solution) of the problem's optimality condition applied to the tangent of that condition with respect to the inputs, all evaluated at the returned solution. The condition is fn(y)=0 for root finding, fn(y)-y=0 for fixed points, grad fn = 0 for minimisation and grad of half the sum of squared residuals = 0 for least squares, using the user's args; auxiliary outputs, statistics and state carry no derivative. If the linear solve fails, that is an error and not a silently wrong derivative.",
  ["programs", "inputs"], "all differentiable user functions, all problem types, forward and reverse mode",
  "Gradient tests compare against finite differences on a handful of problems with one parameterisation; a sign, evaluation-point or condition error can cancel there.",
  ["optimistix/_ad.py", "optimistix/_adjoint.py", "optimistix/_minimise.py", "optimistix/_least_squares.py", "optimistix/_root_find.py", "optimistix/_fixed_point.py"],
  [("custom JVP rule", "optimistix/_ad.py"), ("per-problem rewrite functions", "optimistix/_{minimise,least_squares,root_find,fixed_point}.py")],
  ["jax.jvp / jax.grad of Solution.value"]),
P("C07", "The choice of adjoint never changes the solution itself",
  "For every solve, the built-in adjoint methods run exactly the same primal iteration on exactly the same inputs; they only differ in how the loop is made differentiable, and differentiating through the loop follows everything it uses. In particular the value, auxiliary output, result and statistics do not depend on the adjoint, and the configured checkpoint count and linear solver are the ones used.",
  ["configurations", "inputs"], "all adjoints x all solvers x all problems",
  "Only a small subset of solvers is tested with each adjoint and results are compared with the known optimum, not with each other.",
  ["optimistix/_adjoint.py", "optimistix/_ad.py", "optimistix/_iterate.py"],
  [("loop kind appended to the inputs of one shared primal function", "optimistix/_adjoint.py")],
  ["Solution.value", "Solution.stats"]),
P("C08", "Accepting or rejecting a trial point is all-or-nothing",
  "In the Gauss-Newton, gradient-descent and quasi-Newton families, when the search accepts a trial point the iterate, its function information, its auxiliary output and the descent direction all move to that point together, and when it rejects they all stay at the last accepted point. The next trial point is always the accepted iterate plus the descent step for the step size the search returned, and a rejected step never ends the solve as converged.",
  ["histories", "inputs"], "all sequences of accept/reject decisions by any search, any descent",
  "Tests look at the final answer; a mixed state (say old function information with a new iterate) still converges on easy problems.",
  [S + "gauss_newton.py", S + "gradient_methods.py", S + "quasi_newton.py"],
  [("accept/reject branches of the step", S + "{gauss_newton,gradient_methods,quasi_newton}.py")],
  ["solver state after every step"]),
P("C09", "Auxiliary output always belongs to the iterate it is returned with",
  "For every solver, the auxiliary output produced by a step is the one the user's function returned at the iterate the step started from, never a placeholder, never that of a rejected trial point and never from another point. Wrappers that add their own auxiliary data strip it again before the user sees it.",
  ["histories", "programs"], "all solvers, all accept/reject histories, all functions with aux",
  "Tests check that aux is returned with the right structure and for a few solvers its value at convergence, where neighbouring iterates agree to tolerance.",
  [S + "gauss_newton.py", S + "gradient_methods.py", S + "quasi_newton.py", S + "newton_chord.py", S + "bisection.py", S + "golden.py", S + "fixed_point.py", S + "nelder_mead.py", S + "optax.py", S + "best_so_far.py", "optimistix/_root_find.py"],
  [("aux element of each solver's step", S + "*.py")],
  ["Solution.aux", "third output of AbstractIterativeSolver.step"]),
P("C10", "Line searches and trust regions accept and resize steps as documented",
  "The first point is always accepted; afterwards backtracking accepts only a step whose actual change is no larger than slope times a predicted non-positive change, and a trust region accepts only if the actual change is no larger than low_cutoff times the predicted change, so that a NaN objective is never accepted. Rejection shrinks the step size by the configured factor, acceptance restarts backtracking from its initial step, leaves the trust-region size unchanged or, on very good non-first steps with a predicted decrease, grows it by the configured factor; a fixed learning rate always accepts with that rate.",
  ["histories", "inputs", "configurations"], "all objective histories including nan/inf, all hyperparameters, all kinds of function information",
  "Tests run searches inside convergent solves with default hyperparameters; boundary comparisons, nan handling and the size-update cases are not distinguished.",
  [S + "backtracking.py", S + "trust_region.py", S + "learning_rate.py"],
  [("search step rules", S + "{backtracking,trust_region,learning_rate}.py")],
  ["(step_size, accept, result) of AbstractSearch.step"]),
P("C11", "Predicted decrease and gradients match the local model of the objective",
  "The predicted change used by the searches is gradient.step for the linear models and gradient.step + step.Hessian.step/2 for the quadratic model, where for least-squares problems the objective is half the squared residual norm, its gradient is the transposed Jacobian times the (complex conjugate of the) residual, and the Hessian is the Gauss-Newton one. The objective value, gradient and directional derivative offered by the function-information objects are those of this same objective.",
  ["inputs", "configurations"], "all kinds of function information x all models, real and complex pytrees",
  "A wrong factor still yields a usable ratio near one on easy problems, and each kind of function information is only used by one or two tested solver combinations.",
  ["optimistix/_search.py", S + "trust_region.py", S + "backtracking.py"],
  [("predict_reduction", S + "trust_region.py"), ("as_min/compute_grad/compute_grad_dot", "optimistix/_search.py")],
  ["FunctionInfo methods", "search step"]),
P("C12", "Unsupported configurations are rejected, never silently computed",
  "A search or descent that needs gradient or Hessian information raises when the solver does not provide it, scalar-only solvers raise for non-scalar inputs or outputs, and invalid hyperparameters, option values, bracket intervals without a sign change, non-scalar objectives and mismatched fixed-point structures raise an error. Every supported combination is accepted.",
  ["configurations", "inputs"], "all kinds of function information x all searches/descents; all option and hyperparameter values",
  "Tests try a few bad combinations; a check that is inverted or dropped for one case goes unnoticed because nothing exercises it.",
  [S + "backtracking.py", S + "trust_region.py", S + "gauss_newton.py", S + "gradient_methods.py", S + "nonlinear_cg.py", S + "levenberg_marquardt.py", S + "dogleg.py", S + "bisection.py", S + "golden.py", "optimistix/_minimise.py", "optimistix/_fixed_point.py", "optimistix/_misc.py", "optimistix/compat/_impl.py"],
  [("isinstance gates, error_if checks and raised ValueErrors", S + "*.py, optimistix/_*.py")],
  ["raised exception"]),
P("C13", "Convergence needs both the iterate and the function to have settled",
  "The minimisers and least-squares solvers declare convergence only if both the change in the iterate and the change in the function value, each divided elementwise by atol + rtol*|value|, are below one in the user's norm. The test is made with the user's own rtol, atol and norm, never on a rejected step, and never on the very first step of gradient or quasi-Newton methods; fixed-point iteration applies the same scaled test to the change of the iterate.",
  ["inputs", "histories", "configurations"], "all tolerances, norms, problems and accept/reject histories",
  "Tests use equal tight tolerances and the default norm and look only at final values, so exchanging rtol/atol, dropping one of the two tests or ignoring the norm is invisible.",
  ["optimistix/_misc.py", S + "gauss_newton.py", S + "gradient_methods.py", S + "quasi_newton.py", S + "nelder_mead.py", S + "golden.py", S + "optax.py", S + "fixed_point.py"],
  [("cauchy termination helper and its call sites", "optimistix/_misc.py, " + S + "*.py")],
  ["AbstractIterativeSolver.terminate"]),
P("C14", "Newton and chord steps, bounds and stopping tests are right",
  "Each step moves from y by minus the solution of J x = fn(y), with J the Jacobian at the current iterate for Newton and at the initial guess for chord, and the new iterate is then clipped to the optional lower and upper bounds. With Cauchy termination the solve stops when the actual step is small in scaled norm and fn is below atol; otherwise it needs at least two steps and stops on a negligible step, on an extrapolated error below kappa, or as diverged when the rate is above two or not finite; a failed linear solve stops it with that failure.",
  ["inputs", "configurations"], "all functions, bounds, tolerances, kappa, both termination modes",
  "Tests use the default termination mode almost exclusively and bounds in a single case.",
  [S + "newton_chord.py"],
  [("step and terminate", S + "newton_chord.py")],
  ["iterates", "Solution.result"]),
P("C15", "Bisection keeps a bracketing interval and returns points inside it",
  "Each bisection step replaces exactly the endpoint whose side the function sign at the evaluated point indicates, so that a sign change stays bracketed for increasing and decreasing functions, and moves to the midpoint of the new interval. The orientation is detected from (or given for) the endpoints, an interval without a sign change raises or is expanded geometrically in the direction that contains the root, and the solve stops only when the interval is below atol + rtol*|y| and |fn| is below atol.",
  ["inputs", "histories", "configurations"], "all scalar functions, intervals, flip modes, expansion on/off",
  "Tests check the final root for a few functions; a wrong side update in one orientation or a wrong expansion direction needs specific sign patterns.",
  [S + "bisection.py"], [("init, interval expansion, step, terminate", S + "bisection.py")],
  ["iterates"]),
P("C16", "Golden-section search keeps a shrinking bracket around its best point",
  "Golden-section search starts with an interior point that splits [lower, upper] in the golden ratio, and each step evaluates the mirror point and keeps the better of the two interior points strictly between the new ends, replacing exactly the end on the far side. Function values stay paired with their points, ties and NaN keep the current point, and the next point is always the mirror image of the interior point inside the interval.",
  ["inputs", "histories"], "all scalar functions and intervals, including ones not starting at zero",
  "Tests use intervals with lower bounds and functions for which a wrong interior point or a swapped end still converges.",
  [S + "golden.py"], [("init and step", S + "golden.py")], ["iterates"]),
P("C17", "Fixed-point iteration applies the damped update and tests its own step",
  "Each step moves to (1-damp)*fn(y) + damp*y, and the solve stops when the difference of consecutive iterates, scaled by atol + rtol*|new iterate|, is below one in the user's norm. Before the first step it never claims to have converged.",
  ["inputs", "configurations"], "all functions, damping factors, tolerances, norms",
  "Tests use damping on one or two contractions and only look at the limit, which is the same for swapped or wrong damping.",
  [S + "fixed_point.py"], [("init, step, terminate", S + "fixed_point.py")], ["iterates"]),
P("C18", "Best-so-far wrappers return the best point that was evaluated",
  "The best-so-far wrappers return the evaluated iterate with the smallest loss, together with its own auxiliary output, and never replace it by a point with NaN or larger loss. The loss is the objective for minimisation, the squared residual norm for least squares and root finding, and the squared distance fn(y)-y for fixed points; wrapping changes neither the iterates, the stopping test nor the result of the wrapped solver.",
  ["histories", "inputs", "configurations"], "all wrapped solvers and all (non-monotone) iterate histories",
  "Tests wrap solvers on problems where the last iterate is the best one.",
  [S + "best_so_far.py"], [("init, step, terminate, postprocess", S + "best_so_far.py")],
  ["Solution.value", "Solution.aux"]),
P("C19", "BFGS and DFP updates satisfy the secant equation and stay symmetric",
  "When the curvature y_diff.grad_diff exceeds machine epsilon, BFGS and DFP replace the stored (inverse) Hessian approximation by the textbook update, which is symmetric and maps the last step to the last gradient change (or back); otherwise they keep it unchanged. They start from the identity, store direct or inverse approximations as requested, and always pair them with the objective value and gradient of the accepted point.",
  ["histories", "inputs", "configurations"], "all step histories, pytree-valued iterates, use_inverse on/off",
  "A wrong coefficient or transposed term still gives a descent direction and converges to the tested optimum, only slower.",
  [S + "quasi_newton.py"], [("init_hessian/update_hessian of BFGS and DFP", S + "quasi_newton.py")],
  ["function information passed to the descent"]),
P("C20", "L-BFGS keeps a correct sliding window of the latest curvature pairs",
  "L-BFGS stores the most recent step/gradient-difference pairs in a fixed-length window, overwriting the oldest pair and all quantities derived from it together, and only when the curvature exceeds machine epsilon. Its inverse operator is the two-loop recursion from newest to oldest and back, scaled by the newest pair, and its direct operator is the compact representation of the same BFGS matrix.",
  ["histories", "inputs", "configurations"], "all history lengths, more steps than the window holds, use_inverse on/off",
  "Tests rarely run past the window length and only check the final optimum.",
  [S + "limited_memory_bfgs.py"], [("history update and operator functions", S + "limited_memory_bfgs.py")],
  ["function information passed to the descent"]),
P("C21", "Nonlinear CG uses the textbook coefficients and only descent directions",
  "The four coefficient formulas (Polak-Ribiere clipped at zero, Fletcher-Reeves, Hestenes-Stiefel, Dai-Yuan) equal their textbook definitions and are zero whenever their denominator is negligible. The search direction is minus the gradient plus the coefficient times the previous direction, replaced by minus the gradient whenever it is not a descent direction, and the direction and gradient remembered are those just used.",
  ["inputs", "histories", "configurations"], "all gradients/previous directions, all methods, first step and convergence",
  "A wrong sign or missing restart only slows convergence on the tested quadratics.",
  [S + "nonlinear_cg.py"], [("beta formulas, query, step", S + "nonlinear_cg.py")], ["AbstractDescent.query/step"]),
P("C22", "Steepest, Newton and damped-Newton descents compute their defining step",
  "For step size s, steepest descent returns -s*grad and Newton descent -s*H^-1 grad (optionally normalised), the damped descent returns minus the solution of (H + I/s) x = grad, as the stacked least-squares system for residual problems, with finite damping as s tends to zero, and the indirect one chooses a positive damping so that the step has length s times the Newton step, or the full Newton step for s >= 1. All of them use the function information of the last accepted point.",
  ["inputs", "configurations"], "all step sizes, all kinds of function information, all norms and linear solvers",
  "Only default combinations are run to convergence, where every scaled downhill step reaches the same optimum.",
  [S + "gradient_methods.py", S + "gauss_newton.py", S + "levenberg_marquardt.py"],
  [("descent query/step", S + "{gradient_methods,gauss_newton,levenberg_marquardt}.py")], ["AbstractDescent.step"]),
P("C23", "Dogleg steps stay on the dogleg path at the trust-region radius",
  "With radius r = step size times the length of the Newton step, the dogleg descent returns the Newton step when the step size is at least one, the Cauchy step rescaled to length r when the Cauchy step is longer than r, and otherwise the point of the segment from Cauchy to Newton step whose length is r, found by a formula that does not lose it to cancellation. The Cauchy step is minus grad times (grad.grad)/(grad.H.grad), and vanishing gradients or curvature give a zero step instead of NaN.",
  ["inputs", "configurations"], "all step sizes, gradients, Hessians, trust-region norms",
  "Tests run dogleg to convergence only; a wrong interpolation point is corrected by later trust-region rejections.",
  [S + "dogleg.py"], [("query and step", S + "dogleg.py")], ["AbstractDescent.step"]),
P("C24", "Nelder-Mead moves, ordering and bookkeeping follow the algorithm",
  "Every Nelder-Mead step reflects the worst vertex, expands on a new best value, contracts outside or inside when the reflected value is worse than the second-worst or the worst, and shrinks towards the best vertex only when the new vertex is still worse than the worst. Exactly the worst vertex is replaced otherwise, stored function values always match their vertices, the returned point is the best vertex of the current simplex, and the reported move counts equal the moves made.",
  ["inputs", "histories"], "all objective functions and simplex histories",
  "Tests compare the final optimum only; wrong vertex bookkeeping still shrinks towards a minimum.",
  [S + "nelder_mead.py"], [("init, step, terminate, postprocess", S + "nelder_mead.py")], ["iterates", "Solution.stats"]),
P("C25", "The SciPy-compatible interface reports what the solve actually did",
  "compat.minimize runs BFGS with the given tolerance (1e-5 when none is given), norm and iteration limit on fun(x, *args), without changing the caller's options, and rejects unknown methods, unknown options, non-1-D x0 and non-tuple args. Its x, fun, jac, hess_inv, counts and success flag describe the final accepted point of that run, with status 0 for success, 1 for the iteration limit and 3 for anything else.",
  ["inputs", "configurations"], "all objectives, options and outcomes",
  "Tests use default options on one or two functions and do not reach every status.",
  ["optimistix/compat/_impl.py"], [("minimize", "optimistix/compat/_impl.py")], ["OptimizeResults"]),
P("C26", "The Optax wrapper feeds the optimiser the right gradients and state",
  "Each step calls the wrapped Optax optimiser once with the gradient and value of the user's function at the current iterate, the current parameters and its previous state, applies exactly the returned updates and keeps the returned state. It stops when both the updates and the change in function value are small in the usual scaled test, and never before a function value has been seen.",
  ["inputs", "histories", "configurations"], "all Optax transformations (including those needing value/grad/value_fn), all tolerances",
  "Tests use two optimisers that ignore most of these inputs.",
  [S + "optax.py"], [("init, step, terminate", S + "optax.py")], ["iterates"]),
P("C27", "Failures inside a step are never lost",
  "Whenever a search, a descent, a linear solve or an inner scalar solve whose answer is used reports a failure during a step, the solver's result for that step is that failure code. No solver replaces a failure by success, and the first failing stage determines the code. The one exception is the damping of the indirect damped-Newton descent, which is only searched for approximately: not reaching its tolerance is not a failure.",
  ["fault_sequences", "configurations"], "all stages that can fail x all solvers, searches, descents",
  "Tests hardly ever make a linear solve or a search fail; a dropped code looks like success.",
  [S + "gauss_newton.py", S + "gradient_methods.py", S + "quasi_newton.py", S + "newton_chord.py", S + "levenberg_marquardt.py", S + "dogleg.py", "optimistix/_root_find.py", S + "best_so_far.py"],
  [("result merging in step/terminate", S + "*.py")], ["Solution.result"]),
P("C28", "Solver state keeps the precision of the problem",
  "For a problem whose initial guess and function values share one floating precision, every array a solver, search or descent carries from step to step (and in its inner loops) has the same dtype before and after a step: that of the problem, or a weak, integer or boolean type. No dtype is fixed by the code, so a float32 problem can be solved with 64-bit mode enabled, and the returned iterate has the precision of the initial guess.",
  ["inputs", "configurations"], "all floating dtypes of the problem x 64-bit mode on/off x all solvers, searches and descents",
  "The test-suite runs everything in one precision.",
  [S + "*.py", "optimistix/_misc.py"], [("dtype arguments of state initialisation", S + "*.py")], ["dtype of iterates", "tracing errors"]),
P("C29", "Solvers never branch on runtime values in Python",
  "No solver, search, descent, adjoint or entry point makes a Python-level decision (if, while, assert, boolean operator, conversion to a Python number) on a value that depends on the user's runtime arrays, so that every solve can be jitted, vmapped and differentiated. Decisions are only made on static configuration, structure, shapes and dtypes.",
  ["programs", "configurations"], "all code paths reachable from the public interface, including rarely used options",
  "Tests only trace the option combinations they use; an untraced branch breaks under jit for users.",
  ["optimistix/*.py", S + "*.py", "optimistix/compat/_impl.py"], [("lax.cond/where instead of Python branches", S + "*.py")], ["tracing errors"]),
P("C30", "Solves have no hidden state and never modify the caller's objects",
  "Calling any public function or solver method leaves the caller's options, args, solver and other inputs unmodified and neither reads nor writes mutable module-level or default-argument state. The result therefore depends only on the arguments, and verbose output has no effect on it.",
  ["histories", "inputs"], "all call sequences of all public functions and methods",
  "Tests do not compare repeated calls or inspect the objects they passed in.",
  ["optimistix/*.py", S + "*.py", "optimistix/compat/_impl.py"], [("pure functions over immutable modules; copied options", "optimistix/**")], ["inputs after the call"]),
P("C31", "Constructor arguments take effect as documented",
  "Every public solver, search, descent and adjoint uses exactly the tolerances, norm, linear solver, learning rate, search, method, history length, verbosity and other hyperparameters it was constructed with. Those not given take their documented defaults, and each named solver is assembled from its documented descent and search.",
  ["configurations"], "all public classes x all constructor arguments",
  "Tests construct solvers with a fixed set of arguments and check only the final answer.",
  [S + "*.py"], [("constructors of the public classes", S + "*.py")], ["behaviour of the constructed object"]),
P("C32", "Structure tags describe the operator they are attached to",
  "The tags a user passes are attached only to the matrix they are documented to describe: the Jacobian of the function for root finding, of fn(y)-y for fixed points, and the Hessian of the objective for minimisation and least squares. When a problem is converted to another type the tags are not carried over to a matrix they do not describe. The Jacobian that Newton and Chord solve with, and the one that the implicit adjoint of a root solves with, carry them.",
  ["configurations", "programs"], "all tags x all problem types, solvers and conversions",
  "No test passes tags that would be wrong for the other operator.",
  ["optimistix/_minimise.py", "optimistix/_least_squares.py", "optimistix/_root_find.py", "optimistix/_fixed_point.py", "optimistix/_ad.py", S + "gauss_newton.py", S + "newton_chord.py"],
  [("tags forwarded or dropped at each conversion", "optimistix/_*.py")], ["tags on Lineax operators"]),
P("C33", "Solves converge to the requested accuracy on well-posed problems",
  "On problems satisfying the textbook assumptions of a method, the method converges and the returned value is within the requested tolerance of a true solution.",
  ["inputs", "programs"], "all well-posed problems",
  "Tests sample a fixed list of problems; convergence is a statement over an infinite class of functions.",
  [S + "*.py"], [("the numerical methods themselves", S + "*.py")]),
P("C34", "Checkpointed-loop gradients equal gradients of the unrolled iteration",
  "With the recursive-checkpoint adjoint, the reverse-mode derivative of the returned value equals the derivative of the unrolled sequence of steps, for any number of checkpoints.",
  ["programs", "configurations"], "all problems, step counts and checkpoint counts",
  "Tests compare a few gradients; the loop primitive is external.",
  ["optimistix/_adjoint.py"], [("checkpointed while loop from Equinox", "optimistix/_adjoint.py")]),
P("C35", "Box-constraint helpers never leave the box",
  "tree_clip clips every element to its own bounds; feasible_step_length gives, for every element, the largest fraction in [0, 1] of the proposed step that stays within the bounds (shortened by the offset when one is given), never negative when already outside, and one when the step moves away from the bounds. The Cauchy point always lies inside the box: every point of the search along the projected gradient is clipped to both bounds and otherwise the gradient step is shortened to the smallest feasible fraction. The path is searched when some element meets the bound it moves towards before a full gradient step; the points tried are y - t*grad clipped to the box, with t the previous breakpoint, the next one, or the minimiser of the quadratic model between them, and the search stops at the first minimiser or after the last breakpoint. Moving the whole problem (y and both bounds) by a constant moves the Cauchy point by that constant.",
  ["inputs"], "all iterates, steps, gradients and bounds, including iterates on or outside the bounds",
  "Tests use a handful of boxes around the origin.",
  ["optimistix/_misc.py", S + "cauchy_point.py"], [("tree_clip, feasible_step_length, cauchy_point", "optimistix/_misc.py, " + S + "cauchy_point.py")], ["returned point", "returned step lengths"]),
P("C36", "Verbose reports describe the step they are made on",
  "A solver that accepts verbose calls the callback exactly once per step, with keyword arguments that are pairs of a name and a value. The reported trial point, its loss, the step size chosen by the search, the step counts (all starting at zero), and the last accepted iterate together with its own loss are the actual values of that step. verbose=True prints each of them once under its own name.",
  ["histories", "configurations"], "all solvers with a verbose argument and all accept/reject histories",
  "No test looks at what is reported.",
  [S + "gauss_newton.py", S + "quasi_newton.py", S + "optax.py", "optimistix/_misc.py"], [("verbose calls in step, default_verbose", S + "*.py")], ["arguments of the verbose callback", "printed output"]),
]
ids = [p["id"] for p in L]; assert len(set(ids)) == len(ids)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
print(len(L))
