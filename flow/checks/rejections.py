"""Configurations that must be rejected, and when."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm


def raise_events(events):
    return [e for e in events if e.kind == "raise" and e.pc is not FALSE]


def raised_when(c, events):
    """Condition under which a Python exception is raised."""
    cond = FALSE
    for e in raise_events(events):
        cond = norm.b_or(cond, python_condition(c, e))
    return cond


def python_condition(c, e):
    """Path condition of an event without the array-level branches around it, which are all traced."""
    pc = e.pc
    for t in e.traced:
        for a in gates(c.nb(t)):
            pc = norm.b_or(norm.restrict(pc, {a: True}), norm.restrict(pc, {a: False}))
    return pc


def gates(b):
    return [x.args[0] for x in tm.walk(b) if x.op == "ite"]


def raises(c, events):
    """Description of exceptions that are always raised; empty when there are none."""
    return "; ".join(str(e.data[0]) for e in raise_events(events) if python_condition(c, e) is TRUE)


ALL_KINDS = ("Eval", "EvalGrad", "EvalGradHessian", "EvalGradHessianInv", "Residual", "ResidualJac")
GRADIENT = {"EvalGrad", "EvalGradHessian", "EvalGradHessianInv", "ResidualJac"}
HESSIAN = {"EvalGradHessian", "ResidualJac"}
NEEDS = [
    # class, what it needs from the solver
    ("SteepestDescent", GRADIENT), ("NonlinearCGDescent", GRADIENT), ("NewtonDescent", HESSIAN | {"EvalGradHessianInv"}),
    ("DampedNewtonDescent", HESSIAN), ("IndirectDampedNewtonDescent", HESSIAN), ("DoglegDescent", HESSIAN),
    ("BacktrackingArmijo", GRADIENT), ("LinearTrustRegion", GRADIENT), ("ClassicalTrustRegion", HESSIAN), ("LearningRate", set(ALL_KINDS)),
]


def broken(t):
    """Evaluating the value needs an attribute or name that does not exist."""
    return any(x.op in ("unknown", "raises") for x in tm.walk(t))


@clause("C12")
def function_information(c):
    """Every search and descent against every kind of function information."""
    y, ye = c.arrs("y", "y_eval")
    size = c.scal("step_size")
    for name, need in NEEDS:
        cls = c.cls(name)
        kw = {"linear_solver": sym("linear_solver", notnone=True)} if "linear_solver" in cm.init_params(c, cls) else {}
        if name == "IndirectDampedNewtonDescent":
            kw = {"lambda_0": c.scal("lambda_0"), "linear_solver": sym("linear_solver", notnone=True), "root_finder": c.obj("root_finder", c.cls("AbstractRootFinder"))}
            kw = {k: v for k, v in kw.items() if k in cm.init_params(c, cls)}
        if name == "LearningRate":
            kw = {"learning_rate": c.scal("learning_rate")}
        obj = c.new(cls, **kw)
        search = c.I.subclass(cls, c.cls("AbstractSearch")) if hasattr(c.I, "subclass") else cls.lookup("query")[0] is None
        w = c.where(c.method(cls, "step" if search else "query"))
        for k in ALL_KINDS:
            fi = c.finfo(k, "f_info")
            n = len(c.I.events)
            try:
                st0 = c.meth(obj, "init", y, fi)
                st = c.symstate(st0)
                if search:
                    fe = c.finfo("Residual" if k.startswith("Residual") else "Eval", "f_eval")
                    out = c.meth(obj, "step", c.flag("first"), y, ye, fi, fe, st)
                else:
                    with cm.opaque(c, c.pub("root_find")):
                        q = c.meth(obj, "query", y, fi, st)
                        out = tup(q, c.meth(obj, "step", size, q))
            except norm.TooBig:
                c.add(f"{name} with {k}", "undecided", w, "too large")
                continue
            ev = c.I.events[n:]
            cond = raised_when(c, ev)
            if k in need:
                c.ok(f"{name} accepts {k}", w, cond is FALSE, f"raises {raises(c, ev)}")
            else:
                ok = cond is TRUE or broken(out)
                c.ok(f"{name} rejects {k}", w, ok, f"computes {tm.show(out, 4)} without the information it needs")


HYPER = [
    # class, parameters, conditions any of which may be the rejected set
    ("BacktrackingArmijo", ("decrease_factor", "slope", "step_init"), ("armijo_invalid",)),
    ("LinearTrustRegion", ("high_cutoff", "low_cutoff", "high_constant", "low_constant"), ("trust_region_invalid", "trust_region_invalid_strict")),
    ("ClassicalTrustRegion", ("high_cutoff", "low_cutoff", "high_constant", "low_constant"), ("trust_region_invalid", "trust_region_invalid_strict")),
]


def field_errors(c, rec):
    """Condition under which the fields of a record raise when used."""
    cond = FALSE
    for x in tm.walk(rec):
        if x.op == "errif":
            cond = mk("or", cond, x.args[1])
    return cond


@clause("C12", "C10", "C31")
def hyperparameters(c):
    for name, params, refs in HYPER:
        cls = c.cls(name)
        vals = {p: c.scal(p) for p in params}
        obj = c.new(cls, **vals)
        f = cls.lookup("__post_init__")[0] or cls.lookup("__init__")[0]
        w = c.where(f) if f is not None else c.where(mk("class", cls))
        got = field_errors(c, obj)
        alts = [c.expect(r, *[vals[p] for p in params]) for r in refs]
        if any(same(c, got, a) for a in alts):
            c.add(f"{name} rejects invalid hyperparameters", "ok", w, "", {"C12"})
        else:
            c.eq(f"{name} rejects invalid hyperparameters", w, got, alts[0], {"C12"})
        for p in params:
            c.eq(f"{name}.{p} is the one given", w, c.field(obj, p), vals[p], {"C31", "C10"})


def same(c, a, b):
    try:
        return norm.equal(c.nf(a), c.nf(b))
    except norm.TooBig:
        return False


@clause("C12", "C15", "C16")
def scalar_only(c):
    """Bisection and golden section search take and return scalars."""
    for name, pid in (("Bisection", "C15"), ("GoldenSearch", "C16")):
        cls = c.cls(name)
        w = c.where(c.method(cls, "init"))
        P = cm.problem(c, scalar=True)
        y, = c.arrs("y_any")
        lo, hi = c.arrs("lower_any", "upper_any")
        fs = sym("f_any", notnone=True)
        options = cm.dict_term(c, {"lower": lo, "upper": hi})
        s = cm.solver(c, name)
        _, ev = c.run_events(c.I.getattr(s, "init"), P["fn"], y, P["args"], options, fs, P["aux_struct"], P["tags"])
        cond = raised_when(c, ev)
        exp = c.expect("not_scalar", y, lo, hi, fs)
        c.eq(f"{name} rejects everything but scalars", w, cond, exp, {"C12", pid})
    s0 = dict(fn=P["fn"], args=P["args"])
    y, lo, hi = c.scal("y_0d"), c.scal("lower_0d"), c.scal("upper_0d")
    for x in (y, lo, hi):
        tm.set_meta(x, attrs={"shape": tup(), "ndim": const(0)})
    fs = mk("sds", tup(), sym("f_dtype", notnone=True))
    options = cm.dict_term(c, {"lower": lo, "upper": hi})
    cls = c.cls("Bisection")
    w = c.where(c.method(cls, "init"))
    for flip, ok in ((TRUE, True), (FALSE, True), (const("detect"), True), (const("yes"), False), (NONE, False)):
        s = cm.solver(c, "Bisection", flip=flip)
        st, ev = c.run_events(c.I.getattr(s, "init"), P["fn"], y, P["args"], options, fs, P["aux_struct"], P["tags"])
        cond = raised_when(c, ev)
        c.ok(f"flip={tm.show(flip, 1)} is {'accepted' if ok else 'rejected'}", w, cond is (FALSE if ok else TRUE) or (not ok and broken(st)),
             f"raises when {tm.show(cond, 4)}", {"C12", "C15"})
        if flip is const("detect"):
            c.eq("an interval without a sign change cannot be used", w, field_errors(c, st), c.expect("bisect_no_root", P["fn"], P["args"], lo, hi), {"C12", "C15"})


MODES = [
    ("GaussNewton", "jac", True), ("LevenbergMarquardt", "jac", True), ("IndirectLevenbergMarquardt", "jac", True), ("Dogleg", "jac", True),
    ("GradientDescent", "autodiff_mode", False), ("NonlinearCG", "autodiff_mode", False), ("BFGS", "autodiff_mode", False),
    ("DFP", "autodiff_mode", False), ("LBFGS", "autodiff_mode", False),
]


@clause("C12")
def differentiation_modes(c):
    from .steps import build
    for name, opt, ls in MODES:
        cls, s, descent, search = build(c, name)
        w = c.where(c.method(cls, "step"))
        P = cm.problem(c, scalar=not ls)
        for v, ok in ((None, True), ("fwd", True), ("bwd", True), ("rev", False), ("", False)):
            options = cm.dict_term(c, {} if v is None else {opt: v})
            n = len(c.I.events)
            st0 = c.meth(s, "init", P["fn"], P["y"], P["args"], options, P["f_struct"], P["aux_struct"], P["tags"])
            c.meth(s, "step", P["fn"], P["y"], P["args"], options, c.symstate(st0), P["tags"])
            cond = raised_when(c, c.I.events[n:])
            c.ok(f"{name} {opt}={v!r} is {'accepted' if ok else 'rejected'}", w, cond is (FALSE if ok else TRUE), f"raises when {tm.show(cond, 4)}")


@clause("C12", "C31")
def verbosity(c):
    for name in ("GaussNewton", "LevenbergMarquardt", "IndirectLevenbergMarquardt", "Dogleg", "BFGS", "DFP", "LBFGS"):
        cls = c.cls(name)
        w = c.where(mk("class", cls))
        if "verbose" not in cm.init_params(c, cls):
            c.add(f"{name}(verbose=...)", "bad", w, "no verbose argument")
            continue
        user = c.fnsym("printer")
        tm.set_meta(user, callable=True)
        for v, ok in ((TRUE, True), (FALSE, True), (user, True), (const("loss"), False), (NONE, False)):
            s, ev = c.run_events(mk("class", cls), rtol=c.scal("rtol"), atol=c.scal("atol"), verbose=v)
            cond = raised_when(c, ev)
            c.ok(f"{name}(verbose={tm.show(v, 1)}) is {'accepted' if ok else 'rejected'}", w, cond is (FALSE if ok else TRUE), f"raises when {tm.show(cond, 4)}", {"C12"})
            if v is user and s.op == "rec":
                c.ok(f"{name} prints through the callable it was given", w, c.field(s, "verbose") is user, f"uses {tm.show(c.field(s, 'verbose'), 3)}", {"C31"})


@clause("C12")
def objectives(c):
    """minimise wants one floating-point scalar; fixed_point wants fn(y) to look like y."""
    fn = c.fnsym("fn", pair=True)
    y0, = c.arrs("y0")
    args = sym("args")
    common = dict(has_aux=TRUE, max_steps=sym("max_steps"), throw=FALSE, adjoint=sym("adjoint", cls=c.cls("AbstractAdjoint"), notnone=True))
    solver = sym("solver", cls=c.cls("AbstractMinimiser"), notnone=True)
    w = c.where(c.pub("minimise"))
    sol, ev = c.run_events(c.pub("minimise"), fn, solver, y0, args, c.mapping(), **common)
    got = raised_when(c, ev)
    c.eq("minimise rejects anything but a floating-point scalar objective", w, got, c.expect("not_a_loss", fn, y0, args))
    for kind in ("AbstractFixedPointSolver", "AbstractRootFinder", "AbstractLeastSquaresSolver"):
        solver = sym("solver", cls=c.cls(kind), notnone=True)
        w = c.where(c.pub("fixed_point"))
        sol, ev = c.run_events(c.pub("fixed_point"), fn, solver, y0, args, c.mapping(), **common)
        got = raised_when(c, ev)
        c.eq(f"fixed_point rejects a function whose output does not match its input [{kind[8:]}]", w, got, c.expect("not_an_endomorphism", fn, y0, args))
