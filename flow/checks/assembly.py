"""Constructor arguments: what every public class is assembled from and what an omitted argument means."""
from fractions import Fraction

from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm


def number(x):
    return const(float(Fraction(x)))


def auto(well_posed):
    return mk("linsolver", "AutoLinearSolver", ("well_posed",), well_posed)


def direct(name):
    return mk("linsolver", name, ())


def table(c):
    """class -> (documented argument order, documented defaults)."""
    pub = c.pub
    mx, two = pub("max_norm"), pub("two_norm")
    new = lambda n, **kw: c.new(c.cls(n), **kw)
    newton = lambda: new("Newton", rtol=number("1/100"), atol=number("1/100"), norm=mx, kappa=number("1/100"), linear_solver=auto(NONE), cauchy_termination=TRUE)
    bisection = lambda: new("Bisection", rtol=number("1/1000"), atol=number("1/1000"), flip=const("detect"), expand_if_necessary=FALSE)
    armijo = lambda: new("BacktrackingArmijo", decrease_factor=number("1/2"), slope=number("1/10"), step_init=number(1))
    gn = dict(norm=mx, linear_solver=auto(NONE), verbose=FALSE)
    qn = dict(norm=mx, use_inverse=TRUE, verbose=FALSE)
    tr = dict(high_cutoff=number("99/100"), low_cutoff=number("1/100"), high_constant=number("7/2"), low_constant=number("1/4"))
    nt = dict(norm=mx, kappa=number("1/100"), linear_solver=auto(NONE), cauchy_termination=TRUE)
    return {
        "BacktrackingArmijo": ("decrease_factor slope step_init", dict(decrease_factor=number("1/2"), slope=number("1/10"), step_init=number(1))),
        "ClassicalTrustRegion": ("high_cutoff low_cutoff high_constant low_constant", tr),
        "LinearTrustRegion": ("high_cutoff low_cutoff high_constant low_constant", tr),
        "LearningRate": ("learning_rate", {}),
        "SteepestDescent": ("norm", dict(norm=NONE)),
        "NewtonDescent": ("norm linear_solver", dict(norm=NONE, linear_solver=auto(NONE))),
        "NonlinearCGDescent": ("method", {}),
        "DampedNewtonDescent": ("linear_solver", dict(linear_solver=auto(NONE))),
        "IndirectDampedNewtonDescent": ("lambda_0 linear_solver root_finder trust_region_norm",
                                        dict(lambda_0=number(1), linear_solver=auto(FALSE), root_finder=newton, trust_region_norm=two)),
        "DoglegDescent": ("linear_solver root_finder trust_region_norm", dict(linear_solver=auto(NONE), root_finder=bisection, trust_region_norm=two)),
        "GaussNewton": ("rtol atol norm linear_solver verbose", gn),
        "LevenbergMarquardt": ("rtol atol norm linear_solver verbose", dict(gn, linear_solver=direct("QR"))),
        "IndirectLevenbergMarquardt": ("rtol atol norm lambda_0 linear_solver root_finder verbose",
                                       dict(norm=mx, lambda_0=number(1), linear_solver=auto(FALSE), root_finder=newton, verbose=FALSE)),
        "Dogleg": ("rtol atol norm linear_solver verbose", gn),
        "GradientDescent": ("learning_rate rtol atol norm", dict(norm=mx)),
        "NonlinearCG": ("rtol atol norm method search", dict(norm=mx, method=pub("polak_ribiere"), search=armijo)),
        "BFGS": ("rtol atol norm use_inverse verbose", qn),
        "DFP": ("rtol atol norm use_inverse verbose", qn),
        "LBFGS": ("rtol atol norm use_inverse history_length verbose", dict(qn, history_length=const(10))),
        "NelderMead": ("rtol atol norm rdelta adelta", dict(norm=mx, rdelta=number("1/20"), adelta=number("1/4000"))),
        "Newton": ("rtol atol norm kappa linear_solver cauchy_termination", nt),
        "Chord": ("rtol atol norm kappa linear_solver cauchy_termination", nt),
        "Bisection": ("rtol atol flip expand_if_necessary", dict(flip=const("detect"), expand_if_necessary=FALSE)),
        "GoldenSearch": ("rtol atol", {}),
        "FixedPointIteration": ("rtol atol norm damp", dict(norm=mx, damp=number(0))),
        "OptaxMinimiser": ("optim rtol atol norm verbose", dict(norm=mx, verbose=FALSE)),
        "BestSoFarMinimiser": ("solver", {}), "BestSoFarLeastSquares": ("solver", {}),
        "BestSoFarRootFinder": ("solver", {}), "BestSoFarFixedPoint": ("solver", {}),
        "ImplicitAdjoint": ("linear_solver", dict(linear_solver=auto(NONE))),
        "RecursiveCheckpointAdjoint": ("checkpoints", dict(checkpoints=NONE)),
    }


def value(v):
    return v() if callable(v) and not isinstance(v, tm.T) else v


def given(c, name, arg):
    """A symbolic value for one constructor argument."""
    if arg in ("norm", "trust_region_norm"):
        return c.norm_sym("given_" + arg)
    if arg == "verbose":
        f = c.fnsym("given_printer")
        tm.set_meta(f, callable=True)
        return f
    if arg == "method":
        return c.fnsym("given_method")
    if arg in ("use_inverse", "cauchy_termination", "expand_if_necessary"):
        return None
    if arg in ("flip", "checkpoints", "history_length"):
        return None
    if arg == "linear_solver":
        return sym("given_linear_solver", notnone=True)
    if arg == "root_finder":
        return c.obj("given_root_finder", c.cls("AbstractRootFinder"))
    if arg == "search":
        return c.obj("given_search", c.cls("AbstractSearch"))
    if arg == "solver":
        base = {"BestSoFarMinimiser": "AbstractMinimiser", "BestSoFarLeastSquares": "AbstractLeastSquaresSolver",
                "BestSoFarRootFinder": "AbstractRootFinder", "BestSoFarFixedPoint": "AbstractFixedPointSolver"}[name]
        return c.obj("given_solver", c.cls(base))
    if arg == "optim":
        return sym("given_optim", notnone=True)
    return c.scal("given_" + arg)


def literals(arg):
    return {"use_inverse": (TRUE, FALSE), "cauchy_termination": (TRUE, FALSE), "expand_if_necessary": (TRUE, FALSE),
            "flip": (const("detect"), TRUE, FALSE), "checkpoints": (NONE, const(7)), "history_length": (const(3), const(10))}[arg]


def full(c, name, order):
    kw = {}
    for a in order:
        v = given(c, name, a)
        kw[a] = v if v is not None else literals(a)[0]
    return kw


@clause("C31")
def defaults(c):
    """An omitted argument means the documented value; positional arguments come in the documented order."""
    T = table(c)
    for name, (order, dflt) in T.items():
        cls = c.cls(name)
        order = order.split()
        w = c.where(cls.lookup("__init__")[0] or mk("class", cls))
        params = cm.init_params(c, cls)
        lost = [a for a in order if a not in params]
        if lost:
            c.add(f"{name} takes {', '.join(lost)}", "bad", w, f"constructor takes {', '.join(params)}")
            continue
        kw = full(c, name, order)
        for a in order:
            if a not in dflt:
                continue
            k1 = {k: v for k, v in kw.items() if k != a}
            got, ev = c.run_events(mk("class", cls), **k1)
            if got.op != "rec":
                c.add(f"{name}({a}=...) may be omitted", "undecided" if got.op == "unknown" else "bad", w, tm.show(got, 3))
                continue
            exp = c.new(cls, **dict(k1, **{a: value(dflt[a])}))
            same(c, f"{name}({a}=...) defaults to {label(c, value(dflt[a]))}", w, got, exp)
        pos = [a for a in order if not (name == "OptaxMinimiser" and a != "optim")]
        got = c.new(cls, *[kw[a] for a in pos], **{a: kw[a] for a in order if a not in pos})
        same(c, f"{name} takes {', '.join(pos)} in this order", w, got, c.new(cls, **kw))


def label(c, v):
    if v.op == "rec":
        return v.args[0].name
    for n in ("max_norm", "two_norm", "polak_ribiere"):
        if v is c.pub(n):
            return n
    return tm.show(v, 3)


def apply_fns(c, t):
    """Replace functions held by a record by what they compute."""
    x, = c.arrs("probe")
    p, q, r = c.arrs("probe_a", "probe_b", "probe_c")

    def go(t):
        if t.op == "tuple":
            return tup(*[go(u) for u in t.args])
        if t.op == "rec":
            return mk("rec", t.args[0], t.args[1], *[fn(n, u) for n, u in zip(t.args[1], t.args[2:])])
        return t

    def fn(n, u):
        if u.op in ("fn", "partial", "bound") and "norm" in n:
            return c.run(u, x)
        if u.op in ("fn", "partial", "bound") and n == "method":
            return c.run(u, p, q, r)
        return go(u)

    return go(t)


def same(c, name, w, got, exp):
    try:
        a, b = apply_fns(c, got), apply_fns(c, exp)
    except (Skip, norm.TooBig):
        a, b = got, exp
    c.eq(name, w, a, b)


PARTS = {
    # solver -> (descent, its arguments from the solver's arguments), (search, ...)
    "GaussNewton": (("NewtonDescent", {"linear_solver": "linear_solver"}, {"norm": NONE}), ("LearningRate", {}, {"learning_rate": const(1)})),
    "LevenbergMarquardt": (("DampedNewtonDescent", {"linear_solver": "linear_solver"}, {}), ("ClassicalTrustRegion", {}, {})),
    "IndirectLevenbergMarquardt": (("IndirectDampedNewtonDescent", {"lambda_0": "lambda_0", "linear_solver": "linear_solver", "root_finder": "root_finder"}, {}), ("ClassicalTrustRegion", {}, {})),
    "Dogleg": (("DoglegDescent", {"linear_solver": "linear_solver"}, {}), ("ClassicalTrustRegion", {}, {})),
    "GradientDescent": (("SteepestDescent", {}, {"norm": NONE}), ("LearningRate", {"learning_rate": "learning_rate"}, {})),
    "NonlinearCG": (("NonlinearCGDescent", {"method": "method"}, {}), None),
    "BFGS": (("NewtonDescent", {}, {"norm": NONE, "linear_solver": mk("linsolver", "Cholesky", ())}), ("BacktrackingArmijo", {}, {})),
    "DFP": (("NewtonDescent", {}, {"norm": NONE, "linear_solver": mk("linsolver", "Cholesky", ())}), ("BacktrackingArmijo", {}, {})),
    "LBFGS": (("NewtonDescent", {}, {"norm": NONE}), ("BacktrackingArmijo", {}, {})),
}


@clause("C31", "C22")
def parts(c):
    """Each named solver is made of its documented descent and search, and holds what it was given."""
    T = table(c)
    for name, (ds, ss) in PARTS.items():
        cls = c.cls(name)
        w = c.where(cls.lookup("__init__")[0] or mk("class", cls))
        order = T[name][0].split()
        variants = [full(c, name, order)]
        if "use_inverse" in order:
            variants.append(dict(variants[0], use_inverse=FALSE))
        for kw in variants:
            t = "" if len(variants) == 1 else " [inverse]" if kw["use_inverse"] is TRUE else " [direct]"
            s = c.new(cls, **kw)
            for slot, spec in (("descent", ds), ("search", ss)):
                got = c.attr(s, slot)
                if spec is None:
                    c.eq(f"{name} searches with the search it was given", w, got, kw["search"])
                    continue
                n, m, fixed = spec
                a = {k: value(v) for k, v in T[n][1].items()}
                a.update(fixed)
                a.update({k: kw[v] for k, v in m.items()})
                same(c, f"{name} {slot} is {n}{t}", w, got, c.new(c.cls(n), **a))


HELD = ("rtol", "atol", "norm", "rdelta", "adelta", "history_length", "use_inverse", "kappa", "linear_solver", "cauchy_termination",
        "flip", "expand_if_necessary", "damp", "lambda_0", "root_finder", "trust_region_norm", "solver", "optim", "verbose", "method",
        "learning_rate", "high_cutoff", "low_cutoff", "high_constant", "low_constant", "decrease_factor", "slope", "step_init", "checkpoints", "search")


@clause("C31")
def held(c):
    """The attribute named after an argument is the argument."""
    T = table(c)
    for name, (order, dflt) in T.items():
        cls = c.cls(name)
        order = order.split()
        w = c.where(cls.lookup("__init__")[0] or mk("class", cls))
        kw = full(c, name, order)
        params = cm.init_params(c, cls)
        if any(a not in params for a in order):
            continue
        for a in order:
            vals = [kw[a]] if given(c, name, a) is not None else literals(a)
            for v in vals:
                s = c.new(cls, **dict(kw, **{a: v}))
                if s.op != "rec" or c.I.rec_get(s, a) is None:
                    continue
                c.eq(f"{name}.{a} is the one given" + ("" if len(vals) == 1 else f" [{tm.show(v, 1)}]"), w, c.attr(s, a), v)


ENTRY = {"minimise": "AbstractMinimiser", "least_squares": "AbstractLeastSquaresSolver", "root_find": "AbstractRootFinder", "fixed_point": "AbstractFixedPointSolver"}


@clause("C31", "C02", "C03", "C04")
def entry_defaults(c):
    """An omitted argument of an entry point means the documented value."""
    I = c.I
    empty = I.call(c.ref("no_tags"), [], {})
    doc = dict(args=NONE, options=NONE, has_aux=FALSE, max_steps=const(256), throw=TRUE, tags=empty)
    props = {"args": {"C31", "C04"}, "options": {"C31", "C04"}, "has_aux": {"C31", "C04"}, "max_steps": {"C31", "C02"}, "throw": {"C31", "C03"}, "tags": {"C31", "C04"},
             "adjoint": {"C31"}}
    m = c.mod("_iterate")
    core = m.frame.vars.get("iterative_solve") if m is not None else None
    if core is None or core.op != "fn":
        raise Skip("iterative_solve not found")
    for name, base in ENTRY.items():
        f = c.pub(name)
        w = c.where(f)
        for b in (base, "AbstractLeastSquaresSolver", "AbstractMinimiser") if name in ("root_find", "fixed_point") else (base,):
            kw = dict(args=sym("args"), options=c.mapping(), has_aux=TRUE, max_steps=sym("max_steps"), adjoint=sym("adjoint", cls=c.cls("AbstractAdjoint"), notnone=True),
                      throw=c.flag("throw"), tags=sym("tags", notnone=True))
            fn = c.fnsym("fn", pair=True)
            solver = sym("solver", cls=c.cls(b), notnone=True)
            y0, = c.arrs("y0")
            d = dict(doc, adjoint=c.new(c.cls("ImplicitAdjoint"), linear_solver=auto(NONE)))
            for a in kw:
                k1 = {k: v for k, v in kw.items() if k != a}
                fx = fn if a != "has_aux" else c.fnsym("fn_plain")
                got = calls(c, f, core, fx, solver, y0, k1)
                exp = calls(c, f, core, fx, solver, y0, dict(k1, **{a: d[a]}))
                t = f"{name} without {a}" + ("" if b == base else f" [{b[8:]}]")
                if got is None or exp is None:
                    c.add(t, "undecided", w, "no single solve", props[a])
                    continue
                c.eq(t, w, got, exp, props[a])


def calls(c, f, core, fn, solver, y0, kw):
    out = []
    I = c.I

    def stub(b):
        fn = I.freeze(b["fn"])
        y, a = c.arrs("any_y", "any_args")
        d = [(k, I.freeze(v)) for k, v in b.items() if k not in ("fn", "rewrite_fn")]
        out.append(tup(*[v for _, v in sorted(d)], I.freeze(I.call(b["fn"], [y, a], {}))))
        return c.rec(c.cls("Solution"), value=sym("value", notnone=True), result=sym("result", result=True), aux=sym("aux"), state=sym("state"), stats=sym("stats"))

    I.stubs[core.args[0]] = stub
    try:
        c.run(f, fn, solver, y0, **kw)
    finally:
        I.stubs.pop(core.args[0], None)
    return out[0] if len(out) == 1 else None


@clause("C31", "C13")
def norms(c):
    """The three public norms are the norms they are named after."""
    x, = c.arrs("x")
    vals = {"max_norm": mk("max_norm", x), "rms_norm": mk("rms_norm", x), "two_norm": mk("sqrt", mk("dot", x, x))}
    vals = {k: c.nf(v) for k, v in vals.items()}
    for n in vals:
        w = c.where(c.pub(n))
        got = c.nf(c.run(c.pub(n), x))
        if norm.equal(got, vals[n]):
            c.add(n, "ok", w)
        elif any(norm.equal(got, v) for v in vals.values()) or not any(u.op in c.FOREIGN or u.op not in ("sym", "max_norm", "dot", "sqrt", "rms_norm", "poly", "mono", "const") for u in tm.walk(got)):
            c.add(n, "bad", w, f"computes {tm.show(got, 4)}")
        else:
            c.add(n, "undecided", w, f"computes {tm.show(got, 4)}")


DOCUMENTED = """
    AbstractAdjoint AbstractBFGS AbstractDFP AbstractDescent AbstractFixedPointSolver AbstractGaussNewton AbstractGradientDescent
    AbstractIterativeSolver AbstractLBFGS AbstractLeastSquaresSolver AbstractMinimiser AbstractQuasiNewton AbstractRootFinder AbstractSearch
    BFGS BacktrackingArmijo BestSoFarFixedPoint BestSoFarLeastSquares BestSoFarMinimiser BestSoFarRootFinder Bisection Chord
    ClassicalTrustRegion DFP DampedNewtonDescent Dogleg DoglegDescent FixedPointIteration FunctionInfo GaussNewton GoldenSearch
    GradientDescent ImplicitAdjoint IndirectDampedNewtonDescent IndirectLevenbergMarquardt LBFGS LearningRate LevenbergMarquardt
    LinearTrustRegion NelderMead Newton NewtonDescent NonlinearCG NonlinearCGDescent OptaxMinimiser RESULTS RecursiveCheckpointAdjoint
    Solution SteepestDescent dai_yuan fixed_point fletcher_reeves hestenes_stiefel least_squares max_norm minimise polak_ribiere rms_norm
    root_find two_norm
""".split()


@clause("C31")
def names(c):
    """No two documented names stand for the same class or function."""
    seen = {}
    for n in DOCUMENTED:
        v = c.pkg.frame.vars.get(n)
        if not isinstance(v, tm.T) or v.op not in ("class", "fn"):
            continue
        seen.setdefault(v, []).append(n)
    for v, ns in seen.items():
        if len(ns) == 1:
            c.add(f"{ns[0]} is a definition of its own", "ok", c.where(v))
        else:
            c.add(f"{ns[0]} is a definition of its own", "bad", c.where(v), f"optimistix.{' and optimistix.'.join(ns)} are one definition")
