"""Failures inside an iteration are reported through result codes, never raised from within."""
from ..kit import clause, Skip
from .. import terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm
from .dtypes import SOLVERS, instance
from .search import KINDS


def throws(*ts):
    """Linear solves that raise on failure."""
    out = []
    seen = set()
    for t in ts:
        for x in tm.walk(t, seen):
            if x.op == "linsolve":
                kw = dict(zip(x.args[3], x.args[4:]))
                if kw.get("throw", TRUE) is TRUE:
                    out.append("a failed linear solve raises" + (f" at {x.loc[0]}:{x.loc[1]} in {x.loc[2]}" if x.loc and x.loc[0] else ""))
    return out


def raising_solves(*ts):
    """Inner solves that raise on failure."""
    out, seen = [], set()
    for t in ts:
        for x in tm.walk(t, seen):
            if x.op == "mcall" and x.args[1] == "root_find" and cm.call_args(x).get("throw", TRUE) is not FALSE:
                out.append("a failed inner root-find raises" + (f" at {x.loc[0]}:{x.loc[1]} in {x.loc[2]}" if x.loc and x.loc[0] else ""))
    return out


def runtime_errors(c, events):
    out = []
    for e in events:
        if e.kind == "errif" and e.pc is not FALSE and c.nb(e.data[0]) is not FALSE:
            out.append(f"an error is raised at run time: {tm.show(e.data[0], 3)}")
    return out


@clause("C03", "C27")
def solvers(c):
    for name, kw, scalar in SOLVERS:
        cls, tag, P, s, y, fs, options, _ = instance(c, name, kw, scalar)
        w = c.where(c.method(cls, "step"))
        fn, args, tags = P["fn"], P["args"], P["tags"]
        st0 = c.meth(s, "init", fn, y, args, options, fs, P["aux_struct"], tags)
        st = c.symstate(st0)
        n = len(c.I.events)
        out = c.meth(s, "step", fn, y, args, options, st, tags)
        term = c.meth(s, "terminate", fn, y, args, options, st, tags)
        pp = c.meth(s, "postprocess", fn, y, sym("aux"), args, options, st, tags, sym("result"))
        bad = throws(st0, out, term, pp) + runtime_errors(c, c.I.events[n:])
        c.ok(f"{tag} raises nothing while iterating", w, not bad, "; ".join(sorted(set(bad))))


@clause("C03", "C27")
def descents(c):
    size = c.scal("step_size")
    y = c.arrs("y")[0]
    hyper = {"linear_solver": sym("linear_solver", notnone=True), "root_finder": c.obj("root_finder", c.cls("AbstractRootFinder")), "lambda_0": c.scal("lambda_0"),
             "trust_region_norm": c.norm_sym("trust_region_norm"), "norm": c.norm_sym()}
    for name in ("SteepestDescent", "NonlinearCGDescent", "NewtonDescent", "DampedNewtonDescent", "IndirectDampedNewtonDescent", "DoglegDescent"):
        cls = c.cls(name)
        w = c.where(c.method(cls, "query"))
        with cm.opaque(c, c.pub("root_find")):
            d = c.new(cls, **{n: hyper[n] for n in cm.init_params(c, cls) if n in hyper})
            for k in ("EvalGrad",) if name in ("SteepestDescent", "NonlinearCGDescent") else ("EvalGradHessian", "ResidualJac"):
                fi = c.finfo(k, "f_info")
                n = len(c.I.events)
                q = c.meth(d, "query", y, fi, c.symstate(c.meth(d, "init", y, fi)))
                out = c.meth(d, "step", size, q)
                bad = throws(q, out) + raising_solves(q, out) + runtime_errors(c, c.I.events[n:])
                c.ok(f"{name}[{k}] raises nothing", w, not bad, "; ".join(sorted(set(bad))))


@clause("C03", "C27")
def searches(c):
    y, ye = c.arrs("y", "y_eval")
    for name in ("LearningRate", "BacktrackingArmijo", "ClassicalTrustRegion", "LinearTrustRegion"):
        cls = c.cls(name)
        w = c.where(c.method(cls, "step"))
        s = c.new(cls, **{n: c.scal(n) for n in cm.init_params(c, cls)})
        for k in ("EvalGrad",) if name != "ClassicalTrustRegion" else ("EvalGradHessian", "ResidualJac"):
            fi = c.finfo(k, "f_info")
            st = c.symstate(c.meth(s, "init", y, fi))
            n = len(c.I.events)
            c.meth(s, "step", c.flag("first_step"), y, ye, fi, c.finfo("Eval", "f_eval_info"), st)
            bad = runtime_errors(c, c.I.events[n:])
            c.ok(f"{name}[{k}] raises nothing", w, not bad, "; ".join(sorted(set(bad))))
