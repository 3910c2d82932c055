"""Descents: steepest, Newton, damped Newton, indirect damped Newton, dogleg, nonlinear CG."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm
from .search import KINDS, model_parts

OK = mk("res", "successful")


def descent_run(c, d, fi, size, y=None):
    """query then step, from an arbitrary earlier state."""
    y = y or c.arrs("y")[0]
    st0 = c.meth(d, "init", y, fi)
    st = c.symstate(st0, "prev")
    q = c.meth(d, "query", y, fi, st)
    return st0, st, q, c.meth(d, "step", size, q)


def neg(t):
    return mk("neg", t)


@clause("C22", "C31", "C27")
def steepest(c):
    cls = c.cls("SteepestDescent")
    w = c.where(c.method(cls, "query"))
    s = c.scal("step_size")
    for k in KINDS:
        fi = c.finfo(k, "f_info")
        g = model_parts(c, fi)[1]
        for nrm in (None, c.norm_sym()):
            d = c.new(cls, norm=nrm) if nrm is not None else c.new(cls)
            _, _, _, out = descent_run(c, d, fi, s)
            v = g if nrm is None else c.expect("normalised", nrm, g)
            t = f"[{k}{',norm' if nrm is not None else ''}]"
            c.eq("steepest descent step " + t, w, c.item(out, 0), neg(c.expect("scaled", s, v)))
            c.eq("steepest descent result " + t, w, c.item(out, 1), OK, {"C27"})


def newton_parts(c, fi, solver):
    """(newton step, its result)"""
    k = fi.args[0].name
    g = lambda n: c.I.rec_get(fi, n)
    if k == "EvalGradHessianInv":
        return c.run(c.ref("op_mv"), g("hessian_inv"), g("grad")), OK
    op, v = (g("hessian"), g("grad")) if k == "EvalGradHessian" else (g("jac"), g("residual"))
    sol = c.expect("newton_solve", op, v, solver)
    return c.attr(sol, "value"), cm.promote(c, c.attr(sol, "result"))


@clause("C22", "C27", "C31", "C14")
def newton(c):
    cls = c.cls("NewtonDescent")
    w = c.where(c.method(cls, "query"))
    s = c.scal("step_size")
    ls = sym("linear_solver", notnone=True)
    for k in ("EvalGradHessian", "EvalGradHessianInv", "ResidualJac"):
        fi = c.finfo(k, "f_info")
        for nrm in (None, c.norm_sym()):
            d = c.new(cls, linear_solver=ls, **({"norm": nrm} if nrm is not None else {}))
            _, _, _, out = descent_run(c, d, fi, s)
            v, r = newton_parts(c, fi, ls)
            if nrm is not None:
                v = c.expect("normalised", nrm, v)
            t = f"[{k}{',norm' if nrm is not None else ''}]"
            c.eq("Newton descent step " + t, w, c.item(out, 0), neg(c.expect("scaled", s, v)), {"C22", "C31"})
            c.eq("Newton descent result " + t, w, c.item(out, 1), r, {"C27"})


def damped_parts(c, fi, lm, solver):
    g = lambda n: c.I.rec_get(fi, n)
    if fi.args[0].name == "EvalGradHessian":
        sol = c.expect("damped_minimise", g("hessian"), g("grad"), lm, solver)
    else:
        sol = c.expect("damped_least_squares", g("jac"), g("residual"), lm, solver)
    return c.attr(sol, "value"), cm.promote(c, c.attr(sol, "result"))


@clause("C22", "C27", "C31")
def damped(c):
    cls = c.cls("DampedNewtonDescent")
    w = c.where(c.method(cls, "step"))
    s = c.scal("step_size")
    ls = sym("linear_solver", notnone=True)
    for k in ("EvalGradHessian", "ResidualJac"):
        fi = c.finfo(k, "f_info")
        d = c.new(cls, linear_solver=ls)
        _, _, _, out = descent_run(c, d, fi, s)
        v, r = damped_parts(c, fi, c.expect("damping", s), ls)
        c.eq(f"damped Newton step [{k}]", w, c.item(out, 0), neg(v), {"C22", "C31"})
        c.eq(f"damped Newton result [{k}]", w, c.item(out, 1), r, {"C27"})


@clause("C22", "C27", "C31")
def indirect(c):
    cls = c.cls("IndirectDampedNewtonDescent")
    w = c.where(c.method(cls, "step"))
    s = c.scal("step_size")
    ls = sym("linear_solver", notnone=True)
    rf = c.obj("root_finder", c.cls("AbstractRootFinder"))
    nrm = c.norm_sym("trust_region_norm")
    lam0 = c.scal("lambda_0")
    rootfn = c.pub("root_find")
    with cm.opaque(c, rootfn):
        for k in ("EvalGradHessian", "ResidualJac"):
            fi = c.finfo(k, "f_info")
            d = c.new(cls, linear_solver=ls, root_finder=rf, trust_region_norm=nrm, lambda_0=lam0)
            _, _, _, out = descent_run(c, d, fi, s)
            nv, nr = newton_parts(c, fi, ls)
            radius = mk("mul", s, c.run(nrm, nv))
            calls = cm.find_calls(out, "root_find")
            if len(calls) != 1:
                c.add(f"one scalar root-find [{k}]", "undecided", w, f"{len(calls)} root_find calls")
                continue
            g = lambda n: c.I.rec_get(fi, n)
            if k == "EvalGradHessian":
                cmp_fn = c.expect("damped_length_minus", nrm, g("hessian"), g("grad"), ls, radius)
            else:
                cmp_fn = c.expect("damped_length_minus_ls", nrm, g("jac"), g("residual"), ls, radius)
            call = calls[0]
            kw = cm.call_args(call)
            exp_call = c.run(rootfn, cmp_fn, rf, lam0, **{n: kw[n] for n in ("options", "max_steps", "throw") if n in kw})
            lam = c.attr(exp_call, "value")
            v, r = damped_parts(c, fi, c.expect("damping", mk("div", const(1), lam)), ls)
            cond = mk("and", mk("eq", nr, OK), mk("lt", s, const(1)))
            c.eq(f"indirect damped step [{k}]", w, c.item(out, 0), neg(mk("select", cond, v, nv)), {"C22", "C31"})
            c.eq(f"indirect damped result [{k}]", w, c.item(out, 1), mk("select", cond, r, nr), {"C27"})
            c.eq(f"inner root-find does not raise [{k}]", w, kw.get("throw", TRUE), FALSE, {"C22"})
            positive_damping(c, w, k, kw.get("options", NONE))


def positive_damping(c, w, k, options):
    """The scalar search for the damping is given a positive lower bound."""
    name = f"damping is kept positive [{k}]"
    if options is NONE or options.op == "dict" and all(e[0] == "k" for e in options.args[0]):
        lo = [e[2] for e in (options.args[0] if options is not NONE else ()) if tm.is_str(e[1]) and tm.pyval(e[1]) == "lower"]
        v = c.nf(lo[0]) if lo else None
        if v is None or v.op == "num":
            c.ok(name, w, v is not None and v.args[0] > 0, "no positive lower bound on the damping", {"C22"})
            return
    c.add(name, "undecided", w, "options of the inner root-find not understood", {"C22"})


@clause("C23", "C27", "C31")
def dogleg(c):
    cls = c.cls("DoglegDescent")
    w = c.where(c.method(cls, "step"))
    wq = c.where(c.method(cls, "query"))
    s = c.scal("step_size")
    ls = sym("linear_solver", notnone=True)
    rf = c.obj("root_finder", c.cls("AbstractRootFinder"))
    rootfn = c.pub("root_find")
    two = c.pub("two_norm")
    for k in ("EvalGradHessian", "ResidualJac"):
        fi = c.finfo(k, "f_info")
        g = lambda n: c.I.rec_get(fi, n)
        for nname in ("two_norm", "custom"):
            nrm = two if nname == "two_norm" else c.norm_sym("trust_region_norm", distinct=True)
            with cm.opaque(c, rootfn):
                d = c.new(cls, linear_solver=ls, root_finder=rf, trust_region_norm=nrm)
                _, _, q, _ = descent_run(c, d, fi, s)
                F = lambda n: c.field(q, n)
                if k == "EvalGradHessian":
                    cauchy = c.expect("cauchy_minimise", g("grad"), g("hessian"))
                else:
                    cauchy = c.expect("cauchy_least_squares", g("residual"), g("jac"))
                nv, nr = newton_parts(c, fi, ls)
                t = f"[{k},{nname}]"
                c.eq("Cauchy step " + t, wq, F("cauchy"), cauchy, {"C23"})
                c.eq("Newton step " + t, wq, F("newton"), neg(nv), {"C23", "C31"})
                c.eq("Newton length " + t, wq, F("newton_norm"), c.run(nrm, nv), {"C23", "C31"})
                c.eq("Cauchy length " + t, wq, F("cauchy_norm"), c.run(nrm, cauchy), {"C23", "C31"})
                c.eq("Newton result " + t, wq, F("result"), nr, {"C27"})
                # the step, from an arbitrary state
                st = c.symstate(q, "state")
                S = lambda n: c.field(st, n)
                for n in ("newton_norm", "cauchy_norm"):
                    tm.set_meta(S(n), scalar=True)
                out = c.meth(d, "step", s, st)
                radius = mk("mul", S("newton_norm"), s)
                short = mk("gt", S("cauchy_norm"), radius)
                inside = mk("lt", s, const(1))
                yd, res = c.item(out, 0), c.item(out, 1)
                sc = c.expect("dogleg_cauchy", S("cauchy"), S("cauchy_norm"), radius)
                c.eq("scaled Cauchy branch " + t, w, cm.when(mk("and", short, inside), yd), cm.when(mk("and", short, inside), sc), {"C23"})
                full = mk("and", mk("not", short), mk("not", inside))
                c.eq("full Newton branch " + t, w, cm.when(full, yd), cm.when(full, S("newton")), {"C23"})
                mid = mk("and", mk("not", short), inside)
                ok = mk("eq", S("result"), OK)
                if nname == "two_norm":
                    # the two forms of the quadratic formula agree; dividing by -b-sqrt(b^2-4ac) loses all digits when b < 0 and c is near zero
                    forms = {n: c.expect("dogleg_quadratic", S("cauchy"), S("newton"), S("cauchy_norm"), radius, const(n))
                             for n in ("stable", "strict", "first", "second", "cancels")}
                    used = next((n for n, x in forms.items() if c.same(cm.when(mid, yd), cm.when(mid, c.expect("dogleg_point", x, S("cauchy"), S("newton"))))), "stable")
                    tt = forms[used]
                    c.ok("interpolation does not cancel " + t, w, used not in ("second", "cancels"),
                         "for b < 0 the point is 2c / (-b - sqrt(b^2 - 4ac)), which is 0/0 when c vanishes", {"C23"})
                    rr = OK
                else:
                    calls = cm.find_calls(out, "root_find")
                    if not calls and nrm not in set(tm.walk(yd)) and not any(x.op == "unknown" for x in tm.walk(yd)):
                        c.add("interpolation uses the trust-region norm " + t, "bad", w, "the point on the segment does not depend on the configured norm", {"C23", "C31"})
                        continue
                    if len(calls) != 1:
                        c.add("interpolation root-find " + t, "undecided", w, f"{len(calls)} calls")
                        continue
                    kw = cm.call_args(calls[0])
                    fnv = c.expect("dogleg_length_minus", nrm, S("cauchy"), S("newton"), radius)
                    ec = c.run(rootfn, fnv, rf, **{n: kw[n] for n in ("y0", "options", "max_steps", "throw") if n in kw})
                    tt, rr = c.attr(ec, "value"), c.attr(ec, "result")
                    o = kw.get("options", NONE)
                    c.eq("interpolation lower end " + t, w, c.I.freeze(c.I.getitem(o, const("lower"))), const(1.0), {"C23"})
                    c.eq("interpolation upper end " + t, w, c.I.freeze(c.I.getitem(o, const("upper"))), const(2.0), {"C23"})
                p = c.expect("dogleg_point", tt, S("cauchy"), S("newton"))
                c.eq("interpolated branch " + t, w, cm.when(mid, yd), cm.when(mid, p), {"C23"})
                c.eq("dogleg result " + t, w, cm.when(mk("or", full, mid), res),
                     cm.when(mk("or", full, mid), mk("select", ok, mk("select", mid, rr, OK), S("result"))), {"C27"})
                both = mk("and", short, inside)
                c.eq("dogleg result, Cauchy " + t, w, cm.when(both, res), cm.when(both, mk("select", ok, OK, S("result"))), {"C27"})


@clause("C21", "C27", "C31")
def nonlinear_cg(c):
    g, gp, dp = c.arrs("grad", "grad_prev", "d_prev")
    for n in ("polak_ribiere", "fletcher_reeves", "hestenes_stiefel", "dai_yuan"):
        f = c.pub(n)
        c.eq(f"{n} coefficient", c.where(f), c.run(f, g, gp, dp), c.expect(n, g, gp, dp), {"C21"})
    cls = c.cls("NonlinearCGDescent")
    w = c.where(c.method(cls, "query"))
    s = c.scal("step_size")
    method = c.fnsym("method", scalar_out=True)
    d = c.new(cls, method=method)
    for k in KINDS:
        fi = c.finfo(k, "f_info")
        gr = model_parts(c, fi)[1]
        st0, st, q, out = descent_run(c, d, fi, s)
        p0, p1 = c.field_paths(st0, ""), c.field_paths(st, "")
        if set(p0) != {"y_diff", "grad"}:
            raise Skip("CG descent state fields " + ",".join(p0))
        beta = c.run(method, gr, p1["grad"], p1["y_diff"])
        tm.set_meta(beta, scalar=True)
        dd = c.expect("cg_direction", beta, gr, p1["y_diff"])
        c.eq(f"direction [{k}]", w, c.field(q, "y_diff"), dd, {"C21", "C31"})
        c.eq(f"remembered gradient [{k}]", w, c.field(q, "grad"), gr, {"C21"})
        c.eq(f"step [{k}]", w, c.item(out, 0), c.expect("scaled", s, dd), {"C21"})
        c.eq(f"result [{k}]", w, c.item(out, 1), OK, {"C27"})
        c.eq(f"starts without direction [{k}]", w, p0["y_diff"], const(0), {"C21"})
        c.eq(f"starts without gradient [{k}]", w, p0["grad"], const(0), {"C21"})
