"""Accept/reject bookkeeping of the Gauss-Newton, gradient-descent and quasi-Newton families."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm


def build(c, name, **kw):
    """A solver with symbolic tolerances and norm and opaque search and descent."""
    cls = c.cls(name)
    s = cm.solver(c, name, **kw)
    descent = c.obj("descent", c.cls("AbstractDescent"))
    search = c.obj("search", c.cls("AbstractSearch"))
    for n in ("descent", "search"):
        if c.I.rec_get(s, n) is None:
            raise Skip(f"{name} has no field {n}")
    return cls, c.I.rec_set(s, descent=descent, search=search), descent, search


FAMILY = [
    ("GaussNewton", "gn", {}), ("LevenbergMarquardt", "gn", {}), ("IndirectLevenbergMarquardt", "gn", {}), ("Dogleg", "gn", {}),
    ("GradientDescent", "gd", {}), ("NonlinearCG", "gd", {}),
    ("BFGS", "qn", {"use_inverse": TRUE}), ("BFGS", "qn", {"use_inverse": FALSE}),
    ("DFP", "qn", {"use_inverse": TRUE}), ("DFP", "qn", {"use_inverse": FALSE}),
    ("LBFGS", "qn", {"use_inverse": TRUE}), ("LBFGS", "qn", {"use_inverse": FALSE}),
]


@clause("C01", "C03", "C04", "C08", "C09", "C10", "C13", "C19", "C20", "C21", "C22", "C23", "C25", "C27", "C31")
def accept_reject(c):
    for name, fam, kw in FAMILY:
        for opt in ([{}, {"jac": "fwd"}, {"jac": "bwd"}] if fam == "gn" else [{}, {"autodiff_mode": "fwd"}, {"autodiff_mode": "bwd"}]):
            one(c, name, fam, kw, opt)


def leaves(t):
    return leaves(t.args[1]) | leaves(t.args[2]) if t.op == "ite" else {t}


def one(c, name, fam, kw, opt):
    cls, s, descent, search = build(c, name, **kw)
    tag = name + ("" if not kw else "[inv]" if kw["use_inverse"] is TRUE else "[direct]") + ("" if not opt else "[%s]" % ",".join(opt.values()))
    P = cm.problem(c, scalar=fam != "gn")
    fn, y, args, tags = P["fn"], P["y"], P["args"], P["tags"]
    options = cm.dict_term(c, opt)
    w = c.where(c.method(cls, "step"))
    st0 = c.meth(s, "init", fn, y, args, options, P["f_struct"], P["aux_struct"], tags)
    st = c.symstate(st0)
    F = lambda t, n: c.field(t, n)
    rtol, atol, nrm = F(s, "rtol"), F(s, "atol"), F(s, "norm")
    c.eq(f"{tag} starts at the initial guess", w, F(st0, "y_eval"), y, {"C08", "C04"})
    c.eq(f"{tag} starts as first step", w, F(st0, "first_step"), TRUE, {"C08", "C13"})
    c.eq(f"{tag} starts unterminated", w, F(st0, "terminate"), FALSE, {"C13", "C01"})
    c.eq(f"{tag} starts without failure", w, F(st0, "result"), mk("res", "successful"), {"C27", "C01"})
    if fam == "gn":
        nums = {x for x in leaves(c.nf(F(F(st0, "f_info"), "residual"))) if x.op == "num"}
        if nums:
            c.ok(f"{tag} starts with a zero residual", w, nums == {norm.num(0)}, "the residual before any evaluation is " + ", ".join(tm.show(x, 2) for x in nums), {"C13", "C08"})
    out = c.meth(s, "step", fn, y, args, options, st, tags)
    y1, st1, aux1 = (c.item(out, i) for i in range(3))
    ye, first, aux0, fi0 = F(st, "y_eval"), F(st, "first_step"), F(st, "aux"), F(st, "f_info")
    if fam == "gn":
        ev = c.expect("gauss_newton_eval", fn, ye, args)
        f, jac, aux_e = (c.item(ev, i) for i in range(3))
        fi_cls = c.cls("FunctionInfo.ResidualJac")
        fe = c.rec(fi_cls, residual=f, jac=jac)
        fi_new = fe
        f_old = F(fi0, "residual")
    else:
        ev = c.expect("objective_eval", fn, ye, args)
        f, grad, aux_e = (c.item(ev, i) for i in range(3))
        fe = c.rec(c.cls("FunctionInfo.Eval"), f=f)
        fi_new = c.rec(c.cls("FunctionInfo.EvalGrad"), f=f, grad=grad)
        f_old = F(fi0, "f")
    so = c.meth(search, "step", first, y, ye, fi0, fe, F(st, "search_state"))
    step_size, accept, sres, sstate = (c.item(so, i) for i in range(4))
    if fam == "qn":
        uh = c.meth(s, "update_hessian", y, ye, fi0, fi_new, F(st, "hessian_update_state"))
        fi_new, hus = c.item(uh, 0), c.item(uh, 1)
        c.eq(f"{tag} hessian update state", w, F(st1, "hessian_update_state"), cm.sel(c, accept, hus, F(st, "hessian_update_state")), {"C08", "C19", "C20"})
    ds = cm.sel(c, accept, c.meth(descent, "query", ye, fi_new, F(st, "descent_state")), F(st, "descent_state"))
    y_new = cm.sel(c, accept, ye, y)
    c.eq(f"{tag} new iterate", w, y1, y_new, {"C08"})
    c.eq(f"{tag} function information", w, F(st1, "f_info"), cm.sel(c, accept, fi_new, fi0), {"C08"})
    c.eq(f"{tag} aux kept in state", w, F(st1, "aux"), cm.sel(c, accept, aux_e, aux0), {"C08", "C09"})
    c.eq(f"{tag} descent state", w, F(st1, "descent_state"), ds, {"C08", "C22", "C23", "C21"})
    c.eq(f"{tag} search state", w, F(st1, "search_state"), sstate, {"C08", "C10"})
    c.eq(f"{tag} no longer first step", w, F(st1, "first_step"), FALSE, {"C08", "C10", "C13"})
    dstep = c.meth(descent, "step", step_size, ds)
    c.eq(f"{tag} next trial point", w, F(st1, "y_eval"), mk("add", y_new, c.item(dstep, 0)), {"C08"})
    c.eq(f"{tag} result", w, F(st1, "result"), c.expect("first_failure", sres, c.item(dstep, 1), mk("res", "successful")), {"C27", "C01"})
    conv = c.expect("cauchy", rtol, atol, nrm, ye, mk("sub", ye, y), f, mk("sub", f, f_old))
    term = mk("and", accept, conv) if fam == "gn" else mk("and", accept, mk("and", mk("not", first), conv))
    c.eq(f"{tag} convergence flag", w, F(st1, "terminate"), term, {"C13", "C08", "C31"})
    c.eq(f"{tag} aux of the input iterate", w, aux1, cm.sel(c, first, cm.sel(c, accept, aux_e, aux0), aux0), {"C09"})
    if c.I.rec_get(st1, "num_accepted_steps") is not None:
        c.eq(f"{tag} accepted steps start", w, F(st0, "num_accepted_steps"), const(0), {"C25", "C08"})
        c.eq(f"{tag} accepted steps", w, F(st1, "num_accepted_steps"),
             mk("add", F(st, "num_accepted_steps"), cm.sel(c, accept, const(1), const(0))), {"C25", "C08"})
    wt = c.where(c.method(cls, "terminate"))
    t = c.meth(s, "terminate", fn, y, args, options, st, tags)
    c.eq(f"{tag} stopping flag", wt, c.item(t, 0), F(st, "terminate"), {"C13", "C08", "C01"})
    c.eq(f"{tag} failure code", wt, c.item(t, 1), F(st, "result"), {"C27", "C01"})
    wp = c.where(c.method(cls, "postprocess"))
    p = c.meth(s, "postprocess", fn, y, aux0, args, options, st, tags, sym("result"))
    c.eq(f"{tag} postprocess value", wp, c.item(p, 0), y, {"C03", "C08"})
    c.eq(f"{tag} postprocess aux", wp, c.item(p, 1), aux0, {"C03", "C09"})
