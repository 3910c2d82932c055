"""Newton, chord, bisection, fixed-point iteration."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm

OK = mk("res", "successful")
DIV = mk("res", "nonlinear_divergence")


def factorised(c, t):
    """(operator passed to a linear solve, operator its solver state was made from or None)"""
    names, rest = t.args[3], t.args[4:]
    st = norm.nf(c.I, rest[names.index("state")]) if "state" in names else None
    if st is not None and st.op == "mcall" and st.args[1] == "init" and len(st.args) > 3:
        return t.args[0], st.args[3]
    return t.args[0], None


@clause("C01", "C03", "C07", "C09", "C13", "C14", "C27", "C31")
def newton_chord(c):
    for name in ("Newton", "Chord"):
        cls = c.cls(name)
        w, wt = c.where(c.method(cls, "step")), c.where(c.method(cls, "terminate"))
        ls = sym("linear_solver", notnone=True)
        kappa = c.scal("kappa")
        for cauchy in (True, False):
            s = cm.solver(c, name, linear_solver=ls, kappa=kappa, cauchy_termination=TRUE if cauchy else FALSE)
            rtol, atol, nrm = (c.field(s, n) for n in ("rtol", "atol", "norm"))
            P = cm.problem(c, scalar=False)
            fn, y, args, tags = P["fn"], P["y"], P["args"], P["tags"]
            for bounds in ((), ("lower",), ("upper",), ("lower", "upper")):
                lo = sym("lower", notnone=True) if "lower" in bounds else NONE
                hi = sym("upper", notnone=True) if "upper" in bounds else NONE
                options = cm.dict_term(c, {n: sym(n, notnone=True) for n in bounds})
                t = f"[{name},{'cauchy' if cauchy else 'rate'},{'+'.join(bounds) or 'unbounded'}]"
                y0 = sym("y0", notnone=True, kind="array")
                st0 = c.meth(s, "init", fn, y0, args, options, P["f_struct"], P["aux_struct"], tags)
                st = c.symstate(st0)
                if name == "Chord":
                    # the operator and factorisation made at the initial guess are carried along
                    for p, leaf in c.field_paths(st0, "").items():
                        if p.startswith("linear_state"):
                            st = set_path(c, st, p, leaf)
                fx = c.run(fn, y, args)
                f, aux = c.item(fx, 0), c.item(fx, 1)
                jac = c.expect("jacobian_at", fn, y if name == "Newton" else y0, args)
                sol = c.expect("newton_solve", jac, f, ls)
                out, ev = c.run_events(c.I.getattr(s, "step"), fn, y, args, options, st, tags)
                y1, st1, aux1 = (c.item(out, i) for i in range(3))
                for op, made in [factorised(c, e.data) for e in ev if e.kind == "linsolve"]:
                    if made is not None:
                        c.eq("the operator solved with is the one factorised " + t, w, op, made, {"C14", "C07"})
                diff0 = c.attr(sol, "value")
                ny = c.expect("newton_move", y, diff0, lo, hi)
                diff = mk("sub", y, ny) if bounds else diff0
                c.eq("new iterate " + t, w, cm.nostate(y1), ny, {"C14", "C31"})
                c.eq("aux " + t, w, aux1, aux, {"C09"})
                size = c.expect("scaled_size", rtol, atol, nrm, ny, diff)
                # stopping test right after this step
                term = c.meth(s, "terminate", fn, y1, args, options, st1, tags)
                res = cm.promote(c, c.attr(sol, "result"))
                failed = mk("not", mk("eq", res, OK))
                if cauchy:
                    stop = c.expect("newton_cauchy_stop", rtol, atol, nrm, ny, diff, f)
                    r = OK
                else:
                    k0, d0 = c.field(st, "step"), c.field(st, "diffsize")
                    tm.set_meta(d0, scalar=True)
                    tm.set_meta(k0, scalar=True)
                    e = c.expect("newton_rate_stop", mk("add", k0, const(1)), size, d0, kappa, OK, DIV)
                    stop, r = c.item(e, 0), c.item(e, 1)
                    c.eq("step counter start " + t, w, c.field(st0, "step"), const(0), {"C14"})
                    c.eq("step counter " + t, w, c.field(st1, "step"), mk("add", k0, const(1)), {"C14"})
                    c.eq("step size kept " + t, w, cm.nostate(c.field(st1, "diffsize")), size, {"C14"})
                c.eq("stops " + t, wt, cm.nostate(c.item(term, 0)), mk("or", failed, stop), {"C14", "C13", "C01", "C31"})
                c.eq("a failed linear solve stops " + t, wt, mk("or", mk("not", failed), cm.nostate(c.item(term, 0))), TRUE, {"C14", "C27"})
                c.eq("result " + t, wt, cm.nostate(c.item(term, 1)), mk("select", failed, res, r), {"C14", "C27", "C01"})
                # before the first step
                t0 = c.meth(s, "terminate", fn, y0, args, options, st0, tags)
                c.eq("does not stop before the first step " + t, wt, c.item(t0, 0), FALSE, {"C14", "C01"}) if not cauchy else None
                c.eq("no failure before the first step " + t, wt, c.item(t0, 1), OK, {"C14", "C27"}) if cauchy else None
                pp = c.meth(s, "postprocess", fn, y, aux, args, options, st, tags, sym("result"))
                wp = c.where(c.method(cls, "postprocess"))
                c.eq("postprocess value " + t, wp, c.item(pp, 0), y, {"C03"})
                c.eq("postprocess aux " + t, wp, c.item(pp, 1), aux, {"C03", "C09"})


def set_path(c, rec, path, leaf):
    parts = path.split(".")

    def go(t, ps):
        if not ps:
            return leaf
        if t.op == "rec":
            return c.I.rec_set(t, **{ps[0]: go(c.I.rec_get(t, ps[0]), ps[1:])})
        if t.op == "tuple":
            i = int(ps[0])
            return tup(*[go(x, ps[1:]) if j == i else x for j, x in enumerate(t.args)])
        return leaf

    return go(rec, parts)


@clause("C01", "C03", "C09", "C12", "C13", "C15", "C27", "C31")
def bisection(c):
    cls = c.cls("Bisection")
    w, wi, wt = (c.where(c.method(cls, m)) for m in ("step", "init", "terminate"))
    P = cm.problem(c, scalar=True)
    fn, args, tags = P["fn"], P["args"], P["tags"]
    y = c.scal("y")
    tm.set_meta(y, shape=())
    lo, hi = c.scal("lower"), c.scal("upper")
    options = cm.dict_term(c, {"lower": lo, "upper": hi})
    fs = cm.scalar_struct(c)
    for flip, expand in ((TRUE, FALSE), (FALSE, FALSE), (const("detect"), FALSE), (const("detect"), TRUE)):
        s = cm.solver(c, "Bisection", flip=flip, expand_if_necessary=expand)
        rtol, atol = c.field(s, "rtol"), c.field(s, "atol")
        t = f"[flip={tm.show(flip, 1)},expand={tm.show(expand, 1)}]"
        st0, ev = c.run_events(c.I.getattr(s, "init"), fn, y, args, options, fs, P["aux_struct"], tags)
        errs = [e for e in ev if e.kind == "errif"]
        if flip.args[-1] == "detect" and flip not in (TRUE, FALSE):
            c.eq("orientation " + t, wi, c.field(st0, "flip"), c.expect("bisect_flip", fn, args, lo, hi), {"C15"})
            if expand is TRUE:
                ex = c.expect("bisect_expand", fn, args, lo, hi)
                c.eq("expanded lower " + t, wi, c.field(st0, "lower"), c.item(ex, 0), {"C15"})
                c.eq("expanded upper " + t, wi, c.field(st0, "upper"), c.item(ex, 1), {"C15"})
            else:
                bad = c.expect("bisect_no_root", fn, args, lo, hi)
                if len(errs) != 1:
                    c.ok("no sign change raises " + t, wi, len(errs) > 0, "no runtime error for an interval without a sign change", {"C15", "C12"})
                else:
                    c.eq("no sign change raises " + t, wi, cm.err_cond(errs[0]), bad, {"C15", "C12"})
        else:
            c.eq("orientation " + t, wi, c.field(st0, "flip"), flip, {"C15", "C31"})
        if expand is FALSE:
            c.eq("lower " + t, wi, c.field(st0, "lower"), lo, {"C15"})
            c.eq("upper " + t, wi, c.field(st0, "upper"), hi, {"C15"})
        st = c.symstate(st0)
        for n in ("lower", "upper", "error"):
            tm.set_meta(c.field(st, n), scalar=True)
        tm.set_meta(c.field(st, "flip"), bool=True, scalar=True)
        out = c.meth(s, "step", fn, y, args, options, st, tags)
        S = lambda n: c.field(st, n)
        e = c.expect("bisect", fn, y, args, S("lower"), S("upper"), S("flip"))
        st1 = c.item(out, 1)
        c.eq("next point " + t, w, c.item(out, 0), c.item(e, 0), {"C15"})
        c.eq("new lower " + t, w, c.field(st1, "lower"), c.item(e, 1), {"C15"})
        c.eq("new upper " + t, w, c.field(st1, "upper"), c.item(e, 2), {"C15"})
        c.eq("orientation kept " + t, w, c.field(st1, "flip"), S("flip"), {"C15"})
        c.eq("function value kept " + t, w, c.field(st1, "error"), c.item(e, 3), {"C15"})
        c.eq("aux " + t, w, c.item(out, 2), c.item(e, 4), {"C09"})
        term = c.meth(s, "terminate", fn, y, args, options, st, tags)
        c.eq("stops " + t, wt, c.item(term, 0), c.expect("bisect_stop", rtol, atol, y, S("lower"), S("upper"), S("error")), {"C15", "C13", "C01", "C31"})
        c.eq("result " + t, wt, c.item(term, 1), OK, {"C27"})
        t0 = c.meth(s, "terminate", fn, y, args, options, st0, tags)
        c.eq("starts unconverged " + t, wi, c.field(st0, "error"), const(float("inf")), {"C15", "C01"})
        pp = c.meth(s, "postprocess", fn, y, sym("aux"), args, options, st, tags, sym("result"))
        wp = c.where(c.method(cls, "postprocess"))
        c.eq("postprocess value " + t, wp, c.item(pp, 0), y, {"C03"})
        c.eq("postprocess aux " + t, wp, c.item(pp, 1), sym("aux"), {"C03", "C09"})


@clause("C01", "C03", "C09", "C13", "C17", "C27", "C31")
def fixed_point_iteration(c):
    name = "FixedPointIteration"
    cls = c.cls(name)
    w, wi, wt = (c.where(c.method(cls, m)) for m in ("step", "init", "terminate"))
    damp = c.scal("damp")
    s = cm.solver(c, name, damp=damp)
    rtol, atol, nrm = (c.field(s, n) for n in ("rtol", "atol", "norm"))
    P = cm.problem(c, scalar=False)
    fn, y, args, tags, options = P["fn"], P["y"], P["args"], P["tags"], P["options"]
    st0 = c.meth(s, "init", fn, y, args, options, P["f_struct"], P["aux_struct"], tags)
    st = c.symstate(st0)
    out = c.meth(s, "step", fn, y, args, options, st, tags)
    e = c.expect("fixed_point_move", fn, y, args, damp)
    ny = c.item(e, 0)
    c.eq("new iterate", w, c.item(out, 0), ny, {"C17", "C31"})
    c.eq("aux", w, c.item(out, 2), c.item(e, 1), {"C09"})
    term = c.meth(s, "terminate", fn, c.item(out, 0), args, options, c.item(out, 1), tags)
    size = c.expect("scaled_size", rtol, atol, nrm, ny, mk("sub", y, ny))
    c.eq("stops", wt, c.item(term, 0), mk("lt", size, const(1)), {"C17", "C13", "C01", "C31"})
    c.eq("result", wt, c.item(term, 1), OK, {"C27"})
    t0 = c.meth(s, "terminate", fn, y, args, options, st0, tags)
    c.eq("does not stop before the first step", wi, c.item(t0, 0), FALSE, {"C17", "C01"})
    pp = c.meth(s, "postprocess", fn, y, sym("aux"), args, options, st, tags, sym("result"))
    wp = c.where(c.method(cls, "postprocess"))
    c.eq("postprocess value", wp, c.item(pp, 0), y, {"C03"})
    c.eq("postprocess aux", wp, c.item(pp, 1), sym("aux"), {"C03", "C09"})
