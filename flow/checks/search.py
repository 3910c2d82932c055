"""Searches and the local model of the objective."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, tup, NONE, TRUE, FALSE

KINDS = ("EvalGrad", "EvalGradHessian", "EvalGradHessianInv", "ResidualJac")


def model_parts(c, fi):
    """(objective, gradient, (hessian operator or None)) of a FunctionInfo, by definition."""
    k = fi.args[0].name
    g = lambda n: c.I.rec_get(fi, n)
    if k == "ResidualJac":
        r, j = g("residual"), g("jac")
        return c.expect("half_sum_squares", r), c.expect("jt_r", j, r), ("jtj", j)
    if k == "Residual":
        return c.expect("half_sum_squares", g("residual")), None, None
    if k == "Eval":
        return g("f"), None, None
    h = ("op", g("hessian")) if k == "EvalGradHessian" else None
    return g("f"), g("grad"), h


def search_call(c, s, fi, fe, first, y, ye, st):
    return c.run_events(c.I.getattr(s, "step"), first, y, ye, fi, fe, st)


@clause("C10", "C27")
def armijo(c):
    cls = c.cls("BacktrackingArmijo")
    w = c.where(c.method(cls, "step"))
    s = c.new(cls, decrease_factor=c.scal("decrease_factor"), slope=c.scal("slope"), step_init=c.scal("step_init"))
    first = c.flag("first_step")
    y, ye = c.arrs("y", "y_eval")
    for k in KINDS:
        fi = c.finfo(k, "f_info")
        st0 = c.meth(s, "init", y, fi)
        st = c.symstate(st0, "state")
        size = one_scalar(c, st)
        size0 = one_scalar(c, st0)
        c.eq(f"initial step size [{k}]", w, size0, c.scal("step_init"), {"C10"})
        for ek in ("Eval", "EvalGrad") if k != "ResidualJac" else ("Residual", "ResidualJac"):
            fe = c.finfo(ek, "f_eval")
            out, ev = search_call(c, s, fi, fe, first, y, ye, st)
            f, g, _ = model_parts(c, fi)
            fev, _, _ = model_parts(c, fe)
            exp = c.expect("armijo", first, y, ye, f, fev, g, c.scal("slope"), c.scal("decrease_factor"), c.scal("step_init"), size)
            c.eq(f"step size [{k},{ek}]", w, c.item(out, 0), c.item(exp, 0), {"C10"})
            c.eq(f"accept [{k},{ek}]", w, c.item(out, 1), c.item(exp, 1), {"C10"})
            c.eq(f"result [{k},{ek}]", w, c.item(out, 2), mk("res", "successful"), {"C10", "C27"})
            c.eq(f"state [{k},{ek}]", w, one_scalar(c, c.item(out, 3)), c.item(exp, 0), {"C10"})


def one_scalar(c, st):
    """The single array carried by a search state."""
    p = c.field_paths(st, "")
    if len(p) == 1:
        return next(iter(p.values()))
    for n in p:
        if "step_size" in n:
            return p[n]
    raise Skip("search state has several fields: " + ", ".join(p))


@clause("C10", "C11", "C27")
def trust_region(c):
    for name, kinds in (("ClassicalTrustRegion", ("EvalGradHessian", "ResidualJac")), ("LinearTrustRegion", KINDS)):
        cls = c.cls(name)
        w = c.where(c.method(cls, "step"))
        wp = c.where(c.method(cls, "predict_reduction"))
        hp = {n: c.scal(n) for n in ("high_cutoff", "low_cutoff", "high_constant", "low_constant")}
        s = c.new(cls, **hp)
        first = c.flag("first_step")
        y, ye = c.arrs("y", "y_eval")
        yd = mk("sub", ye, y)
        for k in kinds:
            fi = c.finfo(k, "f_info")
            st0 = c.meth(s, "init", y, fi)
            st = c.symstate(st0, "state")
            size = one_scalar(c, st)
            c.eq(f"{name} initial step size [{k}]", w, one_scalar(c, st0), const(1.0), {"C10"})
            f, g, h = model_parts(c, fi)
            if name.startswith("Linear"):
                pred = c.expect("linear_model", g, yd)
            elif h[0] == "op":
                pred = c.expect("quadratic_model", g, h[1], yd)
            else:
                pred = c.run(c.ref("gauss_newton_model"), fi.args[2], h[1], yd)
            got = c.meth(s, "predict_reduction", yd, fi)
            c.eq(f"{name} predicted reduction [{k}]", wp, got, pred, {"C11"})
            for ek in ("Eval", "EvalGrad") if k != "ResidualJac" else ("Residual", "ResidualJac"):
                fe = c.finfo(ek, "f_eval")
                out, ev = search_call(c, s, fi, fe, first, y, ye, st)
                fev, _, _ = model_parts(c, fe)
                exp = c.expect("trust_region", first, mk("sub", fev, f), pred, hp["high_cutoff"], hp["low_cutoff"],
                               hp["high_constant"], hp["low_constant"], size)
                c.eq(f"{name} step size [{k},{ek}]", w, c.item(out, 0), c.item(exp, 0), {"C10"})
                c.eq(f"{name} accept [{k},{ek}]", w, c.item(out, 1), c.item(exp, 1), {"C10"})
                c.eq(f"{name} result [{k},{ek}]", w, c.item(out, 2), mk("res", "successful"), {"C10", "C27"})
                c.eq(f"{name} state [{k},{ek}]", w, one_scalar(c, c.item(out, 3)), c.item(exp, 0), {"C10"})


@clause("C10", "C27")
def learning_rate(c):
    cls = c.cls("LearningRate")
    w = c.where(c.method(cls, "step"))
    lr = c.scal("learning_rate")
    s = c.new(cls, lr)
    y, ye = c.arrs("y", "y_eval")
    fi, fe = c.finfo("EvalGrad", "f_info"), c.finfo("Eval", "f_eval")
    st = c.meth(s, "init", y, fi)
    out, _ = search_call(c, s, fi, fe, c.flag("first_step"), y, ye, c.symstate(st))
    c.eq("step size", w, c.item(out, 0), lr, {"C10"})
    c.eq("accept", w, c.item(out, 1), TRUE, {"C10"})
    c.eq("result", w, c.item(out, 2), mk("res", "successful"), {"C10", "C27"})


@clause("C11")
def function_info(c):
    y = c.arrs("y")[0]
    for k in KINDS + ("Eval", "Residual"):
        fi = c.finfo(k, "f_info")
        f, g, h = model_parts(c, fi)
        cls = fi.args[0]
        c.eq(f"{k}.as_min", c.where(c.method(cls, "as_min")), c.meth(fi, "as_min"), f)
        if g is not None:
            m = cls.lookup("compute_grad_dot")[0]
            if m is not None:
                c.eq(f"{k}.compute_grad_dot", c.where(m), c.meth(fi, "compute_grad_dot", y), c.expect("linear_model", g, y))
        m = cls.lookup("compute_grad")[0]
        if m is not None and g is not None:
            c.eq(f"{k}.compute_grad", c.where(m), c.meth(fi, "compute_grad"), g)


# ---- complex problems: the normal form identifies conj(x) with x, so the forms that take conjugates are compared on their own
def operator(t, k):
    """(operator, transposed, conjugated)"""
    flip = False
    while t.op in ("transpose", "conj") or (t.op == "attr" and t.args[-1] == "T"):
        if t.op == "conj":
            k = not k
        else:
            flip = not flip
        t = t.args[0]
    if t.op != "sym":
        raise Skip(f"operator {tm.show(t, 3)}")
    return (t.args[0], flip, k)


def vector(t, k):
    """The operators applied to a vector, outermost first, and the vector itself, of the conjugate of t when k is set."""
    ops = []
    while t.op in ("conj", "mv"):
        if t.op == "conj":
            k = not k
            t = t.args[0]
        else:
            ops.append(operator(t.args[0], k))
            t = t.args[1]
    if t.op != "sym":
        raise Skip(f"vector {tm.show(t, 3)}")
    return tuple(ops), (t.args[0], k)


def inner(t, k=False):
    """A sesquilinear form dot(a, b) = conj(a).b as `factor, (vector, operators..., vector)`, equal for equal forms."""
    f = 1
    while True:
        if t.op == "conj":
            k = not k
            t = t.args[0]
        elif t.op == "real" or (t.op == "attr" and t.args[-1] == "real"):
            t = t.args[0]
        elif t.op == "mul" and any(x.op == "const" for x in t.args):
            i = next(i for i, x in enumerate(t.args) if x.op == "const")
            f = f * t.args[i].args[1]
            t = t.args[1 - i]
        elif t.op == "div" and t.args[1].op == "const":
            f = f / t.args[1].args[1]
            t = t.args[0]
        else:
            break
    if t.op != "dot":
        raise Skip(f"form {tm.show(t, 3)}")
    (oa, a), (ob, b) = vector(t.args[0], not k), vector(t.args[1], k)
    turn = lambda ops: tuple((n, not s, j) for n, s, j in reversed(ops))
    seq = (a, *turn(oa), *ob, b)
    return f, min(seq, (b, *turn(seq[1:-1]), a))


def flipped(seq):
    c = [tuple(x[:-1]) + (not x[-1],) for x in seq]
    return min(tuple(c), (c[-1], *[(n, not s, j) for n, s, j in reversed(c[1:-1])], c[0]))


@clause("C11")
def complex_values(c):
    y = c.arrs("y")[0]
    for k in KINDS + ("Residual",):
        fi = c.finfo(k, "f_info")
        cls = fi.args[0]
        g = lambda n: c.I.rec_get(fi, n)
        forms = []
        if k in ("ResidualJac", "Residual"):
            forms.append(("as_min", (), mk("mul", const(0.5), mk("dot", g("residual"), g("residual")))))
        if k == "ResidualJac":
            forms.append(("compute_grad_dot", (y,), mk("dot", mk("mv", mk("transpose", g("jac")), mk("conj", g("residual"))), y)))
        elif k != "Residual":
            forms.append(("compute_grad_dot", (y,), mk("dot", g("grad"), y)))
        for name, args, exp in forms:
            m = cls.lookup(name)[0]
            if m is None:
                continue
            got = c.I.freeze(c.meth(fi, name, *args))
            t = f"{k}.{name} for complex values"
            try:
                (f1, s1), (f2, s2) = inner(got), inner(exp)
            except Skip as ex:
                c.add(t, "undecided", c.where(m), str(ex))
                continue
            # the real part, which is what the searches compare, is that of the conjugate as well
            c.ok(t, c.where(m), float(f1) == float(f2) and s1 in (s2, flipped(s2)), f"found {tm.show(got, 6)} ; required {tm.show(exp, 6)} or its conjugate")
        m = cls.lookup("compute_grad")[0]
        if m is not None and k == "ResidualJac":
            got = c.I.freeze(c.meth(fi, "compute_grad"))
            exp = mk("mv", mk("transpose", g("jac")), mk("conj", g("residual")))
            try:
                same = vector(got, False) == vector(exp, False)
            except Skip as ex:
                c.add(f"{k}.compute_grad for complex values", "undecided", c.where(m), str(ex))
                continue
            c.ok(f"{k}.compute_grad for complex values", c.where(m), same, f"found {tm.show(got, 6)} ; required {tm.show(exp, 6)}")
