"""Implicit differentiation: the rule itself, and the condition each entry point differentiates."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm
from .driver import ROUTES, call_args, is_empty_set

CONDITIONS = {
    "minimise": "zero_gradient",
    "least_squares": "zero_residual_gradient",
    "root_find": "zero_value",
    "fixed_point": "zero_displacement",
}
# a minimiser asked for a root: the condition of the minimisation problem is used instead (see KNOWN_FINDINGS.txt)
NORM_CONDITIONS = {"root_find": "zero_norm_gradient", "fixed_point": "zero_displacement_norm_gradient"}


def proportional(c, got, exp):
    """Equal up to a constant non-zero factor, which drops out of the implicit function theorem."""
    for k in (1, -1, 2, -2):
        for a, b in ((got, exp), (exp, got)):
            try:
                if norm.equal(c.nf(a), c.nf(mk("mul", const(k), b))):
                    return True
            except norm.TooBig:
                pass
    return False


def condition(c, name, w, got, exp, props):
    if proportional(c, got, exp):
        c.add(name, "ok", w, "", props)
        return True
    return c.eq(name, w, got, exp, props)


@clause("C04", "C06", "C07", "C32")
def conditions(c):
    for entry, kind, ref, wrapped in ROUTES:
        t = f"[{entry}, {kind[8:]}]"
        w = c.where(c.pub(entry))
        I = c.I
        fn = c.fnsym("fn", pair=True)
        nrm = c.norm_sym("solver.norm")
        solver = sym("solver", cls=c.cls(kind), notnone=True)
        tm.set_meta(solver, attrs={"norm": nrm, "atol": c.scal("solver.atol"), "rtol": c.scal("solver.rtol")})
        y0, = c.arrs("y0")
        args, tags = sym("args"), sym("tags", notnone=True)
        adj = sym("adjoint", cls=c.cls("AbstractAdjoint"), notnone=True)
        sol = c.run(c.pub(entry), fn, solver, y0, args, c.mapping(), has_aux=TRUE, max_steps=sym("max_steps"), throw=FALSE, adjoint=adj, tags=tags)
        ms = list(dict.fromkeys(x for x in tm.walk(sol) if x.op == "mcall" and x.args[1] == "apply"))
        if len(ms) != 1:
            c.add("adjoint is applied once " + t, "undecided" if sol.op != "rec" else "bad", w, f"{len(ms)} calls of adjoint.apply", {"C04", "C06"})
            continue
        c.ok("the user's adjoint is the one applied " + t, w, ms[0].args[0] is adj, f"apply called on {tm.show(ms[0].args[0], 3)}", {"C04", "C07"})
        a = call_args(ms[0])
        root = sym("root", notnone=True, kind="array")
        inputs = a["inputs"]
        if inputs.op != "tuple":
            c.add("inputs of the adjoint " + t, "undecided", w, tm.show(inputs, 3), {"C06"})
            continue
        got = c.run(a["rewrite_fn"], root, sym("residual"), tup(*inputs.args, sym("while_loop")))
        want = CONDITIONS[entry]
        exp = c.expect(want, fn, nrm, root, args)
        alt = NORM_CONDITIONS.get(entry) if kind == "AbstractMinimiser" else None
        if alt and proportional(c, got, c.expect(alt, fn, nrm, root, args)):
            c.add("condition of the original problem is differentiated " + t, "bad", w,
                  "the gradient of solver.norm of the residual is linearised instead of the residual itself", {"C06"})
        else:
            condition(c, "condition that is differentiated " + t, w, got, exp, {"C06"})
        cut = [x for x in tm.walk(got) if x.op == "stopgrad"]
        c.ok("the condition is differentiated in full " + t, w, not cut, f"derivative of {tm.show(cut[0], 4) if cut else ''} is dropped", {"C06"})
        got_tags = a["tags"]
        if got_tags is not tags and not is_empty_set(got_tags):
            c.eq("tags given to the adjoint " + t, w, got_tags, tags, {"C32", "C06"})
        else:
            ok = is_empty_set(got_tags) or (entry, kind) not in (("root_find", "AbstractMinimiser"), ("fixed_point", "AbstractMinimiser"))
            c.ok("tags given to the adjoint " + t, w, ok, "the tags describe another operator than the one the adjoint solves", {"C32", "C06"})
        if alt is None:
            # the user's tags are documented to be used by the implicit adjoint
            c.ok("tags reach the adjoint " + t, w, got_tags is tags or ref not in ("as_given",), "the user's tags are dropped", {"C04"})


PATTERNS = [
    # inputs, tangents, the differentiated part as a function of its leaves
    ("first input", lambda a, b, d, ta, tb, td: (tup(a, b), tup(ta, NONE))),
    ("second input", lambda a, b, d, ta, tb, td: (tup(a, b), tup(NONE, tb))),
    ("both inputs", lambda a, b, d, ta, tb, td: (tup(a, b), tup(ta, tb))),
    ("nested input", lambda a, b, d, ta, tb, td: (tup(tup(a, d), b), tup(tup(NONE, td), tb))),
]


@clause("C06", "C07", "C32")
def rule(c):
    """_implicit_impl and its JVP rule, on several patterns of perturbed inputs."""
    cls = c.cls("ImplicitAdjoint")
    apply = c.method(cls, "apply")
    w = c.where(apply)
    impl, order = custom_rule(c)
    if impl is None:
        c.add("custom derivative rule", "undecided", w, "no function with a custom JVP rule is reached with the primal, the condition, the inputs, the tags and the linear solver")
        return
    jvp = impl.args[0].attrs["__jvp__"]
    wj = c.where(jvp)
    a, b, d, ta, tb, td = c.arrs("a", "b", "d", "ta", "tb", "td")
    ls, tags = sym("LS", notnone=True), sym("tags", notnone=True)
    for pn, pat in PATTERNS:
        P, R = c.fnsym("primal", pair=True), c.fnsym("rewrite")
        inputs, tang = pat(a, b, d, ta, tb, td)
        vals = dict(zip(ORDER, (P, R, inputs, tags, ls)))
        tans = dict(zip(ORDER, (NONE, NONE, tang, NONE, NONE)))
        n = len(c.I.events)
        o = c.run(jvp, tup(*[vals[x] for x in order]), tup(*[tans[x] for x in order]))
        ev = c.I.events[n:]
        out, tan = c.item(o, 0), c.item(o, 1)
        pr = c.run(P, inputs)
        root, res = c.item(pr, 0), c.item(pr, 1)
        t = f"[{pn}]"
        c.eq("primal value of the rule " + t, wj, c.item(out, 0), root, {"C06", "C07"})
        c.eq("primal residual of the rule " + t, wj, c.item(out, 1), res, {"C06", "C07"})
        c.eq("derivative of the auxiliary outputs is zero " + t, wj, c.item(tan, 1), mk("full", const(0), mk("attr", res, "shape"), mk("attr", res, "dtype")), {"C06"})
        exp = c.expect("implicit_tangent", R, root, res, inputs, tang, tags, ls)
        c.eq("derivative of the solution " + t, wj, c.item(tan, 0), exp, {"C06"})
        ops = [x for x in tm.walk(c.item(tan, 0)) if x.op == "linsolve"]
        if len(ops) == 1:
            got = ops[0].args[0]
            if got.op == "op_jac" and len(got.args) > 2:
                c.ok("tags of the operator " + t, wj, got.args[2] is tags or is_empty_set(got.args[2]), f"tags {tm.show(got.args[2], 3)}", {"C06", "C32"})
        for x in ops:
            c.ok("linear solver of the rule " + t, wj, ls in x.args, "another linear solver than the configured one is used", {"C06", "C07"})
        checked = any(e.kind == "errif" for e in ev)
        silent = [x for x in ops if dict(zip(x.args[3], x.args[4:])).get("throw", TRUE) is FALSE]
        c.ok("a failed linear solve is not silent " + t, wj, checked or not silent, "the linear solve of the rule is told not to raise and its result is not looked at", {"C06"})
        cut = [x for x in tm.walk(c.item(tan, 0)) if x.op == "stopgrad"]
        again = [e.data[1] for e in ev if e.kind == "custom_jvp" and e.data[0] is impl]
        c.ok("the rule can be differentiated again " + t, wj, not cut and bool(again), "the solution inside the rule does not carry the custom derivative", {"C06"})
        c.ok("the rule is differentiated with the same problem " + t, wj, all(x is vals[k] for g in again for k, x in zip(order, g)),
             "the inner solve gets other arguments", {"C06"})


ORDER = ("fn_primal", "fn_rewrite", "inputs", "tags", "linear_solver")


def custom_rule(c):
    """The function with a custom JVP rule that ImplicitAdjoint runs the solve through, and the role of each of its parameters."""
    tags, ls = sym("tags", notnone=True), sym("LS", notnone=True)
    y0, = c.arrs("y0")
    common = dict(has_aux=TRUE, max_steps=sym("max_steps"), throw=FALSE, tags=tags)
    fn = c.fnsym("fn", pair=True)
    solver = sym("solver", cls=c.cls("AbstractMinimiser"), notnone=True)
    adj = sym("adjoint", cls=c.cls("AbstractAdjoint"), notnone=True)
    sol = c.run(c.pub("minimise"), fn, solver, y0, sym("args"), c.mapping(), adjoint=adj, **common)
    a = [call_args(x) for x in tm.walk(sol) if x.op == "mcall" and x.args[1] == "apply"]
    if not a:
        return None, None
    n = len(c.I.events)
    c.run(c.pub("minimise"), fn, solver, y0, sym("args"), c.mapping(), adjoint=c.new(c.cls("ImplicitAdjoint"), linear_solver=ls), **common)
    for e in c.I.events[n:]:
        if e.kind != "custom_jvp":
            continue
        roles = []
        for v in e.data[1]:
            roles.append("fn_primal" if v is a[0]["primal_fn"] else "fn_rewrite" if v is a[0]["rewrite_fn"] else "tags" if v is tags
                         else "linear_solver" if v is ls else "inputs" if v.op == "tuple" and v.args[:1] == a[0]["inputs"].args[:1] else None)
        lost = set(ORDER) - set(roles)
        if len(lost) == 1 and lost <= {"tags", "linear_solver"} and roles.count(None) == 1:
            k = roles.index(None)
            w = c.where(c.method(c.cls("ImplicitAdjoint"), "apply"))
            if lost == {"linear_solver"} or not is_empty_set(e.data[1][k]):
                c.add(f"the {lost.copy().pop()} given to the adjoint is the one used", "bad", w, f"{tm.show(e.data[1][k], 3)} is used instead", {"C06", "C07"})
            roles[k] = lost.pop()
        if sorted(map(str, roles)) == sorted(ORDER):
            return e.data[0], roles
    return None, None


@clause("C06")
def conversion_rule(c):
    """Array conversion carries a custom derivative: it must be the conversion of the tangent."""
    f = c.find("_asarray")
    if f is None or f.op != "fn" or "__jvp__" not in f.args[0].attrs:
        return
    jvp = f.args[0].attrs["__jvp__"]
    x, t = c.arrs("x", "t")
    dt = sym("dtype", notnone=True)
    out = c.run(jvp, dt, tup(x), tup(t))
    w = c.where(jvp)
    c.eq("value of a converted array", w, c.item(out, 0), x)
    c.eq("derivative of a converted array", w, c.item(out, 1), t)


@clause("C06")
def conversions(c):
    """Array conversions with a derivative rule of their own pass the tangent on."""
    x, tx = c.arrs("x", "tx")
    done = set()
    for m in c.I.modules.values():
        for v in list(m.frame.vars.values()):
            if not isinstance(v, tm.T) or v.op != "fn" or "__jvp__" not in v.args[0].attrs or v in done:
                continue
            done.add(v)
            jvp = v.args[0].attrs["__jvp__"]
            params, jparams = cm.param_names(c, v), cm.param_names(c, jvp)
            lead = len(jparams) - 2
            if lead < 0 or len(params) != lead + 1:
                continue
            extra = [sym(n, notnone=True) for n in params[:lead]]
            if c.nf(c.run(v, *extra, x)) is not x:
                continue
            w = c.where(jvp)
            o = c.run(jvp, *extra, tup(x), tup(tx))
            tan = c.item(o, 1)
            c.eq(f"value of the derivative rule of {v.args[0].name}", w, c.item(o, 0), x)
            c.eq(f"tangent of the derivative rule of {v.args[0].name}", w, tan, tx)
            c.ok(f"tangent of {v.args[0].name} can be differentiated", w, not any(z.op == "stopgrad" for z in tm.walk(tan)), "the tangent is cut off")
