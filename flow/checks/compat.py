"""The SciPy-compatible wrapper: what it runs and how it reports the outcome."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from .driver import OK, Run, is_empty_set, zero_int
from .rejections import raises, raised_when

CONVERGED, LIMIT, OTHER = 0, 1, 3


def minimize(c):
    m = c.mod("compat")
    f = m.frame.vars.get("minimize") if m is not None else None
    if f is None:
        raise Skip("optimistix.compat.minimize not found")
    return f


class Call:
    """One analysed call of compat.minimize with `minimise` replaced by a symbolic solution."""

    def __init__(self, c, **kw):
        I = c.I
        self.f = minimize(c)
        self.fun = c.fnsym("fun")
        self.x0 = sym("x0_1d", notnone=True, kind="array", isarray=True)
        tm.set_meta(self.x0, attrs={"ndim": const(1)})
        self.a, self.b = c.arrs("a", "b")
        self.tol = c.scal("tol")
        self.calls = []
        real = c.pub("minimise")
        self.result = sym("result", result=True, notnone=True)
        self.value, = c.arrs("value")
        self.num_steps = c.scal("num_steps")

        def stub(b):
            self.calls.append({k: I.freeze(v) for k, v in b.items()})
            solver = I.freeze(b["solver"])
            y, = c.arrs("y")
            fs = mk("struct", c.scal("fval"))
            fn2 = c.fnsym("fn", pair=True)
            st = I.call(I.getattr(solver, "init"), [fn2, y, NONE, mk("dict", ()), fs, NONE, mk("set")], {})
            self.state = c.symstate(I.freeze(st))
            return c.rec(c.cls("Solution"), value=self.value, result=self.result, aux=NONE, state=self.state,
                         stats=I.call(c.ref("statistics_only"), [self.num_steps, b["max_steps"]], {}))

        I.stubs[real.args[0]] = stub
        try:
            n = len(I.events)
            kw.setdefault("method", const("bfgs"))
            kw.setdefault("tol", self.tol)
            self.args = kw.pop("args", tup(self.a, self.b))
            self.out = c.run(self.f, self.fun, kw.pop("x0", self.x0), *([self.args] if self.args is not False else []), **kw)
            self.events = I.events[n:]
        finally:
            I.stubs.pop(real.args[0], None)


def opts(c, **kw):
    return c.I.freeze(c.I.call(c.ref("mapping_of"), [], kw))


@clause("C25")
def results(c):
    """Each reported field, for every combination of options."""
    f = minimize(c)
    w = c.where(f)
    mi = sym("maxiter", notnone=True)
    nrm = c.norm_sym("nrm")
    mx = c.pub("max_norm")
    cases = [("no options", NONE, NONE, mx), ("empty options", {}, NONE, mx), ("maxiter", {"maxiter": mi}, mi, mx),
             ("norm", {"norm": nrm}, NONE, nrm), ("both", {"maxiter": mi, "norm": nrm}, mi, nrm), ("default", False, NONE, mx)]
    for name, o, steps, nm in cases:
        for tol in ("given", "None", "default"):
            t = f"[{name}, tol {tol}]"
            kw = {} if o is False else {"options": o if o is NONE else opts(c, **o)}
            r = Call(c, **kw) if tol == "given" else Call(c, tol=NONE, **kw) if tol == "None" else DefaultTol(c, **kw)
            if r.out.op != "rec" or len(r.calls) != 1:
                c.add("runs one minimisation " + t, "undecided" if has_unknown(r.out) else "bad", w,
                      f"{len(r.calls)} calls of minimise; returns {tm.show(r.out, 3)}")
                continue
            call = r.calls[0]
            c.ok("options accepted " + t, w, not raises(c, r.events), "raises " + raises(c, r.events))
            mut = [e for e in r.events if e.kind == "mutate" and e.data[0] in ("mapping", "item") and kw.get("options") is not None and e.data[1] is kw.get("options")]
            c.ok("the caller's options are left alone " + t, w, not mut, f"options.{mut[0].data[2]} called" if mut else "")
            solver = call["solver"]
            c.ok("runs BFGS " + t, w, solver.op == "rec" and solver.args[0] is c.cls("BFGS"), f"solver is {tm.show(solver, 2)}")
            want = r.tol if tol == "given" else None
            if solver.op == "rec":
                for fld in ("rtol", "atol"):
                    v = c.field(solver, fld)
                    if want is not None:
                        c.eq(f"{fld} {t}", w, v, want)
                    else:
                        c.ok(f"{fld} {t}", w, tm.is_num(v) and float(tm.pyval(v)) == 1e-5, f"default tolerance {tm.show(v, 3)}")
                c.ok("norm " + t, w, c.nf(c.field(solver, "norm")) is c.nf(nm), f"norm is {tm.show(c.field(solver, 'norm'), 3)}")
                ref = c.new(c.cls("BFGS"), rtol=c.field(solver, "rtol"), atol=c.field(solver, "atol"), norm=c.field(solver, "norm"))
                for fld in solver.args[1]:
                    if fld not in ("rtol", "atol", "norm"):
                        c.eq(f"BFGS {fld} as by default {t}", w, c.field(solver, fld), c.field(ref, fld))
            c.eq("iteration limit " + t, w, call["max_steps"], steps)
            c.ok("never raises on failure " + t, w, call["throw"] is FALSE, f"throw={tm.show(call['throw'], 2)}")
            c.eq("initial point " + t, w, call["y0"], r.x0)
            yy, = c.arrs("yy")
            v = c.run(call["fn"], yy, call["args"])
            if call["has_aux"] is TRUE:
                v = c.item(v, 0)
            c.eq("objective " + t, w, v, c.run(r.fun, yy, r.a, r.b))
            # the objective must not be differentiated through its own closure only: args travel as arguments
            g = dict(zip(r.out.args[1], r.out.args[2:]))
            st = r.state
            info = c.field(st, "f_info")
            ok = mk("eq", r.result, OK)
            fx = c.run(r.fun, r.value, r.a, r.b)
            c.eq("x " + t, w, g["x"], r.value)
            c.eq("success " + t, w, g["success"], ok)
            exp = c.I.sel(ok, const(CONVERGED), c.I.sel(mk("eq", r.result, mk("res", "nonlinear_max_steps_reached")), const(LIMIT), const(OTHER)))
            c.eq("status " + t, w, g["status"], exp)
            either(c, "fun " + t, w, g["fun"], (c.field(info, "f"), fx))
            either(c, "jac " + t, w, g["jac"], (c.field(info, "grad"), c.expect("gradient_at", r.fun, r.value, tup(r.a, r.b))))
            c.eq("hess_inv " + t, w, g["hess_inv"], mk("as_matrix", c.field(info, "hessian_inv")))
            c.eq("nfev " + t, w, g["nfev"], r.num_steps)
            c.eq("njev " + t, w, g["njev"], c.field(st, "num_accepted_steps"))
            c.eq("nit " + t, w, g["nit"], c.field(st, "num_accepted_steps"))


def DefaultTol(c, **kw):
    r = Call.__new__(Call)
    real = c.run
    # drop the tolerance argument
    def run(f, *a, **k):
        if k.get("tol", 0) is _DROP:
            k.pop("tol")
        return real(f, *a, **k)
    c.run = run
    try:
        r.__init__(c, tol=_DROP, **kw)
    finally:
        c.run = real
    return r


_DROP = object()


def has_unknown(t):
    return any(x.op in ("unknown",) for x in tm.walk(t))


def either(c, name, w, got, exps):
    for e in exps:
        try:
            if norm.equal(c.nf(got), c.nf(e)):
                c.add(name, "ok", w)
                return
        except norm.TooBig:
            pass
    c.eq(name, w, got, exps[0])


@clause("C12", "C25")
def rejected(c):
    f = minimize(c)
    w = c.where(f)
    x = sym("x", notnone=True)

    def expect(name, raising, **kw):
        r = Call(c, **kw)
        cond = raised_when(c, r.events)
        msg = f"raises when {tm.show(cond, 5)}"
        if raising is TRUE:
            c.ok(name, w, cond is TRUE, "accepted" if cond is FALSE else msg)
        elif raising is FALSE:
            c.ok(name, w, cond is FALSE, msg)
        else:
            c.eq(name, w, cond, raising)

    expect("method bfgs", FALSE)
    expect("method BFGS", FALSE, method=const("BFGS"))
    for m in ("nelder-mead", "l-bfgs", "", "bfgs2", "l-bfgs-experimental-do-not-rely-on-this"):
        expect(f"method {m!r} is rejected", TRUE, method=const(m))
    expect("unknown option is rejected", TRUE, options=opts(c, gtol=c.scal("gtol")))
    expect("unknown option next to known ones is rejected", TRUE, options=opts(c, maxiter=sym("maxiter", notnone=True), norm=c.norm_sym("nrm"), gtol=c.scal("gtol")))
    expect("list of arguments is rejected", TRUE, args=c.I.call(c.ref("list_of"), [x], {}))
    expect("bare argument is rejected", TRUE, args=sym("arg", notnone=True, kind="array"))
    expect("no arguments", FALSE, args=False)
    x0, = c.arrs("x0")
    r = Call(c, x0=x0)
    cond = raised_when(c, r.events)
    exp = mk("or", mk("not", mk("truthy", mk("is_array", x0))), mk("not", mk("eq", mk("attr", x0, "ndim"), const(1))))
    c.eq("x0 that is not a one-dimensional array is rejected", w, cond, exp)
