"""The solve loop and the four entry points, on every route from a user problem to a solver."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE

OK = mk("res", "successful")
STEP = ("fn", "y", "args", "options", "state", "tags")
INIT = ("fn", "y", "args", "options", "f_struct", "aux_struct", "tags")
POST = ("fn", "y", "aux", "args", "options", "state", "tags", "result")

# entry point, kind of solver, reference problem, wrapped (the function value travels with the aux output)
ROUTES = [
    ("minimise", "AbstractMinimiser", "as_given", False),
    ("least_squares", "AbstractLeastSquaresSolver", "as_given", False),
    ("least_squares", "AbstractMinimiser", "scalar_loss", False),
    ("root_find", "AbstractRootFinder", "as_given", False),
    ("root_find", "AbstractLeastSquaresSolver", "value_and_aux", True),
    ("root_find", "AbstractMinimiser", "norm_of_value", True),
    ("fixed_point", "AbstractFixedPointSolver", "as_given", False),
    ("fixed_point", "AbstractRootFinder", "displacement", False),
    ("fixed_point", "AbstractLeastSquaresSolver", "displacement_and_aux", True),
    ("fixed_point", "AbstractMinimiser", "norm_of_displacement", True),
]
ADJOINTS = ("ImplicitAdjoint", "RecursiveCheckpointAdjoint")
ALL = ("C01", "C02", "C03", "C04", "C05", "C07", "C09", "C12", "C28", "C31", "C32")


class Run:
    """One analysed call of an entry point, with its loop taken apart."""

    def __init__(self, c, entry, kind, wrapped, adjoint, has_aux=TRUE, options=None, throw=FALSE, **kw):
        self.c, self.entry, self.kind, self.wrapped = c, entry, kind, wrapped
        I = c.I
        self.fn = c.fnsym("fn", pair=has_aux is TRUE)
        self.norm = c.norm_sym("solver.norm")
        self.solver = sym("solver", cls=c.cls(kind), notnone=True)
        tm.set_meta(self.solver, attrs={"norm": self.norm, "atol": c.scal("solver.atol"), "rtol": c.scal("solver.rtol")})
        self.y0, = c.arrs("y0")
        self.args = sym("args")
        self.options = c.mapping("options") if options is None else options
        self.max_steps = sym("max_steps")
        self.tags = sym("tags", notnone=True)
        self.adj = adjoint
        n = len(I.events)
        a = [self.fn, self.solver, self.y0, self.args]
        if options is not False:
            a.append(self.options)
        kws = dict(has_aux=has_aux, max_steps=self.max_steps, throw=throw, tags=self.tags)
        if adjoint is not None:
            kws["adjoint"] = adjoint
        for x in kw.pop("drop", ()):
            kws.pop(x)
        kws.update(kw)
        if has_aux is None:
            kws.pop("has_aux")
        self.sol = c.run(c.pub(entry), *a, **kws)
        self.events = I.events[n:]
        if self.sol.op != "rec":
            raise Skip(f"{entry} does not return a resolved Solution: {tm.show(self.sol, 3)}")
        loops = [e.data for e in self.events if e.kind == "while" and any(is_call(x, self.solver, "step") for x in tm.walk(e.data.args[1]))]
        loops = list(dict.fromkeys(loops))
        if len(loops) != 1:
            raise Skip(f"{len(loops)} solve loops found")
        self.loop = L = loops[0]
        self.vars = list(L.args[0].args[0])
        self.cond = L.args[0].args[1]
        self.body = list(L.args[1].args[1].args)
        self.init = list(L.args[2].args)
        self.extra = dict(zip(L.args[3], L.args[4:]))
        self.outs = [sym(f"out_{i}", notnone=True) for i in range(len(self.vars))]
        m = {}
        for x in tm.walk(self.sol):
            if x.op == "loopout" and x.args[0] is L:
                m[x] = self.outs[x.args[1] if isinstance(x.args[1], int) else tm.pyval(x.args[1])]
        self.fields = {k: I.subst(v, m) for k, v in zip(self.sol.args[1], self.sol.args[2:])}
        # roles
        steps = {x for b in self.body for x in tm.walk(b) if is_call(x, self.solver, "step")}
        if len(steps) != 1:
            raise Skip(f"{len(steps)} different step calls in the loop body")
        self.step = steps.pop()
        a = call_args(self.step)
        self.problem = a["fn"]
        self.iy = self.index(a["y"])
        self.istate = self.index(a["state"])
        if self.iy is None:
            self.iy = next((i for i, x in enumerate(self.init) if c.nf(x) is self.y0), None)
        if self.istate is None:
            self.istate = next((i for i, x in enumerate(self.init) if is_call(x, self.solver, "init")), None)
        stop = [stop_parts(x, self.solver) | stop_parts(y, self.solver) for x, y in zip(self.init, self.body)]
        self.ires = next((i for i, s in enumerate(stop) if s == {1}), None)
        if self.ires is None:
            self.ires = next((i for i, s in enumerate(stop) if 1 in s and has_result(self.init[i])), None)
        self.iterm = next((i for i, s in enumerate(stop) if i != self.ires and s == {0}), None)
        if self.iterm is None:
            self.iterm = next((i for i, s in enumerate(stop) if i != self.ires and 0 in s and not has_result(self.init[i])), None)
        self.icount = next((i for i, x in enumerate(self.init) if zero_int(c, x)), None)
        left = [i for i in range(len(self.vars)) if i not in (self.iy, self.istate, self.iterm, self.ires, self.icount)]
        self.left = left

    def index(self, v):
        return self.vars.index(v) if v in self.vars else None

    def call(self, name, names, *vals):
        return mk("mcall", self.solver, name, names, *vals)


def is_call(x, solver, name):
    return x.op == "mcall" and x.args[0] is solver and x.args[1] == name


def call_args(t):
    return dict(zip(t.args[2], t.args[3:]))


def stop_parts(x, solver):
    """The components of solver.terminate that the value is built from."""
    return {y.args[1] if isinstance(y.args[1], int) else tm.pyval(y.args[1]) for y in shallow(x) if y.op == "item" and is_call(y.args[0], solver, "terminate")}


def has_result(x):
    return any(y.op == "res" for y in shallow(x))


def shallow(x):
    """Terms under x, not looking inside solver calls."""
    out, st = [], [x]
    while st:
        t = st.pop()
        out.append(t)
        if t.op != "mcall":
            st += [a for a in t.args if isinstance(a, tm.T)]
    return out


def zero_int(c, x):
    y = x
    while y.op == "arr":
        y = y.args[0]
    return tm.is_const(y, "int")


def pick(it, i):
    return mk("item", it, const(i))


def loop_clause(c, r, t, props):
    """props: every property id this route reports for."""
    w = c.where(c.find("_iterate") or c.pub(r.entry))
    P = lambda *ids: set(ids) & set(props)
    fn, opts = r.problem, r.expected_options
    tags = call_args(r.step)["tags"]
    for n, i in (("iterate", r.iy), ("state", r.istate), ("stop flag", r.iterm), ("result", r.ires), ("step count", r.icount)):
        if i is None:
            c.add(f"loop carries its {n} {t}", "undecided", w, "no such loop variable recognised", P("C01", "C02", "C03"))
    if None in (r.iy, r.istate, r.iterm, r.ires, r.icount):
        return
    V, B, X = r.vars, r.body, r.init
    y, st = V[r.iy], V[r.istate]
    step = r.call("step", STEP, fn, y, r.args, opts, st, tags)
    # inner solver state and residual of a wrapped solver are separate slots
    c.eq("the step is taken from the current iterate and state " + t, w, r.step, step, P("C03", "C04"))
    step = r.step
    c.eq("iterate after a step " + t, w, B[r.iy], pick(step, 0), P("C01", "C03"))
    c.eq("state after a step " + t, w, B[r.istate], pick(step, 1), P("C01", "C03"))
    init = r.call("init", INIT, fn, r.y0, r.args, opts, r.f_struct, r.aux_struct, tags)
    got0 = X[r.istate]
    if is_call(got0, r.solver, "init"):
        a = call_args(got0)
        for n, e in (("y", r.y0), ("args", r.args), ("options", opts), ("tags", tags)):
            c.eq(f"solver.init receives the user's {n} {t}", w, a[n], e, P("C04"))
        c.eq(f"solver.init receives the problem function {t}", w, a["fn"], fn, P("C04"))
    else:
        c.add("initial state " + t, "bad", w, f"the loop starts from {tm.show(got0, 4)}, not from solver.init", P("C03", "C04"))
    c.eq("initial iterate " + t, w, X[r.iy], r.y0, P("C03", "C04"))
    seen = set()
    calls = {x for z in (*X, *B, *r.fields.values()) for x in tm.walk(z, seen) if is_call(x, r.solver, "terminate") or is_call(x, r.solver, "postprocess")}
    for x in sorted(calls, key=lambda x: x.id):
        a = call_args(x)
        for n, e in (("fn", fn), ("args", r.args), ("options", opts), ("tags", tags)):
            if n in a:
                c.eq(f"solver.{x.args[1]} receives the user's {n} {t}", w, a[n], e, P("C04"))
    # stopping
    T0 = r.call("terminate", STEP, fn, r.y0, r.args, opts, got0, tags)
    stop0, res0 = c.item(T0, 0), c.item(T0, 1)
    fin0 = c.expect("keep_if_finite", r.y0, res0)
    alts = []
    for Y in (y, pick(step, 0)):
        T1 = r.call("terminate", STEP, fn, Y, r.args, opts, pick(step, 1), tags)
        alts.append((pick(T1, 0), c.expect("keep_if_finite", Y, pick(T1, 1))))
    if r.wrapped:
        fi = [i for i in r.left if not_aux(c, r, i)]
        f1 = pick(pick(step, 2), 0)
        zero = lambda f: mk("lt", c.run(r.norm, f), c.I.getattr(r.solver, "atol"))
        alts = [(mk("and", a, zero(f1)), b) for a, b in alts]
        stop0 = None
    best = 0
    for j, (a, b) in enumerate(alts):
        try:
            if norm.equal(c.nf(B[r.iterm]), c.nf(a)):
                best = j
        except norm.TooBig:
            pass
    a, b = alts[best]
    c.eq("stops exactly when the solver says so " + t, w, B[r.iterm], a, P("C01", "C05"))
    c.eq("result of the stopping test, non-finite iterates flagged " + t, w, B[r.ires], b, P("C01"))
    if stop0 is not None:
        c.eq("stopping test before the first step " + t, w, X[r.iterm], stop0, P("C01", "C02"))
    else:
        # the residual is unknown (infinite) before the first step
        c.holds("no success before the residual is known " + t, w, mk("not", c.I.nf(X[r.iterm]) if False else residual_unknown(c, r, X[r.iterm])), P("C05"))
    c.eq("result before the first step " + t, w, X[r.ires], fin0, P("C01"))
    cond = c.expect("keep_going", V[r.iterm], V[r.ires])
    c.eq("loop runs while not stopped and successful " + t, w, r.cond, cond, P("C01", "C02"))
    c.eq("step count starts at zero " + t, w, X[r.icount], const(0), P("C02"))
    c.eq("step count goes up by one " + t, w, B[r.icount], mk("add", V[r.icount], const(1)), P("C02"))
    c.eq("step budget " + t, w, r.extra.get("max_steps", NONE), r.max_steps, P("C02", "C04"))
    # aux slots
    aux = pick(step, 2)
    aux_out = None
    if r.wrapped:
        for i in r.left:
            c.ok(f"auxiliary loop variable {i} {t}", w, any(norm.equal(c.nf(B[i]), c.nf(e)) for e in (pick(aux, 0), pick(aux, 1))),
                 f"auxiliary output after a step is {tm.show(c.nf(B[i]), 4)}", P("C03", "C05", "C09"))
        fs = [i for i in r.left if norm.equal(c.nf(B[i]), c.nf(pick(aux, 0)))]
        us = [i for i in r.left if norm.equal(c.nf(B[i]), c.nf(pick(aux, 1)))]
    else:
        fs, us = [], r.left
        for i in us:
            c.eq(f"auxiliary output after a step {t}", w, B[i], aux, P("C03", "C09"))
    if "C28" in c.cur_props:
        for i in r.left:
            fixed = [x for x in tm.walk(X[i]) if x.op in ("full", "arr") and x.args[-1].op in ("default_dtype", "extref", "py")]
            c.ok(f"dtype of auxiliary loop variable {i} {t}", w, not fixed,
                 "placeholder before the first step has a dtype fixed by the code: " + (tm.show(fixed[0], 4) if fixed else ""), {"C28"})
    # after the loop
    O = list(r.outs)
    if len(fs) > 1:
        # several loop variables hold the residual of the last step
        m = {O[i]: O[fs[0]] for i in fs[1:]}
        r.fields = {k: c.I.subst(v, m) for k, v in r.fields.items()}
    oy, ost, oterm, ores = O[r.iy], O[r.istate], O[r.iterm], O[r.ires]
    res = c.expect("final_result", oterm, ores)
    c.eq("result after the loop " + t, w, r.fields["result"], res, P("C01", "C03"))
    posts = {x for x in tm.walk(r.fields["value"]) if is_call(x, r.solver, "postprocess")}
    if not posts:
        c.add("postprocess " + t, "bad", w, "solver.postprocess is not applied to the final iterate", P("C03"))
        return
    p = r.fields["value"]
    post = sorted(posts, key=lambda x: x.id)[0]
    pa = call_args(post)
    user_aux = r.aux_term
    e_aux = [O[i] for i in us] or [NONE]
    expect = set()
    for ua in e_aux:
        av = ua
        if r.wrapped:
            av = tup(O[fs[0]] if fs else NONE, ua)
        expect.add(r.call("postprocess", POST, fn, oy, av, r.args, opts, ost, tags, res))
    ok = None
    for e in expect:
        try:
            if norm.equal(c.nf(p), c.nf(pick(e, 0))):
                ok = e
        except norm.TooBig:
            pass
    e = ok or sorted(expect, key=lambda x: x.id)[0]
    c.eq("value is the post-processed final iterate " + t, w, p, pick(e, 0), P("C03"))
    xa = pick(pick(e, 1), 1) if r.wrapped else pick(e, 1)
    c.eq("aux is the post-processed final auxiliary output " + t, w, r.fields["aux"], xa, P("C03", "C05", "C09"))
    st_out = r.fields["state"]
    if r.wrapped and st_out.op in norm.STRUCT:
        parts = list(norm.comps(st_out))
        st_out = next((x for x in parts if c.nf(x) is ost), parts[0] if parts else st_out)
    c.eq("state is the final state " + t, w, st_out, ost, P("C03"))
    stats = c.expect("statistics", O[r.icount], r.max_steps, pick(e, 2))
    c.eq("statistics " + t, w, r.fields["stats"], stats, P("C02", "C03"))


def not_aux(c, r, i):
    return True


def residual_unknown(c, r, t):
    """The initial stop flag with the residual placeholder read as infinite."""
    I = c.I
    def inf(x):
        return x.op == "full" and x.args[0].op in ("const", "extref") and "inf" in str(x.args[0].args)
    m = {}
    for x in tm.walk(t):
        if x.op == "lt" and any(inf(y) for y in tm.walk(x.args[0])) and not any(inf(y) for y in tm.walk(x.args[1])):
            m[x] = FALSE
        if x.op == "gt" and any(inf(y) for y in tm.walk(x.args[1])) and not any(inf(y) for y in tm.walk(x.args[0])):
            m[x] = FALSE
    return I.subst(t, m)


def make_adjoint(c, name):
    if name == "ImplicitAdjoint":
        return c.new(c.cls(name), linear_solver=sym("adjoint.linear_solver", notnone=True))
    return c.new(c.cls(name), checkpoints=sym("adjoint.checkpoints"))


def prepare(c, entry, kind, ref, wrapped, adj, **kw):
    r = Run(c, entry, kind, wrapped, make_adjoint(c, adj), **kw)
    r.expected_options = r.options
    r.f_struct = r.aux_struct = None
    r.aux_term = None
    return r


INEXACT_TAGS = {
    # which tags may reach the solver and the adjoint on a converted route; the user's tags describe a different operator there
    ("least_squares", "AbstractMinimiser"): True,
    ("fixed_point", "AbstractRootFinder"): True,
    ("fixed_point", "AbstractLeastSquaresSolver"): True,
    ("root_find", "AbstractMinimiser"): False,
    ("fixed_point", "AbstractMinimiser"): False,
}


@clause(*ALL)
def routes(c):
    for entry, kind, ref, wrapped in ROUTES:
        status = {}
        for adj in ADJOINTS:
            t = f"[{entry}, {kind[8:]}, {adj}]"
            try:
                r = prepare(c, entry, kind, ref, wrapped, adj)
            except Skip as ex:
                c.add("route " + t, "undecided", "-", str(ex))
                continue
            n = len(c.obs)
            conv = ("C05",) if ref != "as_given" else ()
            loop_clause(c, r, t, ("C01", "C02", "C03", "C04", "C09") + conv)
            problem_clause(c, r, ref, t, {"C04"} | set(conv))
            status[adj] = {o.name.replace(t, ""): o for o in c.obs[n:]}
            loop_kind(c, r, adj, t)
        if len(status) == 2:
            a, b = (status[x] for x in ADJOINTS)
            t = f"[{entry}, {kind[8:]}]"
            diff = [k for k in a if k in b and {a[k].status, b[k].status} == {"ok", "bad"}]
            where = c.where(c.method(c.cls(ADJOINTS[0]), "apply"))
            c.ok("both adjoints run the same iteration " + t, where, not diff,
                 "; ".join((a[k] if a[k].status == "bad" else b[k]).detail[:200] for k in diff), {"C07"})


def loop_kind(c, r, adj, t):
    w = c.where(c.method(c.cls(adj), "apply"))
    kind = r.extra.get("kind")
    if adj == "ImplicitAdjoint":
        # the loop is never differentiated
        if kind is not None:
            # a "bounded" loop needs a finite number of steps, which max_steps=None does not give
            c.ok("loop kind " + t, w, kind in (const("lax"), const("checkpointed")), f"kind={tm.show(kind, 2)}", {"C07"})
    else:
        c.ok("loop can be differentiated in reverse mode " + t, w, kind is const("checkpointed"),
             f"loop kind {tm.show(kind, 2) if kind is not None else 'missing'} has no reverse mode for an unbounded number of steps", {"C07"})
        if None not in (r.iy, r.istate):
            flow = [r.init[r.iy], r.body[r.iy], r.init[r.istate], r.step, r.fields["value"]]
            cut = [x for v in flow for x in tm.walk(v) if x.op == "stopgrad"]
            c.ok("the loop is differentiated with respect to everything it uses " + t, w, not cut,
                 f"the derivative through {tm.show(cut[0].args[0], 3) if cut else ''} is cut off", {"C07"})
        c.eq("number of checkpoints " + t, w, r.extra.get("checkpoints", NONE), c.I.getattr(r.adj, "checkpoints"), {"C07", "C31"})


def problem_clause(c, r, ref, t, props):
    """What the solver is given to solve."""
    w = c.where(c.pub(r.entry))
    yy, = c.arrs("yy")
    aa = sym("aa")
    got = c.run(r.problem, yy, aa)
    exp = c.expect(ref, r.fn, r.norm, yy, aa)
    c.eq("function given to the solver: value " + t, w, c.item(got, 0), c.item(exp, 0), props)
    c.eq("function given to the solver: aux " + t, w, c.item(got, 1), c.item(exp, 1), props | {"C09"} if "C09" in c.cur_props else props)
    tags = call_args(r.step)["tags"]
    key = (r.entry, r.kind)
    none = is_empty_set(tags)
    if key not in INEXACT_TAGS:
        c.eq("structure tags given to the solver " + t, w, tags, r.tags, {"C04", "C32"})
    elif INEXACT_TAGS[key]:
        if none or tags is r.tags or not c.foreign(tags, r.tags):
            c.ok("structure tags given to the solver " + t, w, none or tags is r.tags, f"tags {tm.show(tags, 3)}", {"C32"})
        else:
            c.add("structure tags given to the solver " + t, "undecided", w, f"not understood: {tm.show(tags, 3)}", {"C32"})
    else:
        c.ok("structure tags of the user's function are not attached to another operator " + t, w, none, f"tags {tm.show(tags, 3)}", {"C32"})
    y = call_args(r.init[r.istate])["y"] if r.istate is not None and is_call(r.init[r.istate], r.solver, "init") else None
    if y is not None:
        inexact(c, w, "initial guess becomes an inexact array " + t, y, r.y0)
        a = call_args(r.init[r.istate])
        v0 = c.expect(ref, r.fn, r.norm, r.y0, r.args)
        c.eq("output structure " + t, w, a["f_struct"], mk("struct", c.item(v0, 0)), props)
    f0 = c.item(c.run(r.problem, yy, aa), 0)
    if ref in ("as_given",):
        inexact(c, w, "function output becomes an inexact array " + t, f0, c.item(c.run(r.fn, yy, aa), 0) if tm.meta(r.fn, "pair") else c.run(r.fn, yy, aa))


def inexact(c, w, name, t, base):
    """t must be `base` converted to its own dtype if inexact, else to the default float dtype."""
    if t.op == "arr":
        exp = c.expect("inexact_dtype", base)
        c.eq(name, w, t.args[1], exp, {"C04", "C28"})
    elif t is base:
        c.add(name, "bad", w, "passed on without conversion", {"C04", "C28"})


def is_empty_set(t):
    return t.op == "set" and not t.args or (t.op == "const" and t.args[0] == "frozenset")


@clause("C04", "C09")
def user_function(c):
    """has_aux and options, in every combination and by default."""
    for entry, kind, ref, wrapped in ROUTES:
        w = c.where(c.pub(entry))
        for has_aux in (FALSE, None, TRUE):
            for opt in (NONE, False):
                t = f"[{entry}, {kind[8:]}, has_aux={'default' if has_aux is None else tm.show(has_aux, 1)}, options={'default' if opt is False else 'None'}]"
                try:
                    r = prepare(c, entry, kind, ref, wrapped, "ImplicitAdjoint", has_aux=has_aux, options=opt)
                except Skip as ex:
                    c.add("route " + t, "undecided", w, str(ex), {"C04"})
                    continue
                o = call_args(r.step)["options"]
                c.ok("missing options become an empty dictionary " + t, w, o.op == "dict" and not o.args[0], f"solver gets options {tm.show(o, 3)}", {"C04"})
                if opt is NONE:
                    continue
                yy, = c.arrs("yy")
                aa = sym("aa")
                got = c.run(r.problem, yy, aa)
                fn = r.fn
                if has_aux is not TRUE:
                    fn = c.I.call(c.ref("without_aux"), [r.fn], {})
                exp = c.expect(ref, fn, r.norm, yy, aa)
                c.eq("function given to the solver: value " + t, w, c.item(got, 0), c.item(exp, 0), {"C04"})
                c.eq("function given to the solver: aux " + t, w, c.item(got, 1), c.item(exp, 1), {"C04", "C09"})
                if has_aux is TRUE:
                    aux = c.item(got, 1)
                    aux = c.item(aux, 1) if wrapped else aux
                    cast = [x for x in tm.walk(aux) if x.op == "arr" and any(z.op == "default_dtype" for z in tm.walk(x.args[1]))]
                    c.ok("auxiliary output keeps its own dtype " + t, w, not cast, f"aux is converted: {tm.show(cast[0], 5) if cast else ''}", {"C04", "C09"})
                if has_aux is not TRUE and not wrapped:
                    post = c.nf(r.fields["aux"])
                    ok = any(is_call(x, r.solver, "postprocess") and call_args(x)["aux"] is NONE for x in tm.walk(post))
                    posts = [call_args(x)["aux"] for x in tm.walk(post) if is_call(x, r.solver, "postprocess")]
                    if not ok and post is not NONE and (not posts or any(x.op in ("item", "getitem") for x in posts)):
                        c.add("auxiliary output without has_aux is None " + t, "undecided", w, f"aux is {tm.show(post, 4)}", {"C04"})
                        continue
                    c.ok("auxiliary output without has_aux is None " + t, w, ok or post is NONE, f"aux is {tm.show(post, 4)}", {"C04"})


def error_condition(c, t):
    """When evaluating the value raises."""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == "errif":
            r = mk("or", x.args[1], go(x.args[0]))
        elif x.op == "select":
            r = mk("select", x.args[0], go(x.args[1]), go(x.args[2]))
        elif x.op in ("arr", "item", "stopgrad"):
            r = go(x.args[0])
        else:
            r = FALSE
        memo[x] = r
        return r

    return go(t)


@clause("C03", "C04")
def throwing(c):
    for entry, kind, ref, wrapped in ROUTES:
        w = c.where(c.pub(entry))
        for adj in ADJOINTS:
            for throw in (TRUE, FALSE, None):
                t = f"[{entry}, {kind[8:]}, {adj}, throw={'default' if throw is None else tm.show(throw, 1)}]"
                try:
                    r = prepare(c, entry, kind, ref, wrapped, adj, throw=throw) if throw is not None else default_throw(c, entry, kind, ref, wrapped, adj)
                except Skip as ex:
                    c.add("route " + t, "undecided", w, str(ex), {"C03"})
                    continue
                e = error_condition(c, r.fields["value"])
                if throw is FALSE:
                    c.eq("never raises " + t, w, e, FALSE, {"C03", "C04"})
                elif r.iterm is not None and r.ires is not None:
                    res = c.expect("final_result", r.outs[r.iterm], r.outs[r.ires])
                    c.eq("raises exactly on failure " + t, w, e, mk("not", mk("eq", res, OK)), {"C03", "C04"})


def default_throw(c, entry, kind, ref, wrapped, adj):
    r = Run(c, entry, kind, wrapped, make_adjoint(c, adj), drop=("throw",))
    r.expected_options = r.options
    return r
