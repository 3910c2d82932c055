"""Golden-section search, best-so-far wrappers, Optax wrapper, Nelder-Mead."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm

OK = mk("res", "successful")
DIV = mk("res", "nonlinear_divergence")


@clause("C01", "C03", "C09", "C13", "C16", "C27", "C31")
def golden(c):
    cls = c.cls("GoldenSearch")
    w, wi, wt = (c.where(c.method(cls, m)) for m in ("step", "init", "terminate"))
    P = cm.problem(c, scalar=True)
    fn, args, tags = P["fn"], P["args"], P["tags"]
    y = c.scal("y")
    tm.set_meta(y, shape=())
    lo, hi = c.scal("lower"), c.scal("upper")
    options = cm.dict_term(c, {"lower": lo, "upper": hi})
    s = cm.solver(c, "GoldenSearch")
    rtol, atol = c.field(s, "rtol"), c.field(s, "atol")
    st0 = c.meth(s, "init", fn, y, args, options, cm.scalar_struct(c), P["aux_struct"], tags)
    mid0 = c.expect("golden_middle", lo, hi)
    c.eq("lower end", wi, c.field(st0, "lower"), lo, {"C16"})
    c.eq("upper end", wi, c.field(st0, "upper"), hi, {"C16"})
    c.eq("first interior point", wi, c.field(st0, "middle"), mid0, {"C16"})
    c.eq("value at the first interior point", wi, c.field(st0, "f_middle"), c.item(c.run(fn, mid0, args), 0), {"C16"})
    c.eq("first step flag", wi, c.field(st0, "first"), TRUE, {"C16"})
    st = c.symstate(st0)
    S = lambda n: c.field(st, n)
    for n in ("lower", "middle", "upper", "f_middle"):
        tm.set_meta(S(n), scalar=True)
    out = c.meth(s, "step", fn, y, args, options, st, tags)
    e = c.expect("golden", fn, y, args, S("lower"), S("middle"), S("upper"), S("f_middle"), S("first"))
    E = lambda i: c.item(e, i)
    st1 = c.item(out, 1)
    c.eq("next point", w, c.item(out, 0), E(0), {"C16"})
    for i, n in ((1, "lower"), (2, "middle"), (3, "upper"), (4, "f_middle")):
        c.eq("new " + n, w, c.field(st1, n), E(i), {"C16"})
    c.eq("no longer the first step", w, c.field(st1, "first"), FALSE, {"C16"})
    first = S("first")
    fy = c.run(fn, y, args)
    c.eq("aux of the input iterate after the first step", w, cm.when(mk("not", first), c.item(out, 2)), cm.when(mk("not", first), c.item(fy, 1)), {"C09"})
    probe, f = E(6), E(7)
    known_wrong(c, "aux of the input iterate on the first step", w, cm.when(first, c.item(out, 2)), cm.when(first, c.item(fy, 1)),
                cm.when(first, c.item(c.run(fn, probe, args), 1)))
    conv = c.expect("cauchy", rtol, atol, c.ref("scalar_norm"), S("middle"), mk("sub", S("middle"), probe), S("f_middle"), mk("sub", S("f_middle"), f))
    term = c.meth(s, "terminate", fn, c.item(out, 0), args, options, st1, tags)
    c.eq("stops", wt, c.item(term, 0), conv, {"C16", "C13", "C01", "C31"})
    c.eq("result", wt, c.item(term, 1), OK, {"C27"})
    t0 = c.meth(s, "terminate", fn, y, args, options, st0, tags)
    c.eq("does not stop before the first step", wi, c.item(t0, 0), FALSE, {"C16", "C01"})
    post(c, cls, s, fn, y, args, options, st, tags)


def known_wrong(c, name, w, got, exp, wrong):
    """The obligation of a recorded defect; any other wrong value is a separate violation."""
    n = len(c.obs)
    if c.eq(name, w, got, exp, {"C09"}) is False and not norm.equal(c.nf(got), c.nf(wrong)):
        c.obs[n].name = "other " + name
        c.obs[n].key = f"{c.obs[n].clause}/{c.obs[n].name}"


def post(c, cls, s, fn, y, args, options, st, tags, tag="", stats=None):
    pp = c.meth(s, "postprocess", fn, y, sym("aux"), args, options, st, tags, sym("result"))
    wp = c.where(c.method(cls, "postprocess"))
    c.eq("postprocess value" + tag, wp, c.item(pp, 0), y, {"C03"})
    c.eq("postprocess aux" + tag, wp, c.item(pp, 1), sym("aux"), {"C03", "C09"})
    if stats is not None:
        c.eq("postprocess stats" + tag, wp, c.item(pp, 2), cm.dict_term(c, stats), {"C24"})


LOSS = {
    "BestSoFarMinimiser": lambda c, y, f: f,
    "BestSoFarLeastSquares": lambda c, y, f: mk("dot", f, f),
    "BestSoFarRootFinder": lambda c, y, f: mk("dot", f, f),
    "BestSoFarFixedPoint": lambda c, y, f: mk("dot", mk("sub", y, f), mk("sub", y, f)),
}
INNER = {"BestSoFarMinimiser": "AbstractMinimiser", "BestSoFarLeastSquares": "AbstractLeastSquaresSolver",
         "BestSoFarRootFinder": "AbstractRootFinder", "BestSoFarFixedPoint": "AbstractFixedPointSolver"}


@clause("C01", "C03", "C04", "C09", "C18", "C27", "C31", "C32")
def best_so_far(c):
    for name, loss in LOSS.items():
        cls = c.cls(name)
        w, wi, wt, wp = (c.where(c.method(cls, m)) for m in ("step", "init", "terminate", "postprocess"))
        inner = c.obj("inner", c.cls(INNER[name]))
        s = c.new(cls, inner)
        P = cm.problem(c, scalar=name == "BestSoFarMinimiser")
        fn, y, args, tags, options = P["fn"], P["y"], P["args"], P["tags"], P["options"]
        t = f"[{name}]"
        wrapped = c.run(c.ref("keep_output"), fn)
        for n in ("rtol", "atol", "norm"):
            c.eq(f"{n} of the wrapped solver {t}", wi, c.attr(s, n), c.attr(inner, n), {"C18", "C31"})
        st0 = c.meth(s, "init", fn, y, args, options, P["f_struct"], P["aux_struct"], tags)
        in0 = c.meth(inner, "init", wrapped, y, args, options, P["f_struct"], tup(P["f_struct"], P["aux_struct"]), tags)
        c.eq("wrapped state " + t, wi, c.field(st0, "state"), in0, {"C18", "C04"})
        c.eq("best loss before any evaluation " + t, wi, c.field(st0, "best_loss"), const(float("inf")), {"C18"})
        c.eq("best point before any evaluation " + t, wi, c.field(st0, "best_y"), y, {"C18"})
        st = c.symstate(st0)
        S = lambda n: c.field(st, n)
        tm.set_meta(S("best_loss"), scalar=True)
        out = c.meth(s, "step", fn, y, args, options, st, tags)
        ino = c.meth(inner, "step", wrapped, y, args, options, S("state"), tags)
        st1 = c.item(out, 1)
        a = c.item(ino, 2)
        f, aux = c.item(a, 0), c.item(a, 1)
        if name == "BestSoFarMinimiser":
            tm.set_meta(f, scalar=True)
        l = loss(c, y, f)
        better = mk("lt", l, S("best_loss"))
        c.eq("next point " + t, w, c.item(out, 0), c.item(ino, 0), {"C18"})
        c.eq("wrapped solver state " + t, w, c.field(st1, "state"), c.item(ino, 1), {"C18"})
        c.eq("best point " + t, w, c.field(st1, "best_y"), mk("select", better, y, S("best_y")), {"C18", "C09"})
        c.eq("best aux " + t, w, c.field(st1, "best_aux"), mk("select", better, aux, S("best_aux")), {"C18", "C09"})
        c.eq("best loss " + t, w, c.field(st1, "best_loss"), mk("select", better, l, S("best_loss")), {"C18"})
        c.eq("aux " + t, w, c.item(out, 2), aux, {"C09", "C18"})
        term = c.meth(s, "terminate", fn, y, args, options, st, tags)
        tin = c.meth(inner, "terminate", wrapped, y, args, options, S("state"), tags)
        c.eq("stops " + t, wt, c.item(term, 0), c.item(tin, 0), {"C18", "C01"})
        c.eq("result " + t, wt, c.item(term, 1), c.item(tin, 1), {"C18", "C01", "C27"})
        seen = set()
        for x in sorted({x for z in (st0, out, term) for x in tm.walk(z, seen) if x.op == "mcall" and x.args[0] is inner}, key=lambda x: x.id):
            got = cm.call_args(x)
            for n, e, props in (("args", args, {"C04"}), ("options", options, {"C04"}), ("tags", tags, {"C04", "C32"})):
                if n in got:
                    c.eq(f"the wrapped solver's {x.args[1]} receives the user's {n} {t}", w, got[n], e, props)
        pp = c.meth(s, "postprocess", fn, y, sym("aux"), args, options, st, tags, sym("result"))
        c.eq("returned point " + t, wp, c.item(pp, 0), S("best_y"), {"C18", "C03"})
        c.eq("returned aux " + t, wp, c.item(pp, 1), S("best_aux"), {"C18", "C03", "C09"})


@clause("C01", "C03", "C04", "C09", "C13", "C26", "C27", "C31")
def optax(c):
    cls = c.cls("OptaxMinimiser")
    w, wi, wt = (c.where(c.method(cls, m)) for m in ("step", "init", "terminate"))
    opt = sym("optim", notnone=True)
    s = c.new(cls, opt, rtol=c.scal("rtol"), atol=c.scal("atol"), norm=c.norm_sym("norm"))
    rtol, atol, nrm = (c.field(s, n) for n in ("rtol", "atol", "norm"))
    c.eq("optimiser kept", wi, c.field(s, "optim"), opt, {"C26", "C31"})
    P = cm.problem(c, scalar=True)
    fn, y, args, tags, options = P["fn"], P["y"], P["args"], P["tags"], P["options"]
    st0 = c.meth(s, "init", fn, y, args, options, P["f_struct"], P["aux_struct"], tags)
    c.eq("optimiser state", wi, c.field(st0, "opt_state"), c.meth(opt, "init", y), {"C26"})
    c.eq("no previous value", wi, c.field(st0, "f"), mk("attr", mk("finfo", NONE), "max"), {"C26", "C13"})
    st = c.symstate(st0)
    S = lambda n: c.field(st, n)
    tm.set_meta(S("f"), scalar=True)
    out = c.meth(s, "step", fn, y, args, options, st, tags)
    e = c.expect("gradient_step", fn, y, args)
    f, aux, g = (c.item(e, i) for i in range(3))
    up = c.run(c.ref("optax_update"), opt, g, S("opt_state"), y, f, fn, args)
    upd, ost = c.item(up, 0), c.item(up, 1)
    st1 = c.item(out, 1)
    c.eq("next point", w, c.item(out, 0), mk("add", y, upd), {"C26"})
    c.eq("optimiser state advanced", w, c.field(st1, "opt_state"), ost, {"C26"})
    c.eq("value kept", w, c.field(st1, "f"), f, {"C26", "C13"})
    c.eq("aux", w, c.item(out, 2), aux, {"C09", "C26"})
    term = c.meth(s, "terminate", fn, c.item(out, 0), args, options, st1, tags)
    conv = c.expect("cauchy", rtol, atol, nrm, y, upd, f, mk("sub", f, S("f")))
    c.eq("stops", wt, c.item(term, 0), conv, {"C26", "C13", "C01", "C31"})
    c.eq("result", wt, c.item(term, 1), OK, {"C27"})
    t0 = c.meth(s, "terminate", fn, y, args, options, st0, tags)
    c.eq("does not stop before the first step", wi, c.item(t0, 0), FALSE, {"C26", "C01"})
    post(c, cls, s, fn, y, args, options, st, tags)


@clause("C01", "C03", "C09", "C13", "C24", "C27", "C31")
def nelder_mead(c):
    cls = c.cls("NelderMead")
    w, wi, wt = (c.where(c.method(cls, m)) for m in ("step", "init", "terminate"))
    rd, ad = c.scal("rdelta"), c.scal("adelta")
    s = cm.solver(c, "NelderMead", rdelta=rd, adelta=ad)
    rtol, atol, nrm = (c.field(s, n) for n in ("rtol", "atol", "norm"))
    P = cm.problem(c, scalar=True)
    fn, y, args, tags = P["fn"], P["y"], P["args"], P["tags"]
    options = cm.dict_term(c, {})
    st0 = c.meth(s, "init", fn, y, args, options, P["f_struct"], P["aux_struct"], tags)
    st = c.symstate(st0)
    S = lambda n: c.field(st, n)
    B, W = [c.item(S("best"), i) for i in range(3)], [c.item(S("worst"), i) for i in range(3)]
    sx, fs, f2, first = S("simplex"), S("f_simplex"), S("second_worst_val"), S("first_pass")
    tm.set_meta(fs, rows=True)
    tm.set_meta(sx, rows=True)
    for x in (B[0], B[2], W[0], W[2], f2):
        tm.set_meta(x, scalar=True)
    stat0, stat = c.field(st0, "stats"), S("stats")
    # starting state
    c.eq("starts with the set-up pass", wi, c.field(st0, "first_pass"), TRUE, {"C24"})
    for n in ("n_reflect", "n_inner_contract", "n_outer_contract", "n_expand"):
        c.eq(f"{n} starts at zero", wi, c.field(stat0, n), const(0), {"C24"})
    c.eq("n_shrink discounts the set-up pass", wi, c.field(stat0, "n_shrink"), const(-1), {"C24"})
    initial_offsets(c, wi, c.field(st0, "simplex"), rd, ad)
    out = c.meth(s, "step", fn, y, args, options, st, tags)
    e = c.expect("nm_trial", fn, args, sx, mk("item", mk("attr", fs, "shape"), const(0)), W[1], W[0], B[0], f2)
    v, fv, aux, expand, inner, contract = (c.item(e, i) for i in range(6))
    st1 = c.item(out, 1)
    shrink = mk("gt", fv, W[0])
    # the vertices are ranked best <= second worst <= worst
    f_new_low = mk("and", mk("lt", fv, B[0]), shrink)
    sane = mk("not", mk("or", mk("or", mk("and", expand, contract), mk("and", inner, mk("not", contract))), f_new_low))
    run = mk("and", mk("not", first), sane)
    at = lambda p, x: cm.when(p, x)
    shr = c.expect("nm_shrunk", sx, B[1])
    new_sx = mk("select", shrink, shr, c.expect("nm_replaced", sx, W[2], v))
    new_fs = mk("select", shrink, c.expect("nm_values", fn, args, shr), c.run(c.ref("nm_replaced"), fs, W[2], fv))
    fs_first = c.expect("nm_values", fn, args, sx)
    c.eq("simplex on the set-up pass", w, at(first, c.field(st1, "simplex")), at(first, sx), {"C24"})
    c.eq("values on the set-up pass", w, at(first, c.field(st1, "f_simplex")), at(first, fs_first), {"C24"})
    c.eq("simplex", w, at(run, c.field(st1, "simplex")), at(run, new_sx), {"C24"})
    c.eq("values", w, at(run, c.field(st1, "f_simplex")), at(run, new_fs), {"C24"})
    # ranking is that of the updated simplex
    for p, sx1, fs1, t in ((first, sx, fs_first, "on the set-up pass"), (run, new_sx, new_fs, "")):
        r = c.expect("nm_ranks", sx1, fs1)
        rb, rw, r2 = (c.item(r, i) for i in range(3))
        for i, n in ((0, "value"), (1, "vertex"), (2, "index")):
            c.eq(f"best {n} {t}", w, at(p, c.item(c.field(st1, "best"), i)), at(p, c.item(rb, i)), {"C24"})
            c.eq(f"worst {n} {t}", w, at(p, c.item(c.field(st1, "worst"), i)), at(p, c.item(rw, i)), {"C24"})
        c.eq(f"second worst value {t}", w, at(p, c.field(st1, "second_worst_val")), at(p, r2), {"C24"})
        c.eq(f"next point is the best vertex {t}", w, at(p, c.item(out, 0)), at(p, c.item(rb, 1)), {"C24"})
    c.eq("set-up pass happens once", w, c.field(st1, "first_pass"), FALSE, {"C24"})
    c.eq("result carried", w, c.field(st1, "result"), S("result"), {"C24", "C27"})
    # counters
    one = lambda p: mk("select", p, const(1), const(0))
    reflect = mk("not", mk("or", expand, contract))
    for n, p in (("n_reflect", reflect), ("n_inner_contract", inner), ("n_outer_contract", mk("and", contract, mk("not", inner))), ("n_expand", expand)):
        c.eq(f"{n} counted", w, at(run, c.field(c.field(st1, "stats"), n)), at(run, mk("add", c.field(stat, n), one(p))), {"C24"})
        c.eq(f"{n} on the set-up pass", w, at(first, c.field(c.field(st1, "stats"), n)), at(first, c.field(stat, n)), {"C24"})
    c.eq("n_shrink counted", w, at(mk("or", first, run), c.field(c.field(st1, "stats"), "n_shrink")),
         at(mk("or", first, run), mk("add", c.field(stat, "n_shrink"), one(mk("or", first, shrink)))), {"C24"})
    # aux
    either = mk("or", first, sane)
    known_wrong(c, "aux of the input iterate", w, at(either, c.item(out, 2)), at(either, c.item(c.run(fn, y, args), 1)),
                at(either, mk("select", first, c.field(st, "aux"), aux)))
    # stopping
    term = c.meth(s, "terminate", fn, y, args, options, st, tags)
    conv = c.expect("nm_converged", rtol, atol, nrm, sx, fs, B[1], B[0])
    div = c.expect("not_finite", B[0])
    c.eq("stops", wt, c.item(term, 0), mk("or", conv, div), {"C24", "C13", "C01", "C31"})
    c.eq("result", wt, c.item(term, 1), mk("select", div, DIV, OK), {"C24", "C27", "C01"})
    post(c, cls, s, fn, y, args, options, st, tags, "", dict(
        num_reflections=c.field(stat, "n_reflect"), num_inner_contractions=c.field(stat, "n_inner_contract"),
        num_outer_contractions=c.field(stat, "n_outer_contract"), num_expansions=c.field(stat, "n_expand"),
        num_shrinkages=c.field(stat, "n_shrink")))


def initial_offsets(c, w, simplex, rd, ad):
    """Every vertex write made for the initial simplex adds adelta + rdelta * coordinate."""
    n = 0
    for x in tm.walk(simplex):
        if x.op != "at_set":
            continue
        n += 1
        d = c.nf(mk("sub", x.args[2], mk("getitem", x.args[0], x.args[1])))
        p = norm.to_poly(d)
        rest = {m: k for m, k in p.items() if m != ((ad, 1),)}
        good = p.get(((ad, 1),)) == 1 and len(rest) == 1
        if good:
            (m, k), = rest.items()
            good = k == 1 and (rd, 1) in m and sum(e for _, e in m) == 2
        c.ok(f"initial offset {n}", w, good, f"vertex offset {tm.show(d, 6)} is not adelta + rdelta * y_i", {"C24", "C31"})
        # consecutive flat positions of the (dim + 1, ...) array fill rows, they do not step one row per coordinate
        i = x.args[1]
        flat = i.op == "fun" and i.args[0].endswith("unravel_index") and i.args[2].op == "arange" and i.args[2].args[2] == const(1)
        name = f"initial vertex {n} moves one coordinate per row"
        if flat:
            # the recorded defect starts one place after the coordinates of the earlier leaves and runs over this leaf
            lo, hi, _ = i.args[2].args
            leaf = [z for z in tm.walk(x.args[0]) if z.op == "sym" and norm.equal(c.nf(mk("sub", hi, lo)), c.nf(mk("attr", z, "size")))]
            place = mk("sub", lo, const(1))
            rel = [z.args[2] for z in tm.walk(x.args[2]) if z.op == "fun" and z.args[0].endswith("unravel_index") and z is not i]
            same = (leaf and all(norm.equal(c.nf(z), c.nf(mk("sub", i.args[2], place))) for z in rel)
                    and (place.args[0].op == "const" or any(z.op == "sym" and z is not leaf[0] for z in tm.walk(place))))
            if not same:
                name = "other " + name
        c.ok(name, w, not flat, f"offsets written at consecutive flat positions {tm.show(i, 4)}", {"C24"})
    if not n:
        raise Skip("no indexed write builds the initial simplex")
