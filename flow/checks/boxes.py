"""Helpers for box constraints: clipping, feasible step lengths and the Cauchy point."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import T, mk, const, sym, tup, NONE, TRUE, FALSE, fresh
from .compat import either


def helper(c, mod, name):
    m = c.mod(mod)
    f = m.frame.vars.get(name) if m is not None else None
    if f is None:
        f = c.find(name)
    if f is None:
        raise Skip(f"no function {name}")
    return f


@clause("C35")
def elementwise(c):
    y, dy, lo, hi = c.arrs("y", "step", "lower", "upper")
    f = helper(c, "_misc", "tree_clip")
    c.eq("tree_clip", c.where(f), c.run(f, y, lo, hi), mk("min2", mk("max2", y, lo), hi))
    for n, k in (("tree_min", "min"), ("tree_max", "max")):
        f = helper(c, "_misc", n)
        c.eq(n, c.where(f), c.run(f, y), mk("reduce", k, y, NONE))
    f = helper(c, "_misc", "feasible_step_length")
    off = c.scal("offset")
    for t, kw, o in (("", {}, const(0)), (" with an offset", {"offset": off}, off)):
        either(c, "feasible_step_length" + t, c.where(f), c.run(f, y, dy, lo, hi, **kw), [c.expect(n, y, dy, lo, hi, o) for n in ("feasible_where", "feasible_min")])


def leaves(t):
    if t.op == "select":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def replace(t, m, memo=None):
    """Simultaneous replacement of subterms, outermost first."""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    go = lambda x: replace(x, m, memo) if isinstance(x, T) else tuple(go(y) for y in x) if isinstance(x, tuple) else x
    r = mk(t.op, *[go(x) for x in t.args])
    memo[t] = r
    return r


@clause("C35")
def cauchy(c):
    f = helper(c, "_solver.cauchy_point", "cauchy_point")
    w = c.where(f)
    y, lo, hi, g = c.arrs("y", "lower", "upper", "grad")
    h = sym("hessian", notnone=True)
    got = c.run(f, y, lo, hi, g, h)
    free = c.run(helper(c, "_misc", "feasible_step_length"), y, mk("neg", g), lo, hi)
    moved = mk("add", y, mk("mul", mk("reduce", "min", free, NONE), mk("neg", g)))
    if got.op == "select":
        breaks = c.expect("box_breakpoints", y, lo, hi, g)
        c.eq("the path is searched when a bound is met within the gradient step", w, got.args[0], c.expect("met_within_step", breaks))
    for i, t in enumerate(leaves(got)):
        if t.op == "loopout" and t.args[0].op == "while":
            node, k = t.args
            body, init = node.args[1], node.args[2]
            c.eq("the search starts at y", w, init.args[k], y)
            out = body.args[1].args[k]
            n = "every point of the search lies in the box"
            if boxed(c.nf(out), c.nf(lo), c.nf(hi)):
                c.add(n, "ok", w)
            else:
                why = c.foreign(c.nf(out), c.nf(y))
                c.add(n, "undecided" if why else "bad", w, why or "a point that is not clipped to both bounds: " + tm.show(c.nf(out), 4)[:300])
            slope(c, w, y, h, body, k)
            search(c, w, (y, g, lo, hi), h, node, k)
        else:
            c.eq("without boundary intercepts the step is shortened to stay in the box", w, t, moved)


def boxed(t, lo, hi):
    """min(max(_, lower), upper) in every case."""
    if t.op == "ite":
        return boxed(t.args[1], lo, hi) and boxed(t.args[2], lo, hi)
    if t.op == "min" and hi in t.args:
        return any(a.op == "max" and lo in a.args for a in t.args)
    return t.op == "max" and lo in t.args and any(a.op == "min" and hi in a.args for a in t.args)


def slope(c, w, y, h, body, k):
    """Inner products in the search only see displacements: moving the whole problem does not change them."""
    point = body.args[0][k]
    clips = {x for x in tm.walk(body.args[1]) if x.op in ("clip", "min2", "max2") and point not in set(tm.walk(x)) and y in set(tm.walk(x))}
    names = {x: fresh("p") for x in clips}
    s = fresh("shift")
    shift = {y: mk("add", y, s), point: mk("add", point, s)}
    shift.update({p: mk("add", p, s) for p in names.values()})
    recorded = {c.nf(mk("dot", point, mk("mv", h, mk("sub", p, y)))) for p in names.values()}
    bad, other = [], False
    for d in {x for x in tm.walk(body.args[1]) if x.op == "dot"}:
        d0 = replace(d, names)
        if not norm.equal(c.nf(d0), c.nf(replace(d0, shift))):
            bad.append(tm.show(c.nf(d0), 5)[:200])
            other |= c.nf(d0) not in recorded
    c.ok(("the rest of " if other else "") + "the model along the path depends on displacements only", w, not bad, "changes when the problem is moved: " + "; ".join(sorted(bad)))


def as_written(c, want, outs):
    """The code's own expression of an array, so that what is computed from it is compared as is."""
    seen = {x for o in outs for x in tm.walk(o) if x.op in ("ite", "select", "min2", "ravel")}
    for t in sorted(seen, key=lambda t: t.id)[:40]:
        if norm.equal_under(c.I, c.nf(t), c.nf(want), ordered=False):
            return t
    return want


def search(c, w, problem, h, node, k):
    """The points tried are those of the projected gradient path at its breakpoints and at the minimiser of the model."""
    y, g, lo, hi = problem
    xs, outs, init = node.args[1].args[0], node.args[1].args[1].args, node.args[2].args
    fixed = {x: i for x, o, i in zip(xs, outs, init) if o in (x, i)}
    outs = [replace(o, fixed) for o in outs]
    breaks = as_written(c, c.expect("box_breakpoints", y, lo, hi, g), outs)
    last = [i for i, x in enumerate(init) if x == const(0) or c.nf(x) == c.nf(const(0))]
    stop = [i for i, x in enumerate(init) if c.nf(x) == c.nf(FALSE)]
    if len(last) != 1 or len(stop) != 1:
        return c.add("search along the projected gradient", "undecided", w, "the carried values were not recognised")
    mv = c.attr(h, "mv")
    point = xs[k]
    refs = [c.expect("cauchy_trial", y, g, lo, hi, mv, breaks, xs[last[0]], b) for b in (point, mk("sub", point, y))]
    either(c, "next breakpoint of the projected gradient path", w, outs[last[0]], [c.item(r, 0) for r in refs])
    either(c, "point tried on a segment of the path", w, outs[k], [c.item(r, 1) for r in refs])
    either(c, "search stops at the first minimiser or the last breakpoint", w, outs[stop[0]], [c.item(r, i) for r in refs for i in (2, 3)])
