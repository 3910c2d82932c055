"""What the verbose callback is told about a step."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm
from .steps import FAMILY, build


def printer_of(c):
    p = c.fnsym("printer")
    tm.set_meta(p, callable=True)
    return p


def reported(c, w, tag, events, printer):
    """The keyword arguments of the single call of the callback; label and value of each."""
    calls = [e for e in events if e.kind == "opaque" and isinstance(e.data, tm.T) and e.data.op == "call" and e.data.args[0] is printer and e.pc is not FALSE]
    ok = len(calls) == 1 and calls[0].pc is TRUE
    c.ok(f"{tag} reports once per step", w, ok, f"{len(calls)} calls of the callback" if len(calls) != 1 else "the callback is only called sometimes")
    if not ok:
        return None
    t = calls[0].data
    names = t.args[1]
    vals = t.args[len(t.args) - len(names):] if names else ()
    out = {}
    bad = []
    for n, v in zip(names, vals):
        if v.op == "tuple" and len(v.args) == 2 and v.args[0].op == "const" and v.args[0].args[0] == "str":
            out[n] = v.args[1]
        else:
            bad.append(n)
    if not all(isinstance(n, str) for n in names):
        return None
    c.ok(f"{tag} reports pairs of a name and a value", w, not bad, "not a (name, value) pair: " + ", ".join(bad))
    return out


KEYS = ("loss_this_step", "loss_last_accepted_step", "step_size", "y", "y_last_accepted_step")
COUNTS = ("num_steps", "accepted_steps", "steps_since_acceptance")


def present(c, w, tag, rep, names):
    gone = [n for n in names if n not in rep]
    c.ok(f"{tag} reports everything it used to", w, not gone, "no longer reported: " + ", ".join(gone))


@clause("C36")
def families(c):
    printer = printer_of(c)
    for name, fam, kw in FAMILY:
        if "verbose" not in cm.init_params(c, c.cls(name)):
            continue
        cls, s, descent, search = build(c, name, verbose=printer, **kw)
        tag = name + ("" if not kw else "[inv]" if kw["use_inverse"] is TRUE else "[direct]")
        w = c.where(c.method(cls, "step"))
        P = cm.problem(c, scalar=fam != "gn")
        fn, y, args, tags = P["fn"], P["y"], P["args"], P["tags"]
        options = cm.dict_term(c, {})
        st0 = c.meth(s, "init", fn, y, args, options, P["f_struct"], P["aux_struct"], tags)
        st = c.symstate(st0)
        F = lambda n: c.field(st, n)
        n = len(c.I.events)
        out = c.meth(s, "step", fn, y, args, options, st, tags)
        rep = reported(c, w, tag, c.I.events[n:], printer)
        if rep is None:
            continue
        ye = F("y_eval")
        if fam == "gn":
            ev = c.expect("gauss_newton_eval", fn, ye, args)
            f, jac = c.item(ev, 0), c.item(ev, 1)
            fe = c.rec(c.cls("FunctionInfo.ResidualJac"), residual=f, jac=jac)
            half = lambda r: mk("mul", const(0.5), mk("dot", r, r))
            loss, last = half(f), half(c.field(F("f_info"), "residual"))
        else:
            loss = c.item(c.expect("objective_eval", fn, ye, args), 0)
            fe = c.rec(c.cls("FunctionInfo.Eval"), f=loss)
            last = c.field(F("f_info"), "f")
        so = c.meth(search, "step", F("first_step"), y, ye, F("f_info"), fe, F("search_state"))
        accept = c.item(so, 1)
        present(c, w, tag, rep, KEYS + (COUNTS if fam == "gn" else ()))
        for k, e in {"loss_this_step": loss, "step_size": c.item(so, 0), "y": ye}.items():
            if k in rep:
                c.eq(f"{tag} {k}", w, rep[k], e)
        # "last accepted step": the iterate before this step, or the one after it, but the same for all
        new = lambda a, b: cm.sel(c, accept, a, b)
        if "loss_last_accepted_step" in rep and "y_last_accepted_step" in rep:
            pair(c, f"{tag} loss and iterate of the last accepted step", w, (rep["loss_last_accepted_step"], rep["y_last_accepted_step"]),
                 [(last, y), (new(loss, last), new(ye, y))])
        st1 = c.item(out, 1)
        count = {"num_steps": const(1), "accepted_steps": new(const(1), const(0))}
        field = {"num_steps": "num_steps", "accepted_steps": "num_accepted_steps", "steps_since_acceptance": "num_steps_since_acceptance"}
        for k, n in field.items():
            if k not in rep or c.I.rec_get(st, n) is None:
                continue
            old = F(n)
            nxt = new(const(0), mk("add", old, const(1))) if k == "steps_since_acceptance" else mk("add", old, count[k])
            c.eq(f"{tag} {k} starts at zero", c.where(c.method(cls, "init")), c.field(st0, n), const(0))
            c.eq(f"{tag} {k} is counted", w, c.field(st1, n), nxt)
            c.eq(f"{tag} {k}", w, rep[k], old)


def pair(c, name, w, got, alts):
    """The values must match one of the alternatives together."""
    g = [c.nf(x) for x in got]
    for a in alts:
        if all(norm.equal(x, c.nf(e)) for x, e in zip(g, a)):
            c.add(name, "ok", w)
            return
    for x, es in zip(g, zip(*alts)):
        for e in es:
            why = c.foreign(x, c.nf(e))
            if why:
                c.add(name, "undecided", w, "not understood: " + why)
                return
    c.add(name, "bad", w, "they belong to different iterates: " + " ; ".join(tm.show(x, 5)[:200] for x in g))


@clause("C36")
def optax(c):
    cls = c.cls("OptaxMinimiser")
    if "verbose" not in cm.init_params(c, cls):
        return
    printer = printer_of(c)
    w = c.where(c.method(cls, "step"))
    s = cm.solver(c, "OptaxMinimiser", optim=sym("optim", notnone=True), verbose=printer)
    P = cm.problem(c, scalar=True)
    fn, y, args, tags, options = P["fn"], P["y"], P["args"], P["tags"], P["options"]
    st0 = c.meth(s, "init", fn, y, args, options, P["f_struct"], P["aux_struct"], tags)
    st = c.symstate(st0)
    n = len(c.I.events)
    out = c.meth(s, "step", fn, y, args, options, st, tags)
    rep = reported(c, w, "OptaxMinimiser", c.I.events[n:], printer)
    if rep is None:
        return
    present(c, w, "OptaxMinimiser", rep, ("num_steps", "loss_this_step", "y"))
    if "num_steps" in rep and c.I.rec_get(st, "step") is not None:
        c.eq("OptaxMinimiser num_steps starts at zero", w, c.field(st0, "step"), const(0))
        c.eq("OptaxMinimiser num_steps is counted", w, c.field(c.item(out, 1), "step"), mk("add", c.field(st, "step"), const(1)))
        c.eq("OptaxMinimiser num_steps", w, rep["num_steps"], c.field(st, "step"))
    if "loss_this_step" in rep:
        c.eq("OptaxMinimiser loss_this_step", w, rep["loss_this_step"], c.item(c.run(fn, y, args), 0))
    if "y" in rep:
        c.eq("OptaxMinimiser y", w, rep["y"], y)


@clause("C36")
def printed(c):
    """verbose=True prints every reported value under its own name."""
    s = cm.solver(c, "GaussNewton", verbose=TRUE)
    v = c.I.rec_get(s, "verbose")
    if v is None:
        raise Skip("no field verbose")
    a, b = c.arrs("value_a", "value_b")
    _, ev = c.run_events(v, first=tup(const("First"), a), second=tup(const("Second"), b))
    p = [e for e in ev if e.kind == "print" and e.pc is not FALSE]
    w = c.where(v)
    c.ok("one line per report", w, len(p) == 1, f"{len(p)} lines are printed")
    if len(p) == 1:
        d = p[0].data
        c.eq("printed values", w, tup(*d.args[1:]), tup(a, b))
        c.eq("printed names", w, d.args[0], const("First: {}, Second: {}"))
