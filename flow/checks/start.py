"""Nothing has been computed before the first step, so no solver may declare convergence there."""
from ..kit import clause
from .. import norm, terms as tm
from ..terms import mk, const, TRUE, FALSE
from .dtypes import SOLVERS, ABSTRACT, instance

INF = {mk("const", "float", "inf"), mk("const", "float", "-inf"), const(float("inf"))}


def huge(x):
    return x in INF or x.op == "attr" and x.args[1] == "max" and x.args[0].op == "finfo"


def impossible(a):
    """A bound on a size that is infinite."""
    return a.op == "gt0" and any(huge(x) for x in tm.walk(a.args[0]))


def reaches(b):
    """A way to the value True that passes no impossible test; None when there is none."""
    st = [(b, ())]
    while st:
        x, p = st.pop()
        if x is TRUE:
            return p
        if x.op == "ite":
            st.append((x.args[2], p + ((x.args[0], False),)))
            if not impossible(x.args[0]):
                st.append((x.args[1], p + ((x.args[0], True),)))
        elif x is not FALSE:
            return p + ((x, True),)
    return None


@clause("C01", "C13")
def solvers(c):
    for name, kw, scalar in SOLVERS:
        if name in ABSTRACT:
            continue
        cls, tag, P, s, y, fs, options, _ = instance(c, name, kw, scalar)
        w = c.where(c.method(cls, "init"))
        fn, args, tags = P["fn"], P["args"], P["tags"]
        st0 = c.meth(s, "init", fn, y, args, options, fs, P["aux_struct"], tags)
        b = c.nb(c.item(c.meth(s, "terminate", fn, y, args, options, st0, tags), 0))
        p = reaches(b)
        key = f"{tag} does not stop before its first step"
        if p is None:
            c.add(key, "ok", w)
            continue
        why = c.foreign(b, b)
        if why:
            c.add(key, "undecided", w, "not understood: " + why)
        else:
            c.add(key, "bad", w, "the initial state passes the stopping test when " + (" and ".join(("" if v else "not ") + tm.show(a, 5) for a, v in p) or "always"))
