"""Hash-consed terms: the nodes of the value-flow graph.

A term is an operator name plus a tuple of arguments (terms or plain hashable Python data).
Identical computations are one node.
"""
from fractions import Fraction
from decimal import Decimal


class T:
    __slots__ = ("op", "args", "id", "loc", "_fv", "_h")

    def __repr__(self):
        return show(self)


_table = {}
_cur_loc = [None]


def mk(op, *args):
    key = (op,) + tuple(
        a if isinstance(a, T) or not isinstance(a, (bool, int, float)) else (type(a).__name__, a)
        for a in args
    )
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_table)
        t.loc = _cur_loc[0]
        t._fv = None
        t._h = None
        _table[key] = t
    return t


def const(v):
    if isinstance(v, float):
        if v != v:
            return mk("const", "float", "nan")
        if v in (float("inf"), float("-inf")):
            return mk("const", "float", "inf" if v > 0 else "-inf")
        if v == int(v) and abs(v) < 1e15:
            return mk("const", "float", Fraction(int(v)))
        return mk("const", "float", Fraction(Decimal(repr(v))))
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELLIPSIS = mk("const", "ellipsis", "...")


def is_const(t, ty=None):
    return t.op == "const" and (ty is None or t.args[0] == ty)


def pyval(t):
    """Python value of a constant term (numbers as Fraction/int)."""
    return t.args[1]


def is_num(t):
    return t.op == "const" and t.args[0] in ("int", "float") and not isinstance(t.args[1], str)


def is_str(t):
    return t.op == "const" and t.args[0] == "str"


_sym_meta = {}
_fresh = [0]


def sym(name, **meta):
    t = mk("sym", name)
    if meta:
        _sym_meta.setdefault(t, {}).update(meta)
    return t


def meta(t, key, default=None):
    m = _sym_meta.get(t)
    return default if m is None else m.get(key, default)


def set_meta(t, **kw):
    _sym_meta.setdefault(t, {}).update(kw)
    return t


def fresh(prefix="v"):
    _fresh[0] += 1
    return mk("sym", f"{prefix}${_fresh[0]}")


def tup(*items):
    return mk("tuple", *items)


def walk(t, seen=None):
    """All sub-terms, each once."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        tuples = [x.args]
        while tuples:
            for a in tuples.pop():
                if isinstance(a, T):
                    stack.append(a)
                elif isinstance(a, tuple):
                    tuples.append(a)


def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(a, depth) for a in t) + ")"
        return getattr(t, "name", None) or str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    o = t.op
    a = t.args
    if o == "const":
        return str(a[1]) if a[0] != "str" else repr(a[1])
    if o == "num":
        return str(a[0])
    if o == "sym":
        return a[0]
    if o == "bv":
        return f"#{a[0]}.{a[1]}"
    if o == "res":
        return "RESULTS." + a[0]
    if o == "poly":
        return show_poly(t, d)
    if o == "ite":
        return f"if[{show(a[0], d)}]({show(a[1], d)} ; {show(a[2], d)})"
    if o == "lt0":
        return f"({show(a[0], d)} < 0)"
    if o == "le0":
        return f"({show(a[0], d)} <= 0)"
    if o == "eq0":
        return f"({show(a[0], d)} == 0)"
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if o == "rec":
        c = a[0]
        return f"{c.name}(" + ", ".join(f"{n}={show(x, d)}" for n, x in zip(a[1], a[2:])) + ")"
    if o == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "fn":
        return f"<fn {a[0].name}>"
    if o == "call":
        return f"{show(a[0], d)}(" + ", ".join(show(x, d) for x in a[2:]) + (f" kw={a[1]}" if a[1] else "") + ")"
    if o == "mcall":
        return f"{show(a[0], d)}.{a[1]}(" + ", ".join(show(x, d) for x in a[3:]) + ")"
    if o == "lam":
        return "λ" + ",".join(show(x, d) for x in a[0]) + "." + show(a[1], d)
    if o == "clam":
        return f"λ#{a[0]}/{a[1]}." + show(a[2], d)
    return f"{o}(" + ", ".join(show(x, d) for x in a) + ")"


def show_poly(t, d):
    parts = []
    for mono, c in t.args[0]:
        fs = []
        for atom, e in mono:
            s = show(atom, d)
            if e != 1:
                s += f"^{e}"
            fs.append(s)
        if c != 1 or not fs:
            fs.insert(0, str(c))
        parts.append("*".join(fs))
    return "(" + " + ".join(parts) + ")" if parts else "0"
