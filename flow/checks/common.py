"""Symbolic problems, solvers and small term builders shared by the checks."""
from ..kit import Skip, Missing
from .. import terms as tm
from ..interp import VDict
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE


def solver(c, name, **kw):
    cls = c.cls(name)
    names = init_params(c, cls)
    args = {}
    for n in ("rtol", "atol"):
        if n in names:
            args[n] = c.scal(n, finite=True)
    if "norm" in names:
        args["norm"] = c.norm_sym("norm")
    if "learning_rate" in names:
        args["learning_rate"] = c.scal("learning_rate")
    args.update(kw)
    return c.new(cls, **args)


def init_params(c, cls):
    init, _ = cls.lookup("__init__")
    if init is not None and init.op == "fn":
        a = init.args[0].node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
    return list(cls.fields())


def param_names(c, f):
    if f.op != "fn":
        return []
    a = f.args[0].node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def problem(c, scalar):
    y = sym("y", notnone=True, kind="array")
    fn = sym("fn", kind="fn", notnone=True, pair=True, scalar_out=scalar)
    return dict(fn=fn, y=y, args=sym("args"), tags=sym("tags", notnone=True),
                f_struct=sym("f_struct", notnone=True, scalar=scalar), aux_struct=sym("aux_struct", notnone=True),
                options=sym("options", kind="mapping", notnone=True))


def dict_term(c, d):
    return c.I.freeze(VDict([("k", const(k), const(v) if isinstance(v, str) else v) for k, v in d.items()]))


def sel(c, p, a, b):
    return mk("select", p, a, b)


def when(p, v):
    """v where p holds; a fixed marker elsewhere."""
    return mk("select", p, v, mk("sym", "<dont care>"))


def promote(c, r):
    return mk("promote", r)


class opaque:
    """Keep calls of some functions as uninterpreted nodes with canonically bound arguments."""

    def __init__(self, c, *fns):
        self.c, self.fns = c, fns

    def __enter__(self):
        self.old = set(self.c.I.opaque), self.c.I.prepare
        self.c.I.prepare = self.close
        for f in self.fns:
            while f.op in ("partial", "bound"):
                f = f.args[0]
            if f.op == "fn":
                self.c.I.opaque.add(f.args[0])
        return self

    def __exit__(self, *a):
        self.c.I.opaque, self.c.I.prepare = self.old

    def close(self, b):
        """Passing args to the function or capturing them is the same."""
        if "fn" in b and b.get("args", NONE) is not NONE:
            b = dict(b, fn=self.c.I.call(self.c.ref("with_args"), [b["fn"], b["args"]], {}), args=NONE)
        return b


def find_calls(t, name):
    return [x for x in tm.walk(t) if x.op == "mcall" and x.args[1] == name and x.args[0].op == "sym" and x.args[0].args[0] == "<function>"]


def call_args(t):
    return dict(zip(t.args[2], t.args[3:]))


def nostate(t):
    return t


def scalar_struct(c):
    return sym("f_struct", notnone=True, scalar=True, shape=(), sds=True)


def err_cond(e):
    return e.data[0] if isinstance(e.data, tuple) else e.data
