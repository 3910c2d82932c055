"""Dtype provenance: where the precision of every carried array comes from.

Each node of the (un-normalised) value-flow graph gets one of
  "bool", "int", "weak" (a Python scalar or an array made from one, which takes the precision of
  whatever it meets), a set of sources (the user's initial guess and function values, "the problem"; aux; ...)
  with the source "default" for a dtype fixed by the code rather than taken from the problem;
or None when the analysis does not know.  Promotion is union of sources.
"""
from ..kit import clause, Skip, Missing
from .. import norm, terms as tm
from ..terms import T, mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm
from .search import KINDS

RANK = {"bool": 0, "int": 1, "weak": 2}
DEFAULT = "default"
PROBLEM = frozenset({"the problem"})
BOOLOPS = {"lt", "le", "gt", "ge", "eq", "ne", "is", "isnot", "in", "notin", "not", "and", "or", "isinstance", "has", "truthy",
           "xor", "isfinite", "isnan", "isinf", "any", "all", "issubdtype", "iscomplex"}
SAME = {"neg", "abs", "stopgrad", "reshape", "ravel", "conj", "real", "sum", "min", "max", "struct", "transpose_arr", "sort", "clip",
        "max_norm", "rms_norm", "spread", "relu", "flip", "squeeze", "nograd", "entered", "errif", "carried"}
ARITH = {"add", "sub", "mul", "dot", "minimum", "maximum", "mod", "floordiv", "matmul", "clip", "where", "max2", "min2"}
FLOATING = {"sqrt", "exp", "log", "sin", "cos", "mean", "square"}
DT = {"float": DEFAULT, "float64": DEFAULT, "float32": DEFAULT, "float16": DEFAULT, "bfloat16": DEFAULT, "float_": DEFAULT,
      "complex64": DEFAULT, "complex128": DEFAULT, "double": DEFAULT, "single": DEFAULT,
      "int": "int", "int8": "int", "int16": "int", "int32": "int", "int64": "int", "uint8": "int", "uint32": "int", "bool": "bool", "bool_": "bool"}


OPS = {"op_jac", "op_fn", "transpose"}
# What the abstract parts of a solver return.
PARTS = ("search", "descent", "optim", "inner")
OWN = {("search", "init"): frozenset({"search state"}), ("search", "step", 0): "weak", ("search", "step", 1): "bool", ("search", "step", 2): "int",
       ("search", "step", 3): frozenset({"search state"}),
       ("descent", "init"): frozenset({"descent state"}), ("descent", "query"): frozenset({"descent state"}),
       ("descent", "step", 0): PROBLEM, ("descent", "step", 1): "int",
       ("optim", "init"): frozenset({"optimiser state"}), ("optim", "update", 0): PROBLEM, ("optim", "update", 1): frozenset({"optimiser state"}),
       ("inner", "init"): frozenset({"inner state"}), ("inner", "step", 0): PROBLEM, ("inner", "step", 1): frozenset({"inner state"}),
       ("inner", "step", 2, 0): PROBLEM, ("inner", "step", 2, 1): frozenset({"aux"})}


def join(*ts):
    """JAX type promotion."""
    r = "bool"
    for t in ts:
        if t is None or isinstance(t, tuple):
            return None
        if isinstance(r, frozenset):
            r = r | t if isinstance(t, frozenset) else r
        elif isinstance(t, frozenset):
            r = t
        elif RANK[t] > RANK[r]:
            r = t
    return r


def src(*names):
    return frozenset(names)


class Types:
    def __init__(self, c, env):
        self.c, self.env, self.memo, self.unknown, self.loops, self.issues = c, dict(env), {}, {}, {}, {}

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self.ty(t)
        if r is None:
            self.unknown.setdefault(t.op if t.op not in ("fun", "attr", "mcall", "call") else f"{t.op}:{tm.show(t, 2)}", t)
        self.memo[t] = r
        return r

    def all(self, ts):
        return join(*[self(x) for x in ts])

    def dt(self, d):
        """Type named by a dtype expression."""
        if d.op == "attr" and d.args[1] == "dtype":
            x = d.args[0]
            return self.dt(x.args[0]) if x.op == "finfo" else self(x)
        if d.op == "default_dtype":
            return src(DEFAULT)
        if d.op == "result_type":
            ts = [self(x) if not self.is_dtype(x) else self.dt(x) for x in d.args]
            return join(*ts)
        if d.op == "extref" or d.op == "py":
            return self.named(str(d.args[0]).rsplit(".", 1)[-1])
        if d.op == "const" and d.args[0] == "str":
            return self.named(d.args[1])
        if d.op == "select":
            known = self.inexact(d.args[0])
            if known is not None:
                return self.dt(d.args[1 if known else 2])
            a, b = self.dt(d.args[1]), self.dt(d.args[2])
            return a if a == b else None
        return None

    def inexact(self, p):
        """Truth of "this dtype is floating", when the typing decides it."""
        while p.op in ("truthy", "arr"):
            p = p.args[0]
        if p.op == "not":
            x = self.inexact(p.args[0])
            return None if x is None else not x
        if p.op != "issubdtype" or p.args[1].op != "extref" or not p.args[1].args[0].endswith((".inexact", ".floating")):
            return None
        x = p.args[0]
        x = self.dt(x) if self.is_dtype(x) else self(x)
        return True if isinstance(x, frozenset) and x & PROBLEM else False if x in ("bool", "int") else None

    def named(self, n):
        k = DT.get(n)
        return src(DEFAULT) if k == DEFAULT else k

    def is_dtype(self, d):
        return d.op in ("default_dtype", "result_type", "extref") or (d.op == "attr" and d.args[1] == "dtype")

    def ty(self, t):
        o, a = t.op, t.args
        if t in self.env:
            return self.env[t]
        if o == "const":
            return {"bool": "bool", "int": "int", "float": "weak"}.get(a[0])
        if o == "num":
            return "int" if getattr(a[0], "denominator", 1) == 1 else "weak"
        if o in BOOLOPS:
            return "bool"
        if o == "in_structure":
            return self.op_in(a[0])
        if o == "out_structure":
            return self.op_out(a[0])
        if o in ("promote", "res", "arange", "argmin", "argmax", "len"):
            return "int"
        if o == "arr":
            if a[1] is not NONE:
                return self.dt(a[1])
            if a[0].op == "tuple":
                x = self.all(a[0].args)
                return src(DEFAULT) if x == "weak" else x
            return self(a[0])
        if o == "full":
            return self.dt(a[2]) if a[2] is not NONE else self(a[0])
        if o == "select":
            x, y = self(a[1]), self(a[2])
            return x if x == y else join(x, y)
        if o == "reduce":
            kind, x = a[0], self(a[1])
            return "bool" if kind in ("any", "all") else "int" if kind in ("argmin", "argmax") or x == "bool" and kind == "sum" else "weak" if kind == "mean" and x in ("int", "bool") else x
        if o in SAME:
            return self(a[0])
        if o in ARITH:
            return self.all([x for x in a if isinstance(x, T)])
        if o in FLOATING:
            x = self(a[0])
            return "weak" if x in ("int", "bool") else x
        if o == "div":
            x = self.all(a)
            return "weak" if x in ("int", "bool") else x
        if o == "pow":
            return self.all(a)
        if o.startswith("at_"):
            return self(a[0])
        if o == "getitem":
            return self(a[0])
        if o == "tuple":
            return self.all(a)
        if o == "mcall" and a[1] == "init" and a[0].op == "linsolver":
            return src("linear solver state")
        if o == "attr":
            x, n = a
            if n in ("eps", "max", "min", "tiny", "smallest_normal", "resolution") and x.op == "finfo":
                d = self.dt(x.args[0])
                return src(DEFAULT) if d in RANK else d  # limits of a Python scalar are those of the default dtype
            if n in ("size", "ndim", "shape", "precision", "bits"):
                return "int"
            if n == "value" and x.op == "linsolve":
                side = self.op_out(x.args[0])
                if isinstance(side, frozenset) and DEFAULT in side:
                    self.issues[x] = "the operator of a linear solve has a dtype fixed by the code"
                return join(self.op_in(x.args[0]), self(x.args[1])) if self.square(x.args[0]) else self.op_in(x.args[0])
            if n == "value" and x.op == "mcall" and x.args[1] == "root_find":
                d = self(cm.call_args(x)["y0"])
                return src(DEFAULT) if d in RANK else d  # the initial guess is converted to an array of the default dtype
            if n == "pytree":
                return self(x)
            if n == "result":
                return "int"
            return None
        if o == "item":
            return self.part(a[0], tm.pyval(a[1]) if tm.is_const(a[1]) else None)
        if o == "mcall" and a[0].op == "sym" and a[0].args[0] in PARTS:
            return OWN.get((a[0].args[0], a[1]))
        if o == "vmap":
            self.bind(a[0].args[0], [self(l) for l in a[3:]])
            return self(a[0].args[1])
        if o in ("loopout", "scany"):
            return self.loop(t)
        if o == "transpose" and a[0].op not in OPS and not self.is_op(a[0]):
            return self(a[0])
        if o in OPS:
            x, y = self.op_in(t), self.op_out(t)
            return None if x is None or y is None else x if x == y else (x, y)
        if o == "call" and (a[0].op == "sym" and tm.meta(a[0], "kind") == "norm" or a[0].op == "attr" and a[0].args[1] == "norm"):
            return self.all(a[2:])
        if o == "mv":
            if a[0].op == "transpose" and a[0].args[0].op == "op_jac" and self(a[1]) in RANK:
                self.issues[t] = f"a cotangent of {text(self(a[1]))} dtype is pulled back; reverse-mode differentiation needs the dtype of the function value"
            return self.op_out(a[0])
        if o == "op_tree":
            return self(a[0])
        if o == "fun":
            p, args = a[0].rsplit(".", 1)[-1], a[2:]
            if p == "eye":
                return src(DEFAULT)
            if p in ("unravel_index", "argsort"):
                return "int"
            if p in ("repeat", "concatenate", "stack", "broadcast_to", "roll", "take", "moveaxis", "tril", "triu", "diag", "sort", "vstack", "hstack",
                     "dynamic_index_in_dim", "cumsum", "cholesky", "atleast_1d", "block"):
                x = args[0]
                return self.all(x.args) if x.op == "tuple" else self(x)
            if p == "einsum":
                return self.all([x for x in args if not tm.is_str(x)])
            if p in ("tensordot", "outer", "solve_triangular", "solve", "append"):
                return self.all(args[:2])
            return None
        return None

    def part(self, x, i):
        """Type of a component of a call's result."""
        if x.op == "call" and x.args[0].op == "sym" and x.args[0].args[0] == "fn":
            return {0: PROBLEM, 1: src("aux")}.get(i)
        if x.op == "mcall" and x.args[0].op == "sym":
            return OWN.get((x.args[0].args[0], x.args[1], i))
        if x.op == "item" and x.args[0].op == "mcall" and tm.is_const(x.args[1]):
            m = x.args[0]
            return OWN.get((m.args[0].args[0] if m.args[0].op == "sym" else None, m.args[1], tm.pyval(x.args[1]), i))
        if x.op == "vmap":
            lam, leaves = x.args[0], x.args[3:]
            self.bind(lam.args[0], [self(l) for l in leaves])
            b = lam.args[1]
            return self.part(b, i) if b.op != "tuple" else self(b.args[i]) if i is not None and i < len(b.args) else None
        if x.op == "fun" and x.args[0].endswith("top_k"):
            return self(x.args[2]) if i == 0 else "int"
        if x.op in ("call", "mcall", "tuple", "scan", "while"):
            return None
        return self(x)

    def bind(self, params, ts):
        for p, t in zip(params, ts):
            self.env.setdefault(p, t)

    def loop(self, t):
        node, i = t.args
        if node.op == "scan":
            lam, n, init, xs = node.args[:4]
            ps = lam.args[0]
            self.bind(ps, [self(x) for x in init.args] + [self(x) for x in xs.args])
            outs = lam.args[1].args
            if t.op == "scany":
                ys = self.c.I.flatten(outs[1])
                return self(ys[i]) if i < len(ys) else None
            body = outs[0].args
        elif node.op == "while":
            lam, init = node.args[1], node.args[2]
            self.bind(lam.args[0], [self(x) for x in init.args])
            body = lam.args[1].args
        else:
            return None
        if i >= len(body):
            return None
        x, y = self(init.args[i]), self(body[i])
        self.loops[(node, i)] = (x, y)
        return x if x == y else join(x, y)

    def is_op(self, x):
        return x.op in ("op_id", "op_fn", "op_jac", "op_tree", "op_tagged", "transpose") or (x in self.env and isinstance(self.env[x], tuple))

    def square(self, op):
        return op.op in ("sym", "op_tree", "op_fn")

    def op_in(self, op):
        o = op.op
        if op in self.env:
            x = self.env[op]
            return x[0] if isinstance(x, tuple) else x
        if o == "transpose":
            return self.op_out(op.args[0])
        if o == "op_jac":
            return self(op.args[1])
        if o == "op_fn":
            return self(op.args[1])
        if o == "op_tree":
            return self(op.args[0])
        if o in ("struct", "op_tagged", "linearise"):
            return self.op_in(op.args[0])
        if o == "op_id":
            return self(op.args[0])
        if o in ("add", "sub", "mul", "div", "neg"):
            ts = [self.op_in(x) if o in ("add", "sub") or self.is_op(x) else self(x) for x in op.args]
            return join(*ts)
        if o == "select":
            a, b = self.op_in(op.args[1]), self.op_in(op.args[2])
            return a if a == b else None
        return None

    def op_out(self, op):
        o = op.op
        if op in self.env:
            x = self.env[op]
            return x[1] if isinstance(x, tuple) else x
        if o == "transpose":
            return self.op_in(op.args[0])
        if o in ("op_jac", "op_fn"):
            lam, at = op.args[:2]
            if lam.op != "lam":
                return None
            x = self(at)
            self.bind(lam.args[0], [x] * len(lam.args[0]))
            return self(lam.args[1])
        if o == "op_tree":
            return self(op.args[0])
        if o in ("struct", "op_tagged", "linearise"):
            return self.op_out(op.args[0])
        if o == "op_id":
            return self(op.args[0])
        if o in ("add", "sub", "mul", "div", "neg"):
            ts = [self.op_out(x) if o in ("add", "sub") or self.is_op(x) else self(x) for x in op.args]
            return join(*ts)
        if o == "select":
            a, b = self.op_out(op.args[1]), self.op_out(op.args[2])
            return a if a == b else None
        return None


def text(t):
    if isinstance(t, tuple):
        return f"operator from {text(t[0])} to {text(t[1])}"
    return "unknown" if t is None else t if isinstance(t, str) else "dtype of " + "+".join(sorted(t))


def base(P):
    return {P["y"]: PROBLEM, P["f_struct"]: PROBLEM, P["aux_struct"]: src("aux")}


SKIP = ("fn", "class", "extref", "partial", "bound", "py", "lam")


def judge(c, name, w, before, after, at=None):
    loc = getattr(at, "loc", None)
    d = f"; value built at {loc[0]}:{loc[1]} in {loc[2]}" if loc and loc[0] and not str(loc[0]).startswith("verif:") else ""
    fixed = [x for x in (before, after) for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, frozenset) and DEFAULT in y]
    if fixed:
        c.add(name, "bad", w, f"dtype fixed by the code instead of taken from the problem (initially {text(before)}, after a step {text(after)}){d}")
    elif before is None or after is None:
        c.add(name, "undecided", w, f"initially {text(before)}, after a step {text(after)}")
    else:
        c.ok(name, w, before == after, f"initially {text(before)}, after a step {text(after)}{d}")


def carried(c, tag, wi, w, st0, sy, st1, env):
    """Every carried field keeps its dtype over a step; returns the typing of the step."""
    p0, p1, ps = c.field_paths(st0), c.field_paths(st1), c.field_paths(sy)
    t0 = Types(c, env)
    e = dict(env)
    for n, s in ps.items():
        if n in p0 and s.op == "sym":
            e[s] = t0(p0[n])
    t1 = Types(c, e)
    for n, x in p0.items():
        if n not in p1 or x is NONE or x.op in SKIP:
            continue
        judge(c, f"{tag}: dtype of {n}", w, t0(x), t1(p1[n]), p1[n])
    return t0, t1


def loops(c, tag, w, *ts):
    """Inner loops keep the dtype of what they carry; operators and cotangents have the dtype of the problem."""
    issues = {x: d for t in ts for x, d in t.issues.items()}
    loc = next((x.loc for x in issues if x.loc), None)
    c.ok(f"{tag}: dtype of operators and cotangents", w, not issues, "; ".join(sorted(set(issues.values()))) + (f" at {loc[0]}:{loc[1]}" if loc else ""))
    for t in ts:
        for i, (x, y) in enumerate(t.loops.values()):
            judge(c, f"{tag}: dtype carried by inner loop {i}", w, x, y)


SOLVERS = [("Newton", {}, False), ("Chord", {}, False), ("Newton", {"cauchy_termination": FALSE}, False), ("Bisection", {}, True), ("FixedPointIteration", {}, False), ("GoldenSearch", {}, True),
           ("NelderMead", {}, True), ("OptaxMinimiser", {}, True), ("GaussNewton", {}, False), ("LevenbergMarquardt", {}, False),
           ("IndirectLevenbergMarquardt", {}, False), ("Dogleg", {}, False), ("GradientDescent", {}, True), ("NonlinearCG", {}, True),
           ("BFGS", {"use_inverse": TRUE}, True), ("BFGS", {"use_inverse": FALSE}, True), ("DFP", {"use_inverse": TRUE}, True), ("DFP", {"use_inverse": FALSE}, True),
           ("LBFGS", {"use_inverse": TRUE}, True), ("LBFGS", {"use_inverse": FALSE}, True),
           ("BestSoFarMinimiser", {}, True), ("BestSoFarLeastSquares", {}, False), ("BestSoFarRootFinder", {}, False), ("BestSoFarFixedPoint", {}, False)]
ABSTRACT = {"BestSoFarMinimiser": "AbstractMinimiser", "BestSoFarLeastSquares": "AbstractLeastSquaresSolver",
            "BestSoFarRootFinder": "AbstractRootFinder", "BestSoFarFixedPoint": "AbstractFixedPointSolver"}


def instance(c, name, kw, scalar):
    """A solver with abstract parts and a symbolic problem for it."""
    cls = c.cls(name)
    tag = name + "".join(f"[{k}={tm.show(v, 1)}]" for k, v in kw.items())
    P = cm.problem(c, scalar=scalar)
    y, fs, opts = P["y"], P["f_struct"], {}
    if name == "OptaxMinimiser":
        s = cm.solver(c, name, optim=sym("optim", notnone=True))
    elif name in ABSTRACT:
        s = c.new(cls, c.obj("inner", c.cls(ABSTRACT[name])))
    else:
        s = cm.solver(c, name, **kw)
    for n, a in (("descent", "AbstractDescent"), ("search", "AbstractSearch")):
        if c.I.rec_get(s, n) is not None:
            s = c.I.rec_set(s, **{n: c.obj(n, c.cls(a))})
    if name in ("Bisection", "GoldenSearch"):
        y = c.scal("y")
        tm.set_meta(y, shape=())
        fs = cm.scalar_struct(c)
        opts = {"lower": c.scal("lower"), "upper": c.scal("upper")}
    return cls, tag, P, s, y, fs, cm.dict_term(c, opts), opts


@clause("C28")
def solvers(c):
    for name, kw, scalar in SOLVERS:
        cls, tag, P, s, y, fs, options, opts = instance(c, name, kw, scalar)
        w, wi = c.where(c.method(cls, "step")), c.where(c.method(cls, "init"))
        env = {y: PROBLEM, fs: PROBLEM, P["aux_struct"]: src("aux")}
        env.update({v: "weak" for v in opts.values()})
        env.update({c.scal(n): "weak" for n in ("rtol", "atol", "learning_rate", "kappa")})
        st0 = c.meth(s, "init", P["fn"], y, P["args"], options, fs, P["aux_struct"], P["tags"])
        st = c.symstate(st0)
        out = c.meth(s, "step", P["fn"], y, P["args"], options, st, P["tags"])
        t0, t1 = carried(c, tag, wi, w, st0, st, c.item(out, 1), env)
        judge(c, f"{tag}: dtype of the iterate", w, PROBLEM, t1(c.item(out, 0)), c.item(out, 0))
        judge(c, f"{tag}: dtype of aux", w, src("aux"), t1(c.item(out, 2)), c.item(out, 2))
        loops(c, tag, w, t0, t1)


@clause("C28")
def blocks(c):
    """The starting approximation over a tree of several arrays."""
    a, b = (sym(n, notnone=True, kind="array", leaf=True) for n in ("leaf_a", "leaf_b"))
    g = sym("g", notnone=True)
    for name in ("BFGS", "DFP"):
        for inv in (TRUE, FALSE):
            s = cm.solver(c, name, use_inverse=inv)
            w = c.where(c.method(c.cls(name), "init_hessian"))
            fi = c.item(c.meth(s, "init_hessian", tup(a, b), c.scal("f"), g), 0)
            t = Types(c, {a: PROBLEM, b: PROBLEM, g: PROBLEM, c.scal("f"): PROBLEM})
            judge(c, f"{name}[{'inverse' if inv is TRUE else 'direct'}]: dtype of the starting approximation", w, PROBLEM, t(c.field(fi, "hessian_inv" if inv is TRUE else "hessian")))


def info_env(c, fi):
    types = {"f": PROBLEM, "grad": PROBLEM, "hessian": PROBLEM, "hessian_inv": PROBLEM, "residual": PROBLEM, "jac": (PROBLEM, PROBLEM)}
    return {c.I.rec_get(fi, n): types[n] for n in fi.args[0].fields() if n in types}


@clause("C28")
def searches(c):
    first = c.flag("first_step")
    y, ye = c.arrs("y", "y_eval")
    for name in ("BacktrackingArmijo", "ClassicalTrustRegion", "LinearTrustRegion", "LearningRate"):
        cls = c.cls(name)
        w = c.where(c.method(cls, "step"))
        hyper = {n: c.scal(n) for n in cm.init_params(c, cls)}
        s = c.new(cls, **hyper)
        for k in KINDS:
            fi = c.finfo(k, "f_info")
            fe = c.finfo("Residual" if k == "ResidualJac" else "Eval", "f_eval")
            env = {y: PROBLEM, ye: PROBLEM, **info_env(c, fi), **info_env(c, fe), **{v: "weak" for v in hyper.values()}}
            st0 = c.meth(s, "init", y, fi)
            st = c.symstate(st0)
            out = c.meth(s, "step", first, y, ye, fi, fe, st)
            t0, t1 = carried(c, f"{name}[{k}]", w, w, st0, st, c.item(out, 3), env)
            judge(c, f"{name}[{k}]: dtype of the step size", w, "weak", t1(c.item(out, 0)), c.item(out, 0))


@clause("C28")
def descents(c):
    size = c.scal("step_size")
    y = c.arrs("y")[0]
    ls = sym("linear_solver", notnone=True)
    rf = c.obj("root_finder", c.cls("AbstractRootFinder"))
    rootfn = c.pub("root_find")
    hyper = {"linear_solver": ls, "root_finder": rf, "lambda_0": c.scal("lambda_0"), "trust_region_norm": c.norm_sym("trust_region_norm"), "norm": c.norm_sym()}
    for name, kinds in (("SteepestDescent", KINDS), ("NewtonDescent", KINDS[1:]), ("DampedNewtonDescent", ("EvalGradHessian", "ResidualJac")),
                        ("IndirectDampedNewtonDescent", ("EvalGradHessian", "ResidualJac")), ("DoglegDescent", ("EvalGradHessian", "ResidualJac")),
                        ("NonlinearCGDescent", KINDS)):
        cls = c.cls(name)
        w = c.where(c.method(cls, "step"))
        kw = {n: hyper[n] for n in cm.init_params(c, cls) if n in hyper}
        if name == "NonlinearCGDescent":
            kw["method"] = c.pub("polak_ribiere")
        with cm.opaque(c, rootfn):
            d = c.new(cls, **kw)
            for k in kinds:
                fi = c.finfo(k, "f_info")
                st0 = c.meth(d, "init", y, fi)
                st = c.symstate(st0)
                q = c.meth(d, "query", y, fi, st)
                env = {y: PROBLEM, size: "weak", hyper["lambda_0"]: "weak", **info_env(c, fi)}
                t0, t1 = carried(c, f"{name}[{k}]", w, w, st0, st, q, env)
                qs = c.symstate(q, "query")
                out = c.meth(d, "step", size, qs)
                e2 = dict(env)
                for n, x in c.field_paths(q, "query").items():
                    e2[c.field_paths(qs, "query")[n]] = t1(x)
                t2 = Types(c, e2)
                judge(c, f"{name}[{k}]: dtype of the step", w, PROBLEM, t2(c.item(out, 0)), c.item(out, 0))
                loops(c, f"{name}[{k}]", w, t0, t1, t2)



@clause("C28")
def entries(c):
    """The entry points hand the solver the user's arrays in the user's precision."""
    from . import driver
    for entry, kind, ref, wrapped in driver.ROUTES:
        t = f"[{entry}, {kind[8:]}]"
        r = driver.prepare(c, entry, kind, ref, wrapped, "RecursiveCheckpointAdjoint")
        w = c.where(c.pub(entry))
        yy, = c.arrs("yy")
        ty = Types(c, {r.y0: PROBLEM, yy: PROBLEM})
        if r.iy is not None:
            judge(c, f"dtype of the initial guess {t}", w, PROBLEM, ty(r.init[r.iy]), r.init[r.iy])
        v = c.item(c.run(r.problem, yy, sym("aa")), 0)
        judge(c, f"dtype of the function given to the solver {t}", w, PROBLEM, ty(v), v)
