"""Obligations: building symbolic inputs, comparing value flows with references, reporting."""
import os
import traceback

from . import interp, norm, terms as tm
from .interp import Interp, AnalysisError
from .terms import T, mk, const, sym, fresh, tup, NONE, TRUE, FALSE

CLAUSES = []


def clause(*props):
    def deco(f):
        CLAUSES.append((f.__module__.rsplit(".", 1)[-1] + "." + f.__name__, set(props), f))
        return f
    return deco


class Missing(Exception):
    """A public anchor is gone."""


class Skip(Exception):
    """The construct is outside what the analysis understands."""


class Ob:
    __slots__ = ("clause", "name", "props", "status", "where", "detail", "key")

    def __init__(self, clause, name, props, status, where, detail=""):
        self.clause, self.name, self.props, self.status, self.where, self.detail = clause, name, props, status, where, detail
        self.key = f"{clause}/{name}"


# Clauses on formulas of step sizes and norms of finite vectors, where a comparison is never between NaNs.
ORDERED = {"descents.steepest", "descents.newton", "descents.damped", "descents.indirect", "descents.dogleg", "descents.nonlinear_cg", "quasi.rank_two", "quasi.lbfgs", "roots.bisection", "rejections.hyperparameters"}

# Clauses where min(a, b), which is NaN when either is, differs from choosing by the comparison a < b.
STRICT = {"minimisers.best_so_far", "search.armijo", "search.trust_region", "minimisers.nelder_mead"}


class Ctx:
    def __init__(self, root):
        self.root = root
        self.I = Interp(root)
        self.I.parse_package()
        pkg = self.I.load("optimistix")
        if pkg is None:
            raise Missing("package optimistix not found")
        self.pkg = pkg
        self.obs = []
        self.cur = None
        self.cur_props = set()
        self.refmod = None
        self.funcs = set()
        self.sites = set()

    # ------------------------------------------------------------ anchors
    def pub(self, name):
        v = self.pkg.frame.vars.get(name)
        if v is None:
            raise Missing(f"optimistix.{name}")
        return v

    def cls(self, name):
        parts = name.split(".")
        v = self.pub(parts[0])
        for p in parts[1:]:
            v = self.I.getattr(v, p)
        if v.op != "class":
            raise Missing(f"optimistix.{name} is not a class")
        return v.args[0]

    def mod(self, name):
        m = self.I.load("optimistix." + name)
        if m is None:
            return None
        return m

    def find(self, name):
        """A module-level name anywhere in the package (private helper); None when absent."""
        for m in self.I.modules.values():
            self.I.load(m.name)
            if name in m.frame.vars:
                return m.frame.vars[name]
        return None

    def method(self, cls, name):
        v, owner = cls.lookup(name)
        if v is None or v.op != "fn":
            raise Missing(f"{cls.name}.{name}")
        return v

    def where(self, v):
        while isinstance(v, T) and v.op in ("partial", "bound"):
            v = v.args[0]
        if isinstance(v, T) and v.op == "fn":
            f = v.args[0]
            return f"{f.module.relpath}:{f.node.lineno} {f.name}"
        if isinstance(v, T) and v.op == "class":
            c = v.args[0]
            return f"{c.module.relpath}:{c.node.lineno} {c.name}"
        return "?"

    # ------------------------------------------------------------ symbols
    def s(self, name, **meta):
        return sym(name, **meta)

    def scal(self, name, **meta):
        return sym(name, scalar=True, notnone=True, kind="array", **meta)

    def flag(self, name):
        return sym(name, scalar=True, bool=True, notnone=True, kind="array")

    def arrs(self, *names):
        return [sym(n, notnone=True, kind="array") for n in names]

    def fnsym(self, name, **meta):
        return sym(name, kind="fn", notnone=True, **meta)

    def norm_sym(self, name="norm", **meta):
        return sym(name, kind="norm", notnone=True, **meta)

    def mapping(self, name="options"):
        return sym(name, kind="mapping", notnone=True)

    def obj(self, name, cls):
        return sym(name, cls=cls, notnone=True)

    def rec(self, cls, **fields):
        return self.I.make_rec(cls, fields)

    def new(self, cls, *args, **kw):
        return self.run(mk("class", cls), *args, **kw)

    def finfo(self, kind, prefix):
        """FunctionInfo.<kind> with symbolic fields."""
        c = self.cls("FunctionInfo." + kind)
        d = {}
        for n in c.fields():
            nm = f"{prefix}.{n}"
            if n in ("f",):
                d[n] = self.scal(nm)
            else:
                d[n] = sym(nm, notnone=True)
        return self.rec(c, **d)

    def symstate(self, st, prefix="state"):
        """Replace the leaves of a state record by symbols named after their field path."""
        I = self.I

        def go(t, path):
            if t.op == "tuple":
                return tup(*[go(x, f"{path}.{i}") for i, x in enumerate(t.args)])
            if t.op == "rec":
                c = t.args[0]
                return mk("rec", c, t.args[1], *[
                    go(x, f"{path}.{n}") if not (c.name in ("Eval", "EvalGrad", "EvalGradHessian", "EvalGradHessianInv") and n == "f")
                    else self.scal(f"{path}.{n}") for n, x in zip(t.args[1], t.args[2:])])
            if t is NONE or t.op in ("fn", "class", "extref", "partial", "bound", "py") or (t.op == "const" and t.args[0] in ("str",)):
                return t
            s = sym(path, notnone=True)
            if t.op != "const":
                tm.set_meta(s, traced=True)
            try:
                n = I.nf(t)
            except norm.TooBig:
                n = t
            leaf = norm.leaves_of(n)
            if all(x in (TRUE, FALSE) for x in leaf) or t in (TRUE, FALSE) or (t.op == "arr" and t.args[0] in (TRUE, FALSE)):
                tm.set_meta(s, bool=True, scalar=True)
            elif t.op == "arr" and (t.args[0].op == "const"):
                tm.set_meta(s, scalar=True)
            elif t.op == "arr" and self.scalar_shape(t):
                tm.set_meta(s, scalar=True)
            elif t.op == "full" and t.args[1].op == "tuple" and not t.args[1].args:
                tm.set_meta(s, scalar=True)
            elif all(x.op == "res" for x in leaf):
                tm.set_meta(s, result=True)
            elif t.op == "const" and tm.is_num(t):
                tm.set_meta(s, scalar=True)
            c = I.cls_of(t)
            if c is not None:
                tm.set_meta(s, cls=c)
            return s

        return go(I.freeze(st), prefix)

    def scalar_shape(self, t):
        return False

    def field_paths(self, t, prefix="state"):
        """{path: leaf} of a record."""
        out = {}

        def go(x, path):
            if x.op == "rec":
                for n, y in zip(x.args[1], x.args[2:]):
                    go(y, f"{path}.{n}" if path else n)
            elif x.op == "tuple":
                for i, y in enumerate(x.args):
                    go(y, f"{path}.{i}")
            else:
                out[path] = x

        go(self.I.freeze(t), prefix)
        return out

    # ------------------------------------------------------------ evaluation
    def run(self, f, *args, **kw):
        """Value-flow graph of a call."""
        norm.reset_budget()
        I = self.I
        I.pc = TRUE
        I.log = None
        I.stack = [("<check>", None)]
        r = I.freeze(I.call(f, list(args), dict(kw)))
        self.funcs |= I.funcs_seen
        self.sites |= I.callsites
        return r

    def run_in(self, f, *args, **kw):
        """Call while another evaluation is in progress."""
        return self.I.freeze(self.I.call(f, list(args), dict(kw)))

    def meth(self, obj, name, *args, **kw):
        return self.run(self.I.getattr(obj, name), *args, **kw)

    def item(self, t, i):
        return self.I.freeze(self.I.item(t, i))

    def attr(self, t, name):
        return self.I.freeze(self.I.getattr(t, name))

    def field(self, t, name):
        """Record field by name; raises Skip when the record has no such field."""
        v = self.I.rec_get(t, name) if t.op == "rec" else None
        if v is None:
            raise Skip(f"no field {name} in {tm.show(t, 2)}")
        return v

    def ref(self, name):
        """A reference formula (flow/ref.py) as a callable term."""
        if self.refmod is None:
            import ast
            p = os.path.join(os.path.dirname(__file__), "ref.py")
            with open(p, encoding="utf-8") as fh:
                m = interp.Module("vref", p, "verif:flow/ref.py", ast.parse(fh.read()))
            self.refmod = m
            self.I.exec_module(m)
        return self.refmod.frame.vars[name]

    def expect(self, name, *args, **kw):
        seen = set(self.I.funcs_seen)
        r = self.run(self.ref(name), *args, **kw)
        self.I.funcs_seen = seen
        self.funcs = {f for f in self.funcs if not f[0].startswith("verif:")}
        return r

    def nf(self, t):
        return self.I.nf(t)

    def nb(self, t):
        return norm.nf_bool(self.I, t)

    # ------------------------------------------------------------ obligations
    def add(self, name, status, where, detail="", props=None):
        if props and not set(props) <= self.cur_props:
            raise AssertionError(f"{self.cur}: clause must declare {set(props) - self.cur_props}")
        self.obs.append(Ob(self.cur, name, set(props) if props else set(self.cur_props), status, where, detail))

    def same(self, got, exp):
        try:
            g, e = self.nf(self.I.freeze(got)), self.nf(self.I.freeze(exp))
            return norm.equal(g, e) or norm.equal_under(self.I, g, e, ordered=self.cur in ORDERED, strict=self.cur in STRICT)
        except (norm.TooBig, RecursionError):
            return False

    def eq(self, name, where, got, exp, props=None):
        try:
            g, e = self.nf(self.I.freeze(got)), self.nf(self.I.freeze(exp))
            ok = norm.equal(g, e) or norm.equal_under(self.I, g, e, ordered=self.cur in ORDERED, strict=self.cur in STRICT)
        except norm.TooBig:
            self.add(name, "undecided", where, "normal form too large", props)
            return None
        except RecursionError:
            self.add(name, "undecided", where, "recursion", props)
            return None
        if ok:
            self.add(name, "ok", where, "", props)
            return True
        why = self.foreign(g, e)
        if why:
            self.add(name, "undecided", where, "not understood: " + why, props)
            return None
        loc = None if got.op == "const" else getattr(got, "loc", None)
        d = self.diff(g, e)
        if loc and loc[0] and not str(loc[0]).startswith("verif:"):
            d = f"value built at {loc[0]}:{loc[1]} in {loc[2]}; " + d
        self.add(name, "bad", where, d, props)
        return False

    def holds(self, name, where, cond, props=None, msg=""):
        """A boolean term that must be identically true."""
        try:
            b = cond if isinstance(cond, bool) else self.nb(cond)
        except (norm.TooBig, RecursionError):
            self.add(name, "undecided", where, "too large", props)
            return None
        if b is True or b is TRUE:
            self.add(name, "ok", where, "", props)
            return True
        if b is not False:
            why = self.foreign(b, b)
            if why:
                self.add(name, "undecided", where, "not understood: " + why, props)
                return None
            msg = (msg + "; " if msg else "") + "counter-assignment: " + self.path_to(b, FALSE)
        self.add(name, "bad", where, msg, props)
        return False

    def ok(self, name, where, cond, msg="", props=None):
        self.add(name, "ok" if cond else "bad", where, "" if cond else msg, props)
        return cond

    FOREIGN = ("unknown", "raises", "opaque_bool", "fold", "comp", "unflatten", "stat", "isg")

    # library functions that move data around or contract it: the same value may be written with several of them, and the
    # normal form does not know all the ways.  One that the required value does not use leaves the obligation open.
    LAYOUT = {"tensordot", "einsum", "repeat", "concatenate", "stack", "block", "diag", "tril", "triu", "roll", "broadcast_to", "take", "moveaxis",
              "swapaxes", "vstack", "hstack", "dynamic_index_in_dim", "dynamic_slice_in_dim", "dynamic_update_index_in_dim", "cumsum", "append", "flip",
              "tile", "take_along_axis", "split", "solve_triangular", "cho_solve", "cho_factor", "cholesky", "solve", "lstsq", "qr", "sort", "argsort",
              "top_k", "unravel_index", "atleast_1d", "select_n", "switch", "fori_loop", "while_loop", "scan", "map", "squeeze", "column_stack",
              "array_split", "dot_general", "kron", "trace", "multi_dot", "norm", "nonzero", "searchsorted", "choose", "piecewise"}

    # library functions that change the value they are given and that no required value is written with: meeting one is a
    # difference, whatever else the value contains.
    ALTERS = {"nan_to_num", "round", "around", "rint", "floor", "ceil", "trunc", "fix", "tanh", "sinh", "cosh", "sin", "cos", "tan", "arctan", "arcsin",
              "arccos", "arctanh", "arcsinh", "arccosh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "logaddexp", "isclose", "allclose",
              "nansum", "nanmean", "nanprod", "nanvar", "nanstd", "var", "std", "percentile", "quantile", "nextafter", "reduce_precision", "logsumexp",
              "sigmoid", "softplus", "softmax", "log_softmax", "gelu", "silu", "swish", "cbrt", "sinc", "erf", "normal", "uniform", "bernoulli", "split",
              "PRNGKey", "permutation", "shuffle"}

    def alters(self, g, e):
        known = self.called(e)
        if any(x.op in ("reduce", "reducek") and str(x.args[0]).startswith("nan") for x in tm.walk(g)):
            return True
        return any(p.split(".")[0] in ("jax", "numpy", "math") and p.rsplit(".", 1)[-1] in self.ALTERS
                   and (p.rsplit(".", 1)[-1] not in ("split", "normal", "uniform", "shuffle", "permutation") or ".random." in p)
                   for p in self.called(g) - known)

    def called(self, t):
        return self.heads(t) | {x.args[0].args[0] for x in tm.walk(t) if x.op == "call" and x.args[0].op == "extref"}

    def heads(self, t):
        return {x.args[0] for x in tm.walk(t) if x.op == "fun" and isinstance(x.args[0], str)}

    def foreign(self, g, e):
        if g is not e and self.alters(g, e):
            return None
        seen_e = {x for x in tm.walk(e)}
        for h in sorted(self.heads(g) - self.heads(e)):
            if h.rsplit(".", 1)[-1] in self.LAYOUT:
                return h
        for x in tm.walk(g):
            if x in seen_e:
                if g is not e:
                    continue
            if x.op in self.FOREIGN:
                return tm.show(x, 2)
            if x.op == "call" and x.args[0].op == "extref":
                return x.args[0].args[0]
        return None

    def path_to(self, b, leaf):
        st = [(b, ())]
        while st:
            x, p = st.pop()
            if x is leaf:
                return " and ".join(("" if v else "not ") + tm.show(a, 6) for a, v in p) or "always"
            if x.op == "ite":
                st.append((x.args[2], p + ((x.args[0], False),)))
                st.append((x.args[1], p + ((x.args[0], True),)))
        return "?"

    def diff(self, g, e, path=()):
        if g.op in norm.STRUCT and norm.same_shape(g, e):
            names = g.args[1] if g.op == "rec" else range(len(norm.comps(g)))
            for n, x, y in zip(names, norm.comps(g), norm.comps(e)):
                if not norm.equal(x, y):
                    return f"component {n}: " + self.diff(x, y, path)
        if g.op == "ite" or e.op == "ite":
            a = min([x for x in (norm.top(g), norm.top(e)) if x is not None], key=lambda t: t.id)
            for v in (True, False):
                gg, ee = norm.cof(g, a, v), norm.cof(e, a, v)
                if not norm.equal(gg, ee):
                    return self.diff(gg, ee, path + ((a, v),))
        c = " and ".join(("" if v else "not ") + tm.show(a, 5) for a, v in path)
        return (f"when {c}: " if c else "") + f"found {tm.show(g, 7)[:600]} ; required {tm.show(e, 7)[:600]}"

    # ------------------------------------------------------------ events
    def events_since(self, n):
        return self.I.events[n:]

    def run_events(self, f, *args, **kw):
        n = len(self.I.events)
        r = self.run(f, *args, **kw)
        return r, self.I.events[n:]

    def raises(self, events):
        return [e for e in events if e.kind == "raise"]

    # ------------------------------------------------------------ driver
    def run_clauses(self, prop):
        for name, props, f in CLAUSES:
            if prop is not None and prop not in props:
                continue
            self.cur, self.cur_props = name, props
            try:
                f(self)
            except Missing as ex:
                self.add("anchor", "missing", "-", str(ex))
            except Skip as ex:
                self.add("shape", "undecided", "-", str(ex))
            except norm.TooBig:
                self.add("size", "undecided", "-", "normal form too large")
            except RecursionError:
                self.add("size", "undecided", "-", "recursion limit")
            except Exception as ex:  # analysis does not understand the code
                tb = traceback.extract_tb(ex.__traceback__)[-1]
                self.add("internal", "undecided", "-", f"{type(ex).__name__}: {ex} at {os.path.basename(tb.filename)}:{tb.lineno}")
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
