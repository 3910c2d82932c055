"""Effects: Python decisions on runtime values, mutation of the caller's objects, hidden state."""
import ast

from ..kit import clause, Ctx, Skip, CLAUSES
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from ..ext import HOST_STATIC
from . import common as cm
from .assembly import table

STATIC_SYMS = {"throw", "max_steps", "maxiter", "tags", "solver", "adjoint", "linear_solver", "fn", "fun", "norm", "nrm", "options", "f_struct", "aux_struct",
               "dtype", "f_dtype", "tol", "gtol", "search", "descent", "root_finder", "optim", "method", "printer", "rewrite", "primal", "while_loop", "f_any",
               "trust_region_norm", "stats", "LS"}
STATIC_OPS = {"isinstance", "is", "isnot", "has", "hasattr", "callable", "struct", "sds", "treedef", "is_array", "issubdtype", "result_type", "stat", "is_psd",
              "extref", "fn", "class", "const", "mod", "py", "len", "ndim", "shape", "dtype", "size", "idx", "iscomplex", "iscomplexobj", "unknown", "raises", "partial", "bound", "linsolver"}
STATIC_ATTRS = {"shape", "ndim", "dtype", "size", "weak_type", "itemsize", "nbytes", "aval", "__name__", "__class__", "sharding", "__globals__", "__closure__"}
RUNTIME_METHODS = {"init", "step", "terminate", "postprocess", "query", "mv", "as_matrix", "compute", "update", "apply"}


def runtime(c, t, hyper, memo):
    """Does the Python value of this term depend on the contents of a runtime array?"""
    if t in memo:
        return memo[t]
    memo[t] = False
    o = t.op
    if o == "sym":
        n = t.args[0]
        if tm.meta(t, "traced") is not None:
            r = bool(tm.meta(t, "traced"))
        elif n in STATIC_SYMS or n in hyper or n.startswith("given_") or tm.meta(t, "cls") is not None or tm.meta(t, "kind") in ("fn", "norm", "mapping"):
            r = False
        else:
            r = tm.meta(t, "kind") == "array" or bool(tm.meta(t, "result")) or n.startswith(("f_info.", "f_eval.")) or n in ("args", "aux", "y", "y0", "x0")
    elif o in STATIC_OPS:
        r = False
    elif o == "attr" and isinstance(t.args[-1], str) and t.args[-1] in STATIC_ATTRS:
        r = False
    elif o == "fun" and str(t.args[0]).split(".")[-1] in HOST_STATIC:
        r = False
    elif o in ("not", "truthy") and t.args[0].op in ("tuple", "dict", "rec", "leaves"):
        # whether a container is empty is known from its structure
        r = False
    elif o == "fold":
        r = any(runtime(c, x, hyper, memo) for x in t.args[:2])
    elif o == "lam":
        r = runtime(c, t.args[1], hyper, memo)
    elif o == "comp":
        r = runtime(c, t.args[0], hyper, memo)
    elif o == "call" and t.args[0].op == "extref":
        r = False
    elif o == "call":
        r = True
    elif o == "mcall":
        r = t.args[1] in RUNTIME_METHODS
    else:
        r = any(runtime(c, x, hyper, memo) for x in t.args if isinstance(x, tm.T))
    memo[t] = r
    return r


def workload(c):
    """Events of everything the other checks interpret, plus verbose runs."""
    if getattr(c, "_workload", None) is None:
        w = Ctx(c.root)
        for name, props, f in list(CLAUSES):
            if name.startswith("effects."):
                continue
            w.cur, w.cur_props = name, props
            try:
                f(w)
            except Exception as ex:
                w.add("workload", "undecided", "-", f"{name}: {type(ex).__name__}: {ex}")
        verbose_runs(w)
        constructions(w)
        c._workload = w
        c.funcs |= w.funcs
        c.sites |= w.sites
    return c._workload


VERBOSE = [("GaussNewton", True), ("LevenbergMarquardt", True), ("IndirectLevenbergMarquardt", True), ("Dogleg", True),
           ("BFGS", False), ("DFP", False), ("LBFGS", False), ("OptaxMinimiser", False)]


def stepped(c, name, ls, **kw):
    """One symbolic step of a solver."""
    from .steps import build
    P = cm.problem(c, scalar=not ls)
    if name == "OptaxMinimiser":
        s = cm.solver(c, name, optim=sym("optim", notnone=True), **kw)
    else:
        _, s, _, _ = build(c, name, **kw)
    options = cm.dict_term(c, {})
    st0 = c.meth(s, "init", P["fn"], P["y"], P["args"], options, P["f_struct"], P["aux_struct"], P["tags"])
    st = c.symstate(st0)
    out = c.meth(s, "step", P["fn"], P["y"], P["args"], options, st, P["tags"])
    term = c.meth(s, "terminate", P["fn"], P["y"], P["args"], options, st, P["tags"])
    return tup(st0, out, term)


def verbose_runs(c):
    for name, ls in VERBOSE:
        try:
            stepped(c, name, ls, verbose=TRUE)
        except (Skip, norm.TooBig):
            pass


# Hyperparameters that may be arrays (documented as ScalarLike).
ARRAYLIKE = {"decrease_factor", "slope", "step_init", "high_cutoff", "low_cutoff", "high_constant", "low_constant", "learning_rate", "lambda_0"}


def constructions(c):
    """Every public class with an array for each hyperparameter that may be one."""
    for name, (order, dflt) in table(c).items():
        args = order.split()
        if not ARRAYLIKE & set(args):
            continue
        kw = {}
        for a in args:
            if a in ARRAYLIKE:
                kw[a] = c.scal("traced_" + a)
                tm.set_meta(kw[a], traced=True)
            elif a in ("rtol", "atol"):
                kw[a] = c.s(a, scalar=True, notnone=True)
        try:
            c.new(c.cls(name), **kw)
        except (Skip, norm.TooBig):
            pass


def in_repo(loc):
    return loc is not None and not str(loc[0]).startswith("verif:")


@clause("C29")
def decisions(c):
    """Every Python-level decision met while interpreting the package."""
    w = workload(c)
    hyper = set()
    for order, dflt in table(c).values():
        hyper |= set(order.split())
    hyper -= {"solver"} | ARRAYLIKE
    memo = {}
    seen, bad = {}, {}
    for e in w.I.events:
        if e.kind not in ("branch", "concretise", "assert") or not in_repo(e.loc):
            continue
        v = e.data[2] if e.kind == "branch" else e.data
        if not isinstance(v, tm.T):
            continue
        key = (e.loc[0], e.loc[2], e.loc[1], e.kind)
        seen.setdefault(key, 0)
        seen[key] += 1
        if e.pc is FALSE:
            continue
        if v.op not in ("tuple", "dict", "rec", "leaves") and runtime(c, v, hyper, memo):
            bad.setdefault(key, v)
    what = {"branch": "decides on", "assert": "asserts", "concretise": "converts to a Python number"}
    funcs = {}
    for (f, fn, line, kind), n in seen.items():
        funcs.setdefault((f, fn), []).append((line, kind, bad.get((f, fn, line, kind))))
    for (f, fn), sites in sorted(funcs.items(), key=str):
        viol = [(l, k, v) for l, k, v in sites if v is not None]
        c.ok(f"{f} {fn}", f"{f}:{min(l for l, _, _ in sites)} {fn}", not viol,
             "; ".join(f"line {l} {what[k]} the runtime value {tm.show(v, 4)}" for l, k, v in sorted(viol, key=lambda x: x[0])))


IMPURE = ("time.", "random.", "numpy.random.", "os.environ", "os.getenv", "os.putenv", "secrets.", "uuid.", "datetime.", "builtins.open", "builtins.input",
          "builtins.globals", "builtins.vars", "jax.config.update", "warnings.filterwarnings", "warnings.simplefilter", "jax.experimental.io_callback", "atexit.")


@clause("C30")
def mutations(c):
    """No analysed function changes an object it was given, or state that outlives the call."""
    w = workload(c)
    viol = {}
    for e in w.I.events:
        if not in_repo(e.loc) or e.pc is FALSE:
            continue
        why = None
        if e.kind == "mutate":
            kind, obj, name = e.data
            why = f"changes {kind} {tm.show(obj, 3) + '.' if isinstance(obj, tm.T) and obj is not NONE else ''}{tm.show(name, 2) if isinstance(name, tm.T) else name}"
        elif e.kind == "opaque" and isinstance(e.data, tm.T):
            p = next((x.args[0] for x in tm.walk(e.data) if x.op == "extref"), "")
            head = e.data.args[0] if e.data.args and isinstance(e.data.args[0], tm.T) else None
            while head is not None and head.op in ("attr", "getitem", "call", "mcall"):
                head = head.args[0]
            p = head.args[0] if head is not None and head.op == "extref" else ""
            if head is not None and str(p + ".").startswith(IMPURE):
                why = f"calls {p}"
            elif e.data.op == "mcall" and head is not None and head.op == "extref" and f"{p}.{e.data.args[1]}".startswith(IMPURE):
                why = f"calls {p}.{e.data.args[1]}"
        if why:
            viol.setdefault((e.loc[0], e.loc[2]), {}).setdefault(e.loc[1], why)
    fns = {}
    for f in w.funcs:
        fns.setdefault((f[0], f[1].split(".")[-1] if False else f[1]), f[2])
    for k in viol:
        fns.setdefault(k, min(viol[k]))
    for (f, n), line in sorted(fns.items(), key=str):
        if str(f).startswith("verif:"):
            continue
        v = viol.get((f, n), {})
        c.ok(f"{f} {n}", f"{f}:{line} {n}", not v, "; ".join(f"line {l} {x}" for l, x in sorted(v.items())))


@clause("C30")
def declarations(c):
    """No function rebinds a module-level name, in any module of the package."""
    for m in c.I.modules.values():
        c.I.load(m.name)
        bad = []
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                bad += [(x.lineno, x.names) for x in ast.walk(n) if isinstance(x, ast.Global)]
        c.ok(m.relpath, m.relpath, not bad, "; ".join(f"line {l} global {', '.join(x)}" for l, x in bad))


@clause("C30", "C31")
def verbose_output(c):
    """Printing never changes what is computed; it happens when and only when it was asked for."""
    for name, ls in VERBOSE:
        cls = c.cls(name)
        w = c.where(c.method(cls, "step"))
        printer = c.fnsym("printer")
        tm.set_meta(printer, callable=True)
        outs = {}
        for t, v in (("off", FALSE), ("on", TRUE), ("custom", printer)):
            n = len(c.I.events)
            outs[t] = stepped(c, name, ls, verbose=v)
            ev = c.I.events[n:]
            if t == "off":
                p = [e for e in ev if e.kind == "print" and e.pc is not FALSE]
                c.ok(f"{name} is silent unless verbose", w, not p, "prints " + "; ".join(tm.show(e.data, 3) for e in p[:2]), {"C31"})
            if t == "on":
                c.ok(f"{name} prints when verbose", w, any(e.kind in ("print", "opaque") and e.pc is not FALSE for e in ev), "nothing is printed", {"C31"})
            if t == "custom":
                hit = [e for e in ev if e.kind == "opaque" and isinstance(e.data, tm.T) and e.data.op == "call" and e.data.args[0] is printer]
                c.ok(f"{name} calls the callable it was given", w, bool(hit), "the callable is never called", {"C31"})
        for t in ("on", "custom"):
            c.eq(f"{name} computes the same with verbose {t}", w, outs[t], outs["off"], {"C30"})
