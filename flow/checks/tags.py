"""Structure tags attached to the operators that solvers and descents build."""
from ..kit import clause, Skip
from .. import terms as tm
from ..terms import T, mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm
from .dtypes import SOLVERS, instance
from .search import KINDS

OPS = {"op_jac": 2, "op_fn": 2, "op_tree": 2, "op_tagged": 1}
LSQ = ("GaussNewton", "LevenbergMarquardt", "IndirectLevenbergMarquardt", "Dogleg")
ROOT = ("Newton", "Chord")
FINE = {"lineax.positive_semidefinite_tag", "lineax.symmetric_tag"}


def tag_atoms(op):
    n = OPS[op.op]
    if len(op.args) <= n:
        return set()
    out = set()
    for x in op.args[n:]:
        if isinstance(x, T):
            out |= {y for y in tm.walk(x) if y.op in ("sym", "extref")}
    return out


def operators(*ts):
    seen = set()
    for t in ts:
        for x in tm.walk(t, seen):
            if x.op in OPS:
                yield x


def is_value_of(lam, fn):
    """A function that returns the first output of fn at its argument."""
    if lam.op != "lam" or len(lam.args[0]) != 1:
        return False
    b = lam.args[1]
    while b.op in ("arr", "stopgrad"):
        b = b.args[0]
    return b.op == "item" and b.args[1] == const(0) and b.args[0].op == "call" and b.args[0].args[0] is fn and lam.args[0][0] in b.args[0].args[2:]


def place(op):
    return f" at {op.loc[0]}:{op.loc[1]} in {op.loc[2]}" if op.loc and op.loc[0] else ""


@clause("C32")
def solvers(c):
    hessian_on_jacobian = None
    runs = [x + (None,) for x in SOLVERS] + [x + ("bwd",) for x in SOLVERS if x[0] in LSQ]
    for name, kw, scalar, jac in runs:
        cls, tag, P, s, y, fs, options, _ = instance(c, name, kw, scalar)
        if jac:
            options = cm.dict_term(c, {"jac": const(jac)})
            tag += f"[jac={jac}]"
        w = c.where(c.method(cls, "step"))
        tags = P["tags"]
        st0 = c.meth(s, "init", P["fn"], y, P["args"], options, fs, P["aux_struct"], tags)
        out = c.meth(s, "step", P["fn"], y, P["args"], options, c.symstate(st0), tags)
        bad = []
        for x in operators(st0, out):
            at = tag_atoms(x)
            if tags in at:
                jac = x.op == "op_jac" and is_value_of(x.args[0], P["fn"]) or name in LSQ and x.op == "op_tree"
                if name in LSQ and jac:
                    hessian_on_jacobian = x
                elif not (name in ROOT and jac):
                    bad.append(f"the user's tags are attached to another operator{place(x)}")
            elif name in ROOT and x.op == "op_jac" and is_value_of(x.args[0], P["fn"]):
                bad.append(f"the user's tags are not attached to the Jacobian{place(x)}")
            names = {a.args[0] for a in at if a.op == "extref" and a.args[0].endswith("_tag")}
            if (x.op == "op_jac" or name in LSQ) and names:
                bad.append(f"{', '.join(sorted(names))} claimed for the Jacobian of the user's function{place(x)}")
            elif names - FINE:
                bad.append(f"{', '.join(sorted(names - FINE))} claimed for a quasi-Newton approximation{place(x)}")
        c.ok(f"operators of {tag} carry only tags that describe them", w, not bad, "; ".join(sorted(set(bad))))
    c.ok("least-squares solvers do not attach tags of the Hessian to the Jacobian", c.where(c.method(c.cls("GaussNewton"), "step")), hessian_on_jacobian is None,
         "least_squares documents its tags as describing the Hessian; they are given to the Jacobian operator" + (place(hessian_on_jacobian) if hessian_on_jacobian else ""))


@clause("C32")
def descents(c):
    size = c.scal("step_size")
    y = c.arrs("y")[0]
    hyper = {"linear_solver": sym("linear_solver", notnone=True), "root_finder": c.obj("root_finder", c.cls("AbstractRootFinder")), "lambda_0": c.scal("lambda_0"),
             "trust_region_norm": c.norm_sym("trust_region_norm"), "norm": c.norm_sym()}
    for name in ("NewtonDescent", "DampedNewtonDescent", "IndirectDampedNewtonDescent", "DoglegDescent"):
        cls = c.cls(name)
        w = c.where(c.method(cls, "query"))
        with cm.opaque(c, c.pub("root_find")):
            d = c.new(cls, **{n: hyper[n] for n in cm.init_params(c, cls) if n in hyper})
            for k in ("EvalGradHessian", "ResidualJac"):
                fi = c.finfo(k, "f_info")
                q = c.meth(d, "query", y, fi, c.symstate(c.meth(d, "init", y, fi)))
                out = c.meth(d, "step", size, q)
                bad = []
                psd = {}
                for x in tm.walk(tup(q, out)):
                    if x.op == "select":
                        for p in tm.walk(x.args[0]):
                            if p.op == "is_psd":
                                for z in operators(x.args[1]):
                                    psd[z] = p.args[0]
                for x in operators(q, out):
                    names = {a.args[0] for a in tag_atoms(x) if a.op == "extref"}
                    h = c.I.rec_get(fi, "hessian") if k == "EvalGradHessian" else None
                    if names and not (names <= FINE and h is not None and psd.get(x) is h):
                        bad.append(f"{', '.join(sorted(names))} claimed for an operator not known to have it{place(x)}")
                c.ok(f"operators of {name}[{k}] carry only tags that describe them", w, not bad, "; ".join(sorted(set(bad))))
