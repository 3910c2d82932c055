"""BFGS, DFP and L-BFGS Hessian approximations."""
from ..kit import clause, Skip
from .. import norm, terms as tm
from ..terms import mk, const, sym, tup, NONE, TRUE, FALSE
from . import common as cm


def move(c):
    """An accepted step y -> y + s with gradients g -> g + q."""
    y, s, g, q, v = c.arrs("y", "s", "g", "q", "v")
    f1 = c.scal("f_new")
    new = c.rec(c.cls("FunctionInfo.EvalGrad"), f=f1, grad=mk("add", g, q))
    return y, s, g, q, v, f1, new


def kind(inv):
    return ("EvalGradHessianInv", "hessian_inv") if inv is TRUE else ("EvalGradHessian", "hessian")


@clause("C19", "C11")
def rank_two(c):
    for name in ("BFGS", "DFP"):
        for inv in (TRUE, FALSE):
            s_ = cm.solver(c, name, use_inverse=inv)
            cls = c.cls(name)
            wi, w = c.where(c.method(cls, "init_hessian")), c.where(c.method(cls, "update_hessian"))
            t = f"[{name},{'inverse' if inv is TRUE else 'direct'}]"
            kn, fld = kind(inv)
            y, s, g, q, v, f1, new = move(c)
            r = c.meth(s_, "init_hessian", y, c.scal("f"), g)
            fi = c.item(r, 0)
            c.ok("kind of function information " + t, wi, fi.op == "rec" and fi.args[0].name == kn, f"not a FunctionInfo.{kn}", {"C19", "C11"})
            c.eq("starting value " + t, wi, c.field(fi, "f"), c.scal("f"), {"C19", "C11"})
            c.eq("starting gradient " + t, wi, c.field(fi, "grad"), g, {"C19", "C11"})
            c.eq("starting approximation is the identity " + t, wi, mk("mv", c.field(fi, fld), v), v, {"C19"})
            blocks(c, s_, wi, t, fld, g)
            H = sym("H", notnone=True)
            fi1 = c.rec(c.cls("FunctionInfo." + kn), f=c.scal("f"), grad=g, **{fld: H})
            u = c.meth(s_, "update_hessian", y, mk("add", y, s), fi1, new, NONE)
            fi2 = c.item(u, 0)
            c.ok("kind after an update " + t, w, fi2.op == "rec" and fi2.args[0].name == kn, f"not a FunctionInfo.{kn}", {"C19", "C11"})
            c.eq("value after an update " + t, w, c.field(fi2, "f"), f1, {"C19", "C11"})
            c.eq("gradient after an update " + t, w, c.field(fi2, "grad"), mk("add", g, q), {"C19", "C11"})
            ref = f"{name.lower()}_{'inverse' if inv is TRUE else 'direct'}_mv"
            good = c.expect("above_eps", mk("dot", s, q))
            exp = c.expect(ref, c.I.getattr(H, "mv"), s, q, v)
            got = mk("mv", c.field(fi2, fld), v)
            c.eq("update formula " + t, w, cm.when(good, got), cm.when(good, exp), {"C19"})
            no = mk("not", good)
            c.eq("no update without positive curvature " + t, w, cm.when(no, got), cm.when(no, mk("mv", H, v)), {"C19"})


def blocks(c, s_, wi, t, fld, g):
    """Identity over a two-leaf tree: identity diagonal blocks, zero off-diagonal blocks."""
    a, b = (sym(n, notnone=True, kind="array", leaf=True) for n in ("leaf_a", "leaf_b"))
    r = c.meth(s_, "init_hessian", tup(a, b), c.scal("f"), g)
    op = c.field(c.item(r, 0), fld)
    tree = op.args[0] if op.op == "op_tree" else None
    if tree is None or tree.op != "tuple" or any(x.op != "tuple" for x in tree.args):
        c.add("identity blocks " + t, "undecided", wi, "block structure not resolved: " + tm.show(op, 4), {"C19"})
        return
    for i in range(2):
        for j in range(2):
            x = c.nf(tree.args[i].args[j])
            eye = x.op == "fun" and x.args[0] == "jax.numpy.eye"
            zero = norm.is_zero(x)
            c.ok(f"identity block ({i},{j}) {t}", wi, eye if i == j else zero,
                 f"block is {tm.show(x, 4)}", {"C19"})


M = 3


@clause("C20", "C11")
def lbfgs(c):
    for inv in (TRUE, FALSE):
        s_ = cm.solver(c, "LBFGS", use_inverse=inv, history_length=const(M))
        cls = c.cls("LBFGS")
        wi, w = c.where(c.method(cls, "init_hessian")), c.where(c.method(cls, "update_hessian"))
        t = "[LBFGS,inverse]" if inv is TRUE else "[LBFGS,direct]"
        kn, fld = kind(inv)
        y, s, g, q, v, f1, new = move(c)
        r = c.meth(s_, "init_hessian", y, c.scal("f"), g)
        fi, st0 = c.item(r, 0), c.item(r, 1)
        c.ok("kind of function information " + t, wi, fi.op == "rec" and fi.args[0].name == kn, f"not a FunctionInfo.{kn}", {"C20", "C11"})
        c.eq("starting value " + t, wi, c.field(fi, "f"), c.scal("f"), {"C20", "C11"})
        c.eq("starting gradient " + t, wi, c.field(fi, "grad"), g, {"C20", "C11"})
        c.eq("starting approximation is the identity " + t, wi, mk("mv", c.field(fi, fld), v), v, {"C20"})
        c.eq("history starts empty: position " + t, wi, c.field(st0, "index_start"), const(0), {"C20"})
        c.eq("history length " + t, wi, c.field(st0, "history_length"), const(M), {"C20"})
        for n in ("y_diff_history", "grad_diff_history"):
            c.eq(f"history starts empty: {n} {t}", wi, c.field(st0, n), const(0), {"C20"})
            rows = full_rows(c.field(st0, n))
            if rows is not None:
                c.ok(f"history rows: {n} {t}", wi, rows == M, f"{rows} rows allocated for a history of {M}", {"C20"})
        if inv is FALSE:
            ss0 = norm.nf(c.I, c.field(st0, "y_diff_cross_inner"))
            c.ok(f"unfilled part of the factorised matrix is positive definite {t}", wi, ss0.op != "num", "every entry is the same, so the matrix factorised before the history is full is singular", {"C20"})
        good = c.expect("above_eps", mk("dot", s, q))
        no = mk("not", good)
        H = sym("H", notnone=True)
        fi1 = c.rec(c.cls("FunctionInfo." + kn), f=c.scal("f"), grad=g, **{fld: H})
        for k in (0, 1, 2, 4):
            tk = f"{t}[after {k} updates]"
            at = k % M
            S = [c.arrs(f"s{i}")[0] for i in range(M)]
            Q = [c.arrs(f"q{i}")[0] for i in range(M)]
            stk = dict(index_start=const(k), y_diff_history=mk("stack", *S), grad_diff_history=mk("stack", *Q))
            if inv is TRUE:
                R = [c.scal(f"r{i}") for i in range(M)]
                stk["inner_history"] = mk("stack", *R)
            else:
                SQ, D, SS = c.arrs("SQ", "D", "SS")
                stk.update(y_diff_grad_diff_cross_inner=SQ, y_diff_grad_diff_inner=D, y_diff_cross_inner=SS)
            for n in stk:
                c.field(st0, n)
            st = c.I.rec_set(st0, **stk)
            u = c.meth(s_, "update_hessian", y, mk("add", y, s), fi1, new, st)
            fi2, st1 = c.item(u, 0), c.item(u, 1)
            put = lambda rows, x: mk("stack", *[x if i == at else r for i, r in enumerate(rows)])
            exp = dict(index_start=const(k + 1), y_diff_history=put(S, s), grad_diff_history=put(Q, q))
            if inv is TRUE:
                rho = c.expect("reciprocal", mk("dot", s, q))
                exp["inner_history"] = put(R, rho)
            else:
                rd = c.expect("row_dots", mk("stack", *Q), s)
                SQ1 = c.expect("set_column", c.expect("set_row", SQ, const(at), rd), const(at), const(0))
                D1 = c.expect("set_row", D, const(at), mk("dot", s, q))
                sd = c.expect("row_dots", put(S, s), s)
                SS1 = c.expect("set_column", c.expect("set_row", SS, const(at), sd), const(at), sd)
                exp.update(y_diff_grad_diff_cross_inner=SQ1, y_diff_grad_diff_inner=D1, y_diff_cross_inner=SS1)
            for n, x in exp.items():
                c.eq(f"{n} {tk}", w, cm.when(good, c.field(st1, n)), cm.when(good, x), {"C20"})
                c.eq(f"{n} kept without positive curvature {tk}", w, cm.when(no, c.field(st1, n)), cm.when(no, stk[n]), {"C20"})
            c.eq(f"value after an update {tk}", w, c.field(fi2, "f"), f1, {"C20", "C11"})
            c.eq(f"gradient after an update {tk}", w, c.field(fi2, "grad"), mk("add", g, q), {"C20", "C11"})
            got = mk("mv", c.field(fi2, fld), v)
            c.eq(f"operator kept without positive curvature {tk}", w, cm.when(no, got), cm.when(no, mk("mv", H, v)), {"C20"})
            if inv is TRUE:
                order = [(at + 1 + i) % M for i in range(M)]
                S1, Q1, R1 = ([x if i == at else r for i, r in enumerate(rows)] for rows, x in ((S, s), (Q, q), (R, rho)))
                e = c.expect("two_loop", tup(*[tup(S1[i], Q1[i], R1[i]) for i in order]), v)
            else:
                e = c.expect("compact_mv", put(S, s), put(Q, q), SQ1, D1, SS1, s, q, const(M), v)
            c.eq(f"operator {tk}", w, cm.when(good, got), cm.when(good, e), {"C20"})


def full_rows(t):
    if t.op == "full" and t.args[1].op == "tuple" and t.args[1].args and tm.is_const(t.args[1].args[0], "int"):
        return tm.pyval(t.args[1].args[0])
    return None
