"""Normal forms of value-flow terms.

Conditions become a decision diagram whose tests are gate-free atoms; arithmetic below it is put in
polynomial form; tree/array/linear operations are simplified by their algebraic laws over the reals.
NaN is respected for comparisons: `not (a < b)` is never turned into `a >= b`.
"""
import random
from fractions import Fraction
from math import isqrt, lcm

from . import terms as tm
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, tup


class TooBig(Exception):
    pass


BUDGET = 400_000
_work = [0]
STRUCT = ("tuple", "rec", "dict")
_memo = {}
_lift_memo = {}
_supp = {}


def reset_budget():
    _work[0] = 0


def tick(n=1):
    _work[0] += n
    if _work[0] > BUDGET:
        raise TooBig()


# ------------------------------------------------------------------ decision diagrams
def top(t):
    """Smallest gate atom at the top of a value (looking through structure), or None."""
    if t.op == "ite":
        return t.args[0]
    if t.op in STRUCT:
        best = None
        for c in comps(t):
            a = top(c)
            if a is not None and (best is None or a.id < best.id):
                best = a
        return best
    return None


def comps(t):
    if t.op == "tuple":
        return t.args
    if t.op == "rec":
        return t.args[2:]
    if t.op == "dict":
        return [e[2] if e[0] == "k" else e[1] for e in t.args[0]]
    return ()


def with_comps(t, cs):
    cs = list(cs)
    if t.op == "tuple":
        return mk("tuple", *cs)
    if t.op == "rec":
        return mk("rec", t.args[0], t.args[1], *cs)
    it = iter(cs)
    return mk("dict", tuple(("k", e[1], next(it)) if e[0] == "k" else ("s", next(it)) for e in t.args[0]))


def cof(t, a, v):
    if t.op == "ite":
        if t.args[0] is a:
            return t.args[1] if v else t.args[2]
        return t
    if t.op in STRUCT:
        cs = comps(t)
        if any(top(c) is a or c.op in STRUCT for c in cs):
            return with_comps(t, [cof(c, a, v) for c in cs])
    return t


def supp(t):
    r = _supp.get(t)
    if r is None:
        if t.op == "ite":
            r = frozenset([t.args[0]]) | supp(t.args[1]) | supp(t.args[2])
        elif t.op in STRUCT:
            r = frozenset()
            for c in comps(t):
                r |= supp(c)
        else:
            r = frozenset()
        _supp[t] = r
    return r


def group(a):
    if a.op in ("lt0", "eq0", "gt0"):
        return ("cmp", a.args[0])
    if a.op == "eqc":
        return ("eq", a.args[0])
    if a.op in ("isfinite", "isnan"):
        return ("fin", a.args[0])
    return None


_restrict_memo = {}


def restrict(t, m):
    """Replace gate atoms by truth values: m maps atom -> bool."""
    if not m:
        return t
    key = (t, tuple(sorted(((a.id, v) for a, v in m.items()))))
    r = _restrict_memo.get(key)
    if r is not None:
        return r
    if t.op == "ite":
        a = t.args[0]
        if a in m:
            r = restrict(t.args[1] if m[a] else t.args[2], m)
        else:
            r = mk_ite(a, restrict(t.args[1], m), restrict(t.args[2], m))
    elif t.op in STRUCT:
        r = with_comps(t, [restrict(c, m) for c in comps(t)])
    else:
        r = t
    _restrict_memo[key] = r
    return r


def same_shape(x, y):
    if x.op != y.op or x.op not in STRUCT:
        return False
    if x.op == "tuple":
        return len(x.args) == len(y.args)
    if x.op == "rec":
        return x.args[0] is y.args[0] and x.args[1] == y.args[1]
    return len(x.args[0]) == len(y.args[0]) and all(p[0] == q[0] and (p[0] == "s" or p[1] is q[1]) for p, q in zip(x.args[0], y.args[0]))


def mk_ite(a, hi, lo):
    if hi is lo:
        return hi
    g = group(a)
    if g is not None:
        m = {b: False for b in supp(hi) if b is not a and group(b) == g}
        if m:
            hi = restrict(hi, m)
            if hi is lo:
                return hi
    if same_shape(hi, lo):
        return with_comps(hi, [mk_ite(a, x, y) for x, y in zip(comps(hi), comps(lo))])
    tick()
    th, tl = top(hi), top(lo)
    if (th is not None and th.id <= a.id) or (tl is not None and tl.id <= a.id):
        # out of order: rebuild through cofactors
        return ite3(mk("ite", a, TRUE, FALSE), hi, lo)
    return mk("ite", a, hi, lo)


def ite3(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    key = ("ite3", c, x, y)
    r = _lift_memo.get(key)
    if r is not None:
        return r
    if same_shape(x, y):
        r = with_comps(x, [ite3(c, p, q) for p, q in zip(comps(x), comps(y))])
        _lift_memo[key] = r
        return r
    if c.op != "ite":
        raise TooBig()
    ts = [t for t in (top(c), top(x), top(y)) if t is not None]
    a = min(ts, key=lambda t: t.id)
    tick()
    hi = ite3(cof(c, a, True), cof(x, a, True), cof(y, a, True))
    lo = ite3(cof(c, a, False), cof(x, a, False), cof(y, a, False))
    r = _mk_node(a, hi, lo)
    _lift_memo[key] = r
    return r


def _mk_node(a, hi, lo):
    if hi is lo:
        return hi
    g = group(a)
    if g is not None:
        m = {b: False for b in supp(hi) if b is not a and group(b) == g}
        if m:
            hi = restrict(hi, m)
            if hi is lo:
                return hi
    if same_shape(hi, lo):
        return with_comps(hi, [_mk_node(a, x, y) for x, y in zip(comps(hi), comps(lo))])
    return mk("ite", a, hi, lo)


def lift(key, f, *args):
    """Apply f to gate-free versions of args, distributing over their gates."""
    k = (key,) + args
    r = _lift_memo.get(k)
    if r is not None:
        return r
    best = None
    for x in args:
        a = top(x)
        if a is not None and (best is None or a.id < best.id):
            best = a
    tick()
    if best is None:
        r = f(*args)
    else:
        hi = lift(key, f, *[cof(x, best, True) for x in args])
        lo = lift(key, f, *[cof(x, best, False) for x in args])
        r = mk_ite(best, hi, lo)
    _lift_memo[k] = r
    return r


def atom_bool(a):
    return mk("ite", a, TRUE, FALSE)


def b_not(b):
    return ite3(b, FALSE, TRUE)


def b_and(a, b):
    return ite3(a, b, FALSE)


def b_or(a, b):
    return ite3(a, TRUE, b)


def b_implies(a, b):
    return ite3(a, b, TRUE)


# ------------------------------------------------------------------ polynomials
def num(x):
    return mk("num", Fraction(x))


ZERO, ONE = num(0), num(1)


def is_zero(t):
    return t is ZERO


def to_poly(t):
    """dict: mono -> coefficient.  mono = tuple of (atom, exponent)."""
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op != "poly":
            return m[0][0]
    items = sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return mk("poly", tuple(items))


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def mono_mul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda ae: (ae[0].id, ae[1])))


def expand_mono(m):
    """Expand poly/num atoms with positive integer exponent."""
    for i, (a, e) in enumerate(m):
        if a.op in ("poly", "num") and e > 0 and e.denominator == 1:
            rest = m[:i] + m[i + 1:]
            r = {(): Fraction(1)}
            pa = to_poly(a)
            for _ in range(int(e)):
                r = p_mul_raw(r, pa)
            return p_mul(r, {rest: Fraction(1)})
        if a.op == "num" and e.denominator == 1 and e < 0 and a.args[0] != 0:
            rest = m[:i] + m[i + 1:]
            return p_mul({(): a.args[0] ** int(e)}, {rest: Fraction(1)})
        if a.op in ("poly", "num") and e > 1 and e.denominator != 1:
            k = int(e)
            rest = m[:i] + ((a, e - k),) + m[i + 1:]
            r = {(): Fraction(1)}
            for _ in range(k):
                r = p_mul_raw(r, to_poly(a))
            return p_mul_raw(r, {rest: Fraction(1)})
    return None


def p_mul_raw(p, q):
    r = {}
    tick(len(p) * len(q) // 16 + 1)
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c != 0}


def p_mul(p, q):
    # cancel a multi-term factor against its own inverse
    for x, y in ((p, q), (q, p)):
        if len(x) > 1 and len(y) == 1:
            t, c0 = canon_factor(from_poly(x))
            (m, c), = y.items()
            for i, (a, e) in enumerate(m):
                if a is t and e <= -1:
                    rest = mono_mul(m, ((a, Fraction(1)),))
                    return {rest: c * c0}
    r = p_mul_raw(p, q)
    out = {}
    for m, c in r.items():
        ex = expand_mono(m)
        if ex is None:
            out[m] = out.get(m, 0) + c
        else:
            for mm, cc in ex.items():
                out[mm] = out.get(mm, 0) + c * cc
    return {m: c for m, c in out.items() if c != 0}


def canon_factor(t):
    """(t', c) with t = c*t', t' having leading coefficient one."""
    if t.op != "poly":
        return t, Fraction(1)
    c = t.args[0][0][1]
    if c == 1:
        return t, Fraction(1)
    return from_poly({m: k / c for m, k in t.args[0]}), c


def l_add(a, b):
    return from_poly(p_add(to_poly(a), to_poly(b)))


def l_sub(a, b):
    return from_poly(p_add(to_poly(a), to_poly(b), -1))


def l_mul(a, b):
    return from_poly(p_mul(to_poly(a), to_poly(b)))


def l_neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def l_inv(b):
    p = to_poly(b)
    if not p:
        return mk("div0")
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((a, -e) for a, e in m): 1 / c})
    t, c = canon_factor(b)
    return from_poly({((t, Fraction(-1)),): 1 / c})


def l_div(a, b):
    return l_mul(a, l_inv(b))


def l_pow(a, b):
    if b.op == "num":
        e = b.args[0]
        if e.denominator == 1 and 0 <= e <= 6:
            r = ONE
            for _ in range(int(e)):
                r = l_mul(r, a)
            return r
        if e.denominator == 1 and -6 <= e < 0:
            return l_inv(l_pow(a, num(-e)))
        if a.op == "num":
            if e.denominator == 2 and a.args[0] >= 0:
                n, d = a.args[0].numerator, a.args[0].denominator
                if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                    return l_pow(num(Fraction(isqrt(n), isqrt(d))), num(e * 2))
            return from_poly({((a, e),): Fraction(1)})
        if a.op == "poly":
            # keep the whole expression under the root, pulling out perfect-square content
            p = a.args[0]
            if len(p) == 1:
                m, c = p[0]
                if all(ex.denominator == 1 for _, ex in m):
                    return from_poly({((a, e),): Fraction(1)})
            t, c = canon_factor(a)
            if e.denominator == 2 and c > 0:
                r = l_pow(num(c), num(e))
                return l_mul(r, from_poly({((t, e),): Fraction(1)}))
            return from_poly({((a, e),): Fraction(1)})
        return from_poly({((a, e),): Fraction(1)})
    return mk("pow", a, b)


PRIME = (1 << 61) - 1


def identity_zero(t):
    """Polynomial identity test of a rational function of its atoms (Schwartz-Zippel over a prime field).

    None when a fractional power of a sum occurs (not a rational function).
    """
    seen, st, powers = set(), [t], {}
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for m in to_poly(x):
            for a, e in m:
                if a.op == "poly":
                    if e.denominator != 1:
                        return None
                    st.append(a)
                else:
                    powers[a] = lcm(powers.get(a, 1), e.denominator)
    rng = random.Random(20)
    for _ in range(4):
        val = {a: (rng.randrange(2, PRIME), d) for a, d in powers.items()}
        memo = {}

        def ev(x):
            r = memo.get(x)
            if r is None:
                r = 0
                for m, c in to_poly(x).items():
                    y = c.numerator * pow(c.denominator, -1, PRIME) % PRIME
                    for a, e in m:
                        if a.op == "poly":
                            y = y * pow(ev(a), int(e), PRIME) % PRIME
                        else:
                            b, d = val[a]
                            y = y * pow(b, int(e * d), PRIME) % PRIME
                    r = (r + y) % PRIME
                memo[x] = r
            return r

        try:
            if ev(t):
                return False
        except ValueError:
            continue
    return True


def rationalise_zero(t):
    """Is the polynomial identically zero once denominators are cleared?"""
    r = identity_zero(t)
    if r is not None:
        return r
    p = to_poly(t)
    for _ in range(6):
        if not p:
            return True
        den = {}
        for m in p:
            for a, e in m:
                if e < 0 and a.op == "poly":
                    k = -e
                    den[a] = max(den.get(a, 0), k)
        if not den:
            return not p
        for a, e in den.items():
            k = int(e) if e.denominator == 1 else int(e) + 1
            out = {}
            for m, c in p.items():
                tick(40)
                mm = mono_mul(m, ((a, Fraction(k)),))
                ex = expand_mono(mm) or {mm: Fraction(1)}
                for m2, c2 in ex.items():
                    out[m2] = out.get(m2, 0) + c * c2
            p = {m: c for m, c in out.items() if c != 0}
            # expand any remaining positive powers of polynomial atoms
            for _ in range(4):
                out = {}
                ch = False
                for m, c in p.items():
                    ex = expand_mono(m)
                    if ex is None:
                        out[m] = out.get(m, 0) + c
                    else:
                        ch = True
                        for m2, c2 in ex.items():
                            out[m2] = out.get(m2, 0) + c * c2
                p = {m: c for m, c in out.items() if c != 0}
                if not ch:
                    break
    return not p


def equal(a, b):
    """Equality of normal forms (structural, with a rational-function fallback)."""
    if a is b:
        return True
    if a.op in STRUCT and same_shape(a, b):
        return all(equal(x, y) for x, y in zip(comps(a), comps(b)))
    if a.op == "ite" or b.op == "ite":
        ts = [x for x in (top(a), top(b)) if x is not None]
        at = min(ts, key=lambda t: t.id)
        return equal(cof(a, at, True), cof(b, at, True)) and equal(cof(a, at, False), cof(b, at, False))
    if numeric(a) and numeric(b):
        d = l_sub(a, b)
        if d is ZERO:
            return True
        if d.op == "poly" and any(e < 0 and at.op == "poly" for m, _ in d.args[0] for at, e in m):
            return rationalise_zero(d)
        return False
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("const", "sym", "num", "res", "fn", "class", "extref", "clam", "bv"):
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                if not equal(x, y):
                    return False
            elif x != y:
                return False
        return True
    return False


class _Limit(Exception):
    pass


def equal_under(I, a, b, limit=4000, ordered=False, strict=False, unify=True):
    """Equality of two gated values branch by branch, each branch simplified by the tests that lead to it.

    A test x == K replaces x by K in its branch; a comparison settles |p|, min and max of the compared values.
    ordered: compared quantities are numbers, never NaN.
    strict: a comparison that is false does not settle min and max, since either value may be NaN.
    """
    left = [limit]

    def walk(x, y, path, depth):
        left[0] -= 1
        if left[0] < 0:
            raise _Limit()
        if x is y:
            return True
        if x.op in STRUCT and same_shape(x, y):
            return all(walk(p, q, path, depth) for p, q in zip(comps(x), comps(y)))
        ts = [t for t in (top(x), top(y)) if t is not None]
        if ts:
            at = min(ts, key=lambda t: t.id)
            if at in path:
                return walk(cof(x, at, path[at]), cof(y, at, path[at]), path, depth)
            g = group(at)
            done = g is not None and any(v and group(c) == g for c, v in path.items())
            return all(walk(*infinite(cof(x, at, v), cof(y, at, v), at, v, path), {**path, at: v}, depth) for v in ((False,) if done else (True, False)))
        if equal(x, y) or infeasible(path, ordered):
            return True
        if depth == 0:
            return False
        m = {}
        for c, v in path.items():
            if c.op == "eqc" and v:
                m[c.args[0]] = c.args[1]
            elif c.op == "isfinite" and not v:
                for n, i in (("gt0", "inf"), ("lt0", "-inf")):
                    if path.get(mk(n, c.args[0])):
                        m[c.args[0]] = mk("const", "float", i)
        sg = signs(path)
        for t in set(tm.walk(x)) | set(tm.walk(y)):
            if t in path:
                m[t] = num(int(path[t]))
            elif t.op == "abs":
                k = sign_of(t.args[0], sg)
                if k:
                    m[t] = t.args[0] if k > 0 else l_neg(t.args[0])
            elif t.op in ("min", "max") and len(t.args) == 2:
                k = sign_of(l_sub(*t.args), signs({c: v for c, v in path.items() if v}) if strict else sg)
                if k:
                    m[t] = t.args[0] if (k < 0) == (t.op == "min") else t.args[1]
        if not m:
            return False
        xx, yy = renorm(I, x, m), renorm(I, y, m)
        if xx is x and yy is y:
            return False
        return walk(xx, yy, path, depth - 1)

    def infinite(x, y, at, v, path):
        """The outcome of this test leaves only an infinite value for the tested quantity: put it in."""
        t = at.args[0] if at.args else None
        for n, i in (("gt0", "inf"), ("lt0", "-inf")):
            c = mk(n, t) if at.op in ("isfinite", n) else None
            if c is not None and (at.op == "isfinite" and not v and path.get(c) or at is c and v and path.get(mk("isfinite", t)) is False):
                m = {t: mk("const", "float", i)}
                return renorm(I, x, m), renorm(I, y, m)
        return x, y

    def presplit(x, y, n, facts):
        """|q| in one of the values only: settle the sign of q first, also inside the tests."""
        odd = {t for t in tm.walk(x) if t.op == "abs"} ^ {t for t in tm.walk(y) if t.op == "abs"}
        if not odd or n == 0:
            return walk(x, y, facts, 3)
        t = min(odd, key=lambda t: t.id)
        q, c = canon_factor(t.args[0])
        for v in (True, False):
            m = {t: l_neg(t.args[0]) if v == (c > 0) else t.args[0]}
            r = {mk("lt0", q): v}
            r[mk("gt0", q)] = False
            xs = []
            if not v:
                r = {mk("lt0", q): False}
            for z in (x, y):
                xs.append(renorm(I, restrict(z, r), m))
            if not presplit(*xs, n - 1, {**facts, mk("lt0", q): v}):
                return False
        return True

    def attempt(x, y):
        try:
            return walk(x, y, {}, 3) or presplit(x, y, 3, {})
        except (_Limit, TooBig, RecursionError):
            return False

    if attempt(a, b):
        return True
    m = same_reductions(I, a, b, ordered, strict) if unify else {}
    if not m:
        return False
    left[0] = limit
    names = {y: mk("sym", f"reduction${y.id}") for y in m.values()}
    a, b = renorm(I, a, {x: names[y] for x, y in m.items()}), renorm(I, b, names)
    # arrays that agree element by element also agree at the position found
    at = {t: t.args[0] for z in (a, b) for t in tm.walk(z) if t.op == "getitem" and t.args[1] in names.values()}
    return attempt(a, b) or bool(at) and attempt(renorm(I, a, at), renorm(I, b, at))


def same_reductions(I, a, b, ordered, strict):
    """Reductions of gated arrays found in one value only, with their equals in the other."""
    pick = lambda t: {x for x in tm.walk(t) if x.op in ("any", "reduce") and any(isinstance(y, T) and y.op == "ite" for y in x.args)}
    xs, ys = pick(a), pick(b)
    xs, ys = xs - ys, ys - xs
    m = {}
    if len(xs) * len(ys) > 36:
        return m
    for x in sorted(xs, key=lambda t: t.id):
        for y in sorted(ys, key=lambda t: t.id):
            if x.op == y.op and len(x.args) == len(y.args) and all(
                    p is q or p == q or isinstance(p, T) and isinstance(q, T) and equal_under(I, p, q, 20000, ordered, strict, False)
                    for p, q in zip(x.args, y.args)):
                m[x] = y
                break
    return m


def factors(p):
    return {a for m in to_poly(p) for a, _ in m}


def infeasible(path, ordered):
    """No values lead here: a quantity is neither below, at, nor above zero (NaN), yet a comparison built from it holds."""
    no = {}
    for c, v in path.items():
        if c.op in ("lt0", "gt0", "eq0") and not v:
            no.setdefault(c.args[0], set()).add(c.op)
    if any(c.op == "isfinite" and not v and path.get(mk("eq0", c.args[0])) for c, v in path.items()):
        return True
    for c, v in path.items():
        for n, s in (("gt0", 1), ("lt0", -1)):
            if c.op == "isfinite" and not v and path.get(mk(n, c.args[0])) and any(settled(e, c.args[0], s) is (not w) for e, w in path.items()):
                return True
    nan = [factors(p) for p, s in no.items() if len(s) == 3]
    if ordered and nan:
        return True
    if nan and any(v and c.op in ("lt0", "gt0", "eq0", "isfinite") and any(f <= factors(c.args[0]) for f in nan) for c, v in path.items()):
        return True
    return contradiction(path, ordered)


def settled(c, t, s):
    """Outcome of comparing k*t plus a number with zero for an infinite t of sign s, None for other tests."""
    if c.op not in ("lt0", "gt0", "eq0"):
        return None
    p, q = to_poly(c.args[0]), to_poly(t)
    m = next(iter(q), None)
    if m not in p:
        return None
    k = p[m] / q[m]
    if any(x and y for y, x in p_add(p, p_scale(q, -k)).items()):
        return None
    return {"lt0": k * s < 0, "gt0": k * s > 0, "eq0": False}[c.op]


def contradiction(path, ordered):
    """Two comparisons that cannot both come out this way, by adding a multiple of one to the other."""
    facts = []
    for c, v in path.items():
        if c.op in ("lt0", "gt0"):
            s = (1 if c.op == "gt0" else -1) * (1 if v else -1)
            facts.append((p_scale(to_poly(c.args[0]), s), v, factors(c.args[0])))
    for i, (p, v, fp) in enumerate(facts):
        for q, w, fq in facts[:i]:
            if v != w and any(a.op == "poly" for a in fp | fq) and leaf_atoms(p) == leaf_atoms(q) and identity_zero(from_poly(p_add(p, q))):
                return True
            if not (ordered or v and w or v and fq <= fp or w and fp <= fq):
                continue
            for m in set(p) & set(q):
                k = -p[m] / q[m]
                if k > 0:
                    s = sum_sign(p_add(p, p_scale(q, k)))
                    if s < 0 or s == 0 and (v or w):
                        return True
    return False


def leaf_atoms(p):
    out, st = set(), [p]
    while st:
        for m in st.pop():
            for a, _ in m:
                if a.op == "poly":
                    st.append(to_poly(a))
                else:
                    out.add(a)
    return out


def p_scale(p, k):
    return {m: c * k for m, c in p.items()}


def sum_sign(p):
    """-1 for a sum that is below zero whatever its parts are, 0 for an empty sum, 1 otherwise."""
    p = {m: c for m, c in p.items() if c}
    if not p:
        return 0
    for m, c in p.items():
        if c > 0 or not all(a.op == "eps" and not a.args for a, _ in m):
            return 1
    return -1


def signs(path):
    """Signs of compared quantities: +1/-1 where the tests settle them (zero goes with the side that is not excluded)."""
    out = {}
    for c, v in path.items():
        if c.op in ("lt0", "gt0"):
            s = -1 if c.op == "lt0" else 1
            if v:
                out[c.args[0]] = s
            else:
                out.setdefault(c.args[0], -s)
    return out


def sign_of(p, sg):
    if p in sg:
        return sg[p]
    if not numeric(p) or p.op == "num":
        return 0
    t, c = canon_factor(p)
    if t in sg:
        return sg[t] if c > 0 else -sg[t]
    return 0


def numeric(t):
    return t.op not in ("tuple", "rec", "dict", "res", "clam", "fn", "class", "extref", "ite", "set") and not (
        t.op == "const" and t.args[0] in ("str", "NoneType", "ellipsis"))


# ------------------------------------------------------------------ scalars
def is_scalar(a):
    o = a.op
    if o in ("num", "dot", "eps", "max_norm", "rms_norm", "finfo", "lt0", "gt0", "eq0", "size", "len", "idx", "rows"):
        return True
    if o == "reduce":
        return a.args[2] is NONE
    if o == "const":
        return True
    if o == "attr" and a.args[1] in ("size", "ndim"):
        return True
    if o in ("item", "getitem") and a.args[0].op == "attr" and a.args[0].args[1] == "shape":
        return True
    if tm.meta(a, "scalar"):
        return True
    if o == "call" and tm.meta(a.args[0], "kind") == "norm":
        return True
    if o in ("min", "max"):
        return all(is_scalar_val(x) for x in a.args)
    if o in ("abs", "clip", "sqrt", "exp", "log", "pow", "floor", "mod"):
        return all(is_scalar_val(x) for x in a.args if isinstance(x, T))
    if o == "poly":
        return is_scalar_val(a)
    return False


def is_scalar_val(t):
    if t.op == "poly":
        return all(is_scalar(a) for m, _ in t.args[0] for a, _ in m)
    return is_scalar(t)


def split_mono(m):
    s, v = [], []
    for a, e in m:
        (s if is_scalar(a) else v).append((a, e))
    return tuple(s), tuple(v)


def linear(f, t):
    """Extend f (on the vector part of a monomial) linearly."""
    p = to_poly(t)
    out = {}
    for m, c in p.items():
        s, v = split_mono(m)
        r = f(from_poly({v: Fraction(1)}))
        for m2, c2 in p_mul({s: c}, to_poly(r)).items():
            out[m2] = out.get(m2, 0) + c2
    return from_poly(out)


def bilinear(f, a, b):
    p, q = to_poly(a), to_poly(b)
    out = {}
    for m, c in p.items():
        s, v = split_mono(m)
        for n, d in q.items():
            s2, v2 = split_mono(n)
            r = f(from_poly({v: Fraction(1)}), from_poly({v2: Fraction(1)}))
            if r.op == "ite":
                raise TooBig()
            for m2, c2 in p_mul({mono_mul(s, s2): c * d}, to_poly(r)).items():
                out[m2] = out.get(m2, 0) + c2
    return from_poly(out)


# ------------------------------------------------------------------ linear operators
def l_transpose(t):
    def f(x):
        if x.op == "transpose":
            return x.args[0]
        if x.op == "op_id" or (is_scalar_val(x)):
            return x
        if x.op in ("op_tree", "op_mat"):
            return mk("transpose", x)
        if x.op == "matmul":
            return bilinear(l_matmul1, l_transpose(x.args[1]), l_transpose(x.args[0]))
        if x.op == "outer":
            return mk("outer", x.args[1], x.args[0])
        return mk("transpose", x)
    return linear(f, t)


def l_mv(I, op, v):
    def f(o, x):
        if o.op == "op_id":
            return x
        if o.op == "op_fn":
            r = beta(I, o.args[0], [x])
            if r is not None:
                return r
        if o.op == "transpose" and o.args[0].op == "op_jac" and x is ONE:
            return mk("jacmat", o.args[0].args[0], o.args[0].args[1])
        if o.op == "op_tree" and o.args[0].op == "outer":
            return l_mul(o.args[0].args[0], l_dot(I, o.args[0].args[1], x))
        return mk("mv", o, x)
    r = bilinear(f, op, v)
    return r


def beta(I, clam, args):
    if clam.op != "clam" or clam.args[1] != len(args):
        return None
    h = clam.args[0]
    m = {mk("bv", h, i): a for i, a in enumerate(args)}
    return renorm(I, clam.args[2], m)


def l_dot1(a, b):
    if a.op == "mv" and a.args[0].op == "transpose" and not (b.op == "mv" and b.args[0].op == "transpose"):
        a, b = b, a
    if b.op == "mv" and b.args[0].op == "transpose":
        # <a, J^T x> = <J a, x>
        return l_dot1_sorted(mk("mv", b.args[0].args[0], a), b.args[1])
    return l_dot1_sorted(a, b)


def l_dot1_sorted(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if b.id < a.id:
        a, b = b, a
    return mk("dot", a, b)


def l_dot(I, a, b):
    return bilinear(l_dot1, a, b)


def l_matmul1(a, b):
    if a.op == "as_matrix":
        pass
    return mk("matmul", a, b)


def l_abs(a):
    if numeric(a) and not (a.op == "abs"):
        a = strip_abs(a)
    if a.op == "num":
        return num(abs(a.args[0]))
    if is_const(a) and a.args[1] in ("inf", "-inf"):
        return const(float("inf"))
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1:
            return l_mul(num(abs(c)), l_abs(from_poly({m: Fraction(1)})))
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("abs", "dot_self", "max_norm", "rms_norm"):
            return a
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "dot" and m[0][0].args[0] is m[0][0].args[1]:
            return a
        return mk("abs", a)
    t, c = canon_factor(a)
    return l_mul(num(abs(c)), mk("abs", t))


def strip_abs(a):
    """|x|*w -> x*w: same elementwise magnitude."""
    for _ in range(4):
        p = to_poly(a)
        if len(p) != 1:
            return a
        (m, c), = p.items()
        if not any(at.op == "abs" and e % 2 for at, e in m):
            return a
        r = num(c)
        for at, e in m:
            if at.op == "abs":
                at = at.args[0]
            r = l_mul(r, l_pow(at, num(e)))
        a = r
    return a


def l_norm(kind, a):
    """Norms are absolute and homogeneous."""
    a = strip_abs(a)
    if a is ZERO:
        return ZERO
    t, c = canon_factor(a)
    mkn = (lambda x: mk("call", kind, (), x)) if isinstance(kind, T) else (lambda x: mk(kind, x))
    if c != 1:
        return l_mul(num(abs(c)), mkn(t))
    return mkn(a)


def l_minmax(kind, a, b):
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if is_const(x) and x.args[1] in ("inf", "-inf"):
            return x if (x.args[1] == "inf") == (kind == "max") else y
    if a.op == "num" and b.op == "num":
        return num((min if kind == "min" else max)(a.args[0], b.args[0]))
    xs = []
    for t in (a, b):
        xs += list(t.args) if t.op == kind else [t]
    xs = sorted(set(xs), key=lambda t: t.id)
    nums = [x for x in xs if x.op == "num"]
    if len(nums) > 1:
        n = num((min if kind == "min" else max)(x.args[0] for x in nums))
        xs = sorted([x for x in xs if x.op != "num"] + [n], key=lambda t: t.id)
    return mk(kind, *xs) if len(xs) > 1 else xs[0]


def l_cmp(kind, a, b):
    """a <kind> b for kind in lt, le, gt, ge, eq over gate-free numeric leaves -> decision diagram."""
    inf = const(float("inf"))
    ninf = mk("const", "float", "-inf")
    if a.op == "num" and b.op == "num":
        x, y = a.args[0], b.args[0]
        return const({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y}[kind])
    for x, y, flip in ((a, b, False), (b, a, True)):
        if x.op == "num" and y in (inf, ninf):
            big = y is inf
            less = big != flip
            return const({"lt": less, "le": less, "gt": not less, "ge": not less, "eq": False}[kind])
    for x, y, k in ((a, b, kind), (b, a, {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(kind, kind))):
        if y in (inf, ninf) and x.op != "const" and numeric(x):
            fin, toward, away = leaf_isfin("isfinite", x), *(l_cmp(n, x, num(0)) for n in (("gt", "lt") if y is inf else ("lt", "gt")))
            inner = {"lt", "le"} if y is inf else {"gt", "ge"}
            if k == "eq" or k in ("le", "ge") and k not in inner:
                return b_and(toward, b_not(fin))
            if k not in inner:
                return FALSE
            return b_or(fin, away) if k in ("lt", "gt") else b_or(b_or(fin, away), toward)
    if a is b and is_const(a):
        return const(kind in ("le", "ge", "eq"))
    for x, y, k in ((a, b, kind), (b, a, {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(kind, kind))):
        if x.op == "attr" and x.args[1] == "ndim" and y.op == "num" and y.args[0] in (0, 1):
            # the number of axes is zero exactly when the shape is empty
            e = l_eq(mk("attr", x.args[0], "shape"), mk("tuple"))
            if y.args[0] == 0:
                return {"lt": FALSE, "le": e, "gt": b_not(e), "ge": TRUE, "eq": e}[k]
            if k in ("lt", "ge"):
                return e if k == "lt" else b_not(e)
    d = l_sub(a, b)
    if d.op == "num":
        z = d.args[0]
        if a.op == "num" and b.op == "num" or kind == "eq" and z != 0:
            return const({"lt": z < 0, "le": z <= 0, "gt": z > 0, "ge": z >= 0, "eq": z == 0}[kind])
        # x < x + 1: true unless NaN; keep the operand visible
        if z != 0:
            return const({"lt": z < 0, "le": z <= 0, "gt": z > 0, "ge": z >= 0, "eq": False}[kind])
        return const(kind in ("le", "ge", "eq"))
    # clear a positive-looking common factor is not attempted
    t, c = canon_factor(d)
    p = t
    if d.op == "poly" and len(d.args[0]) == 1 and d.args[0][0][1] != 1:
        m, c = d.args[0][0]
        p = from_poly({m: Fraction(1)})
    flip = c < 0
    lt, gt = ("gt0", "lt0") if flip else ("lt0", "gt0")
    L, G, E = atom_bool(mk(lt, p)), atom_bool(mk(gt, p)), atom_bool(mk("eq0", p))
    if kind == "lt":
        return L
    if kind == "gt":
        return G
    if kind == "eq":
        return E
    return b_or(L if kind == "le" else G, E)


def l_eq(a, b):
    def symbolic(t):
        return t.op in ("res", "class", "extref", "fn", "set", "tuple", "rec", "treedef") or (t.op == "const" and t.args[0] in ("str", "NoneType"))
    if a is b and (symbolic(a) or a.op in ("num", "const")):
        return TRUE
    if symbolic(a) and symbolic(b) and a.op == b.op and a.op in ("res", "const", "class"):
        return FALSE
    if symbolic(a) or symbolic(b):
        if symbolic(a) and not symbolic(b):
            a, b = b, a
        if b.op in ("res", "const"):
            return atom_bool(mk("eqc", a, b))
        if b.id < a.id:
            a, b = b, a
        return atom_bool(mk("eqg", a, b))
    if a.op in ("attr", "struct", "dtype", "result_type", "treedef", "type", "len") or b.op in ("attr", "struct", "result_type", "treedef"):
        pass
    return l_cmp("eq", a, b)


# ------------------------------------------------------------------ main
BOOLOPS = {"lt", "le", "gt", "ge", "eq", "ne", "is", "isnot", "in", "notin", "not", "and", "or", "xor", "isinstance", "has",
           "callable", "hasattr", "truthy", "is_array", "issubdtype", "iscomplex", "is_psd", "isfinite", "isnan", "isinf",
           "tree_equal", "isinstcls", "pyall", "pyany"}
TRANSPARENT = {"arr", "errif", "stopgrad", "promote", "reshape", "ravel", "entered", "full"}


def nf(I, t):
    r = _memo.get(t)
    if r is None:
        r = nf_(I, t)
        _memo[t] = r
    return r


def nf_bool(I, t):
    if t is TRUE or t is FALSE:
        return t
    return as_bdd(nf(I, t))


def as_bdd(v):
    return lift("asbool", _leaf_bool, v)


def _leaf_bool(x):
    if x is TRUE or x is FALSE:
        return x
    if x.op == "num":
        return const(x.args[0] != 0)
    if x is NONE:
        return FALSE
    if x.op in ("rec", "fn", "class", "clam", "extref", "partial"):
        return TRUE
    if x.op in ("tuple", "set"):
        return const(len(x.args) > 0)
    if x.op == "dict" and (not x.args[0] or any(e[0] == "k" for e in x.args[0])):
        return const(len(x.args[0]) > 0)
    if x.op == "const" and x.args[0] == "str":
        return const(bool(x.args[1]))
    return atom_bool(x)


def is_bool_atom(t):
    return tm.meta(t, "bool")


def nf_(I, t):
    o, a = t.op, t.args
    N = lambda x: nf(I, x)
    if o == "const":
        if a[0] in ("int", "float") and not isinstance(a[1], str):
            return num(a[1])
        return t
    if o in ("num", "bv", "res", "class", "extref", "mod", "py", "unknown", "object", "missing", "clam", "eps", "default_dtype"):
        return t
    if o == "sym":
        return atom_bool(t) if tm.meta(t, "bool") else t
    if o in TRANSPARENT:
        return N(a[0])
    if o == "unravel":
        return N(a[1])
    if o in ("ite", "poly"):
        return t
    if o == "tuple":
        return mk("tuple", *[N(x) for x in a])
    if o == "rec":
        f, _ = a[0].lookup("__call__")
        if f is not None and f.op == "fn":
            r = nf_fn(I, f, [t], method=True)
            if r is not f:
                return r
        return mk("rec", a[0], a[1], *[N(x) for x in a[2:]])
    if o == "dict":
        ents = [(e[0], e[1], N(e[2])) if e[0] == "k" else (e[0], N(e[1])) for e in a[0]]
        if all(e[0] == "k" for e in ents):
            ents.sort(key=lambda e: str(tm.show(e[1])))
        return mk("dict", tuple(ents))
    if o == "omega":
        return N(a[0])
    if o == "static":
        return lift("static", lambda x: mk("static", x), N(a[0]))
    if o == "select":
        return ite3(nf_bool(I, a[0]), N(a[1]), N(a[2]))
    if o in ("add", "sub", "mul", "div", "pow"):
        f = {"add": l_add, "sub": l_sub, "mul": l_mul, "div": l_div, "pow": l_pow}[o]
        return lift(o, lambda x, y: arith(o, f, x, y), N(a[0]), N(a[1]))
    if o == "neg":
        return lift(o, lambda x: l_neg(x), N(a[0]))
    if o == "sqrt":
        return lift(o, lambda x: l_pow(x, num(Fraction(1, 2))), N(a[0]))
    if o == "square":
        return lift(o, lambda x: l_mul(x, x), N(a[0]))
    if o == "reciprocal":
        return lift(o, l_inv, N(a[0]))
    if o in ("lt", "le", "gt", "ge"):
        return lift(o, lambda x, y: l_cmp(o, x, y), N(a[0]), N(a[1]))
    if o == "eq":
        return lift(o, l_eq, N(a[0]), N(a[1]))
    if o == "ne":
        return b_not(nf_bool(I, mk("eq", *a)))
    if o == "not":
        return b_not(nf_bool(I, a[0]))
    if o == "and":
        return b_and(nf_bool(I, a[0]), nf_bool(I, a[1]))
    if o == "or":
        return b_or(nf_bool(I, a[0]), nf_bool(I, a[1]))
    if o == "xor":
        x = nf_bool(I, a[0])
        y = nf_bool(I, a[1])
        return ite3(x, b_not(y), y)
    if o == "truthy":
        return nf_bool(I, a[0])
    if o == "is":
        return lift("is", leaf_is, N(a[0]), N(a[1]))
    if o == "abs":
        return lift(o, l_abs, N(a[0]))
    if o in ("min2", "max2"):
        k = o[:3]
        return lift(o, lambda x, y: l_minmax(k, x, y), N(a[0]), N(a[1]))
    if o == "clip":
        return lift(o, l_clip, N(a[0]), N(a[1]), N(a[2]))
    if o in ("max_norm", "rms_norm"):
        return lift(o, lambda x: l_norm(o, x), N(a[0]))
    if o == "dot":
        return lift(o, lambda x, y: tree_dot(I, x, y), N(a[0]), N(a[1]))
    if o == "mv":
        return lift(o, lambda x, y: l_mv_any(I, x, y), N(a[0]), N(a[1]))
    if o == "transpose":
        return lift(o, l_transpose, N(a[0]))
    if o in ("outer", "matmul"):
        return lift(o, lambda x, y: bilinear(lambda p, q: mk(o, p, q), x, y), N(a[0]), N(a[1]))
    if o == "op_tagged":
        return N(a[0])
    if o == "op_jac":
        return lift(o, lambda f, x: mk("op_jac", f, x), N(a[0]), N(a[1]))
    if o == "op_id":
        return mk("op_id")
    if o == "op_fn":
        return lift(o, lambda f: eta_op(f), N(a[0]))
    if o == "op_tree":
        return lift(o, op_tree, N(a[0]))
    if o == "op_mat":
        return lift(o, lambda x: linear(lambda v: mk("op_mat", v), x), N(a[0]))
    if o == "as_matrix":
        return lift(o, lambda x: linear(lambda v: v.args[0] if v.op == "op_mat" else mk("as_matrix", v), x), N(a[0]))
    if o == "jacmat":
        return lift(o, lambda f, x: mk("jacmat", f, x), N(a[0]), N(a[1]))
    if o == "jvpfn":
        return lift(o, lambda f, x: mk("jvpfn", f, x), N(a[0]), N(a[1]))
    if o == "linsolve":
        rest = [(n, v) for n, v in zip(a[3], a[4:]) if n != "throw"]
        names = tuple(n for n, _ in rest)
        return lift("linsolve" + repr(names), lambda *xs: mk_linsolve(xs[0], xs[1], xs[2], names, *xs[3:]),
                    N(a[0]), N(a[1]), N(a[2]), *[N(v) for _, v in rest])
    if o == "item":
        return lift("item", leaf_item, N(a[0]), N(a[1]))
    if o == "attr":
        n = a[1]
        if a[0].op == "finfo":
            return mk("eps") if n == "eps" else mk("finfo", n)
        x = a[0]
        while x.op in ("arr", "errif", "stopgrad") and n in ("shape", "size", "ndim", "value", "result"):
            x = x.args[0]
        v = lift("attr." + n, lambda y: leaf_attr(I, y, n), N(x))
        if tm.meta(t, "bool"):
            return as_bdd(v)
        return v
    if o == "finfo":
        return mk("finfo_")
    if o == "lam":
        return nf_lam(I, t)
    if o == "reduce":
        kind = a[1 - 1]
        if kind in ("any", "all"):
            b = nf_bool(I, a[1])
            return quantify(kind, b, N(a[2]))
        if kind in ("argmin", "argmax") and truth_values(N(a[1])):
            b = nf_bool(I, a[1])
            return mk("reduce", "argmax", b if kind == "argmax" else b_not(b), *[N(x) for x in a[2:]])
        return lift("reduce" + kind + str(len(a)), lambda x, *ax: l_reduce(I, kind, x, *ax), N(a[1]), *[N(x) for x in a[2:]])
    if o in ("isfinite", "isnan", "isinf"):
        return lift(o, lambda x: leaf_isfin(o, x), N(a[0]))
    if o in ("conj", "real"):  # real-valued problems
        return N(a[0])
    if o == "conj_":
        return lift(o, lambda x: linear(lambda v: v if is_scalar_val(v) and v.op in ("num", "dot") else (v.args[0] if v.op == "conj" and o == "conj" else mk(o, v)), x), N(a[0]))
    if o == "getitem":
        return lift(o, lambda x, i: l_getitem(x, i), N(a[0]), N(a[1]))
    if o == "at_set" and len(a) == 3 and a[1] is tm.ELLIPSIS:
        return N(a[2])
    if o == "at_set" and len(a) == 3:
        return lift(o, leaf_at_set, N(a[0]), N(a[1]), N(a[2]))
    if o == "expand_dims":
        return lift(o, lambda x, i: linear(lambda v: v if is_scalar_val(v) else mk("expand_dims", v, i), x), N(a[0]), N(a[1]))
    if o == "fn":
        return nf_fn(I, t)
    if o == "partial":
        return nf_partial(I, t)
    if o == "cconv":
        return N(a[0])
    if o == "bound":
        if a[0].op == "fn" and a[1].op == "rec":
            r = nf_fn(I, a[0], [a[1]], method=True)
            if r is not a[0]:
                return r
        return lift("bound", lambda f, s: mk("bound", f, s), a[0], N(a[1]))
    if o == "fun":
        path = a[0]
        args = [N(x) for x in a[2:]]
        if path == "jax.numpy.tensordot" and len(args) >= 3 and args[2] is ZERO:
            return lift("outer", lambda x, y: bilinear(lambda p, q: mk("outer", p, q), x, y), args[0], args[1])
        if path == "jax.numpy.tensordot" and len(args) == 3 and contracts_first(args[2]):
            path, args = "jax.numpy.einsum", [EIN1, args[0], args[1]]
        if path == "jax.numpy.einsum" and len(args) == 3:
            args[0] = ein_spec(args[0])
            return lift(path + str(args[0].id), lambda x, y: bilinear(lambda p, q: mk("fun", path, (), args[0], p, q), x, y), args[1], args[2])
        if path == "jax.numpy.diag":
            return lift("diag", lambda x: linear(lambda v: mk("fun", path, (), v), x), args[0]) if len(args) == 1 else generic(I, t)
        return generic(I, t)
    if o == "range":
        return generic(I, t)
    if o in BOOLOPS:
        v = generic(I, t)
        return as_bdd(v)
    if o == "call" and tm.meta(a[0], "returns") == "bool":
        return as_bdd(generic(I, t))
    v = generic(I, t)
    if tm.meta(t, "bool"):
        return as_bdd(v)
    return v


EIN1 = tm.const("a,a...->...")


def contracts_first(ax):
    """axes=1, or ((0,), (0,)): last axis of a vector with the first axis of an array."""
    if ax is num(1):
        return True
    one = lambda v: v is ZERO or (v.op == "tuple" and len(v.args) == 1 and v.args[0] is ZERO)
    return ax.op == "tuple" and len(ax.args) == 2 and all(one(v) for v in ax.args)


def ein_spec(t):
    """The letters of an einsum specification are bound names."""
    if not tm.is_str(t):
        return t
    out, names = "", {}
    for ch in tm.pyval(t).replace(" ", ""):
        out += names.setdefault(ch, chr(97 + len(names))) if ch.isalpha() else ch
    return tm.const(out)


def arith(o, f, x, y):
    if x.op in ("tuple",) and y.op == "tuple" and o == "add":
        return mk("tuple", *(x.args + y.args))
    inf = ("inf", "-inf", "nan")
    return f(x, y)


def tree_dot(I, x, y):
    if x.op == "tuple" and y.op == "tuple" and len(x.args) == len(y.args):
        r = ZERO
        for p, q in zip(x.args, y.args):
            r = l_add(r, tree_dot(I, p, q))
        return r
    return l_dot(I, x, y)


def l_mv_any(I, op, v):
    if op.op == "op_fn" and v.op == "tuple":
        r = beta(I, op.args[0], list(v.args))
        if r is not None:
            return r
    if v.op in STRUCT:
        return mk("mv", op, v)
    return l_mv(I, op, v)


def op_tree(x):
    if x.op in STRUCT:
        return mk("op_tree", x)
    return linear(_op_tree, x)


def _op_tree(v):
    if v.op == "jacmat":
        return mk("op_jac", v.args[0], v.args[1])
    if v.op == "attr" and v.args[1] == "pytree":
        return v.args[0]
    if v.op == "fun" and v.args[0] == "jax.numpy.eye":
        return mk("op_id")
    return mk("op_tree", v)


def eta_op(f):
    if f.op == "clam" and f.args[1] == 1:
        b = f.args[2]
        bv = mk("bv", f.args[0], 0)
        p = to_poly(b) if numeric(b) else None
        if p is not None:
            out = {}
            for m, c in p.items():
                hit = [(x, e) for x, e in m if occurs(bv, x)]
                if len(hit) != 1 or hit[0][1] != 1:
                    return mk("op_fn", f)
                x = hit[0][0]
                rest = tuple((y, e) for y, e in m if y is not x)
                if x is bv:
                    o = mk("op_id")
                elif x.op == "mv" and x.args[1] is bv and not occurs(bv, x.args[0]):
                    o = x.args[0]
                else:
                    return mk("op_fn", f)
                for m2, c2 in p_mul({rest: c}, to_poly(o)).items():
                    out[m2] = out.get(m2, 0) + c2
            return from_poly(out)
    return mk("op_fn", f)


_occ = {}


def occurs(v, t):
    key = (v, t)
    r = _occ.get(key)
    if r is None:
        r = any(x is v for x in tm.walk(t))
        _occ[key] = r
    return r


def leaf_is(x, y):
    if x is y:
        return TRUE
    for p, q in ((x, y), (y, x)):
        if q is NONE:
            if p.op in ("num", "poly", "rec", "tuple", "dict", "clam", "res", "class", "fn", "dot", "mv", "extref", "partial", "bound", "static", "cls") or (
                    p.op == "const") or tm.meta(p, "notnone") or tm.meta(p, "cls"):
                return FALSE
            return atom_bool(mk("isnone", p))
        if q is TRUE or q is FALSE:
            if p.op in ("num", "poly", "rec", "tuple", "dict", "clam", "res", "class", "fn") or tm.meta(p, "kind") in ("fn", "norm"):
                return FALSE
            return atom_bool(mk("isbool", p, q))
    if x.op in ("class", "res", "fn") and y.op in ("class", "res", "fn"):
        return FALSE
    if tm.meta(x, "distinct") or tm.meta(y, "distinct"):
        return FALSE
    if y.id < x.id:
        x, y = y, x
    return atom_bool(mk("isg", x, y))


def mk_linsolve(op, b, solver, names, *rest):
    """A solve that reuses a factorisation solves with the operator that was factorised."""
    if names == ("state",) and rest[0].op in ("mcall", "call"):
        st = rest[0]
        if st.op == "mcall" and st.args[1] == "init" and st.args[0] is solver and len(st.args) > 3:
            return mk("linsolve", st.args[3], b, solver, ())
        if st.op == "call" and st.args[0].op == "attr" and st.args[0].args[1] == "init" and st.args[0].args[0] is solver and len(st.args) > 2:
            return mk("linsolve", st.args[2], b, solver, ())
    return mk("linsolve", op, b, solver, names, *rest)


def l_clip(x, lo, hi):
    return l_minmax("min", l_minmax("max", x, lo), hi)


def leaf_at_set(x, i, v):
    if x.op == "stack" and i.op == "num" and 0 <= i.args[0] < len(x.args):
        return mk("stack", *[v if k == i.args[0] else e for k, e in enumerate(x.args)])
    return mk("at_set", x, i, v)


def leaf_item(x, i):
    if i is ZERO and x.op == "item" and x.args[0].op == "fun" and x.args[0].args[0] == "jax.lax.top_k" and x.args[1].op == "num":
        kind = {0: "max", 1: "argmax"}.get(x.args[1].args[0])  # largest first, first index on ties
        if kind:
            return l_reduce(None, kind, x.args[0].args[2], NONE)
    if i.op == "num" and i.args[0].denominator == 1:
        k = int(i.args[0])
        if x.op == "tuple" and -len(x.args) <= k < len(x.args):
            return x.args[k]
        if x.op == "rec" and x.args[0].is_namedtuple():
            return x.args[2 + k]
        if x.op == "poly" or x.op == "num":
            return l_getitem(x, i)
        if x.op == "stack" and -len(x.args) <= k < len(x.args):
            return x.args[k]
        if x.op == "at_set" and len(x.args) == 3 and x.args[1].op == "num" and k >= 0 and x.args[1].args[0] >= 0:
            if x.args[1].args[0] == k:
                return x.args[2]
            return leaf_item(x.args[0], i)
    if i is ZERO and x.op == "attr" and x.args[1] == "shape" and tm.meta(x.args[0], "rows"):
        return mk("rows")
    if x.op == "dict":
        for e in reversed(x.args[0]):
            if e[0] == "k" and e[1] is i:
                return e[2]
            if e[0] == "s":
                break
    return mk("item", x, i)


def leaf_attr(I, x, n):
    if x.op == "rec":
        if n in x.args[1]:
            return x.args[2 + x.args[1].index(n)]
    if x.op == "linsolve" and n == "value":
        b = x.args[1]
        if numeric(b):
            return linear(lambda v: mk("attr", mk("linsolve", x.args[0], v, *x.args[2:]), "value"), b)
    if x.op == "linsolve" and n == "result" and numeric(x.args[1]):
        t, c = canon_factor(x.args[1])
        return mk("attr", mk("linsolve", x.args[0], t, *x.args[2:]), n)
    return mk("attr", x, n)


def truth_values(x):
    """A gated value whose cases are all true or false."""
    if x.op == "ite":
        return all(y.op == "ite" and truth_values(y) or y is TRUE or y is FALSE or y.op == "num" and y.args[0] in (0, 1) for y in x.args[1:])
    return False


def leaf_isfin(o, x):
    if is_const(x) and x.args[1] in ("inf", "-inf", "nan"):
        return const({"isfinite": False, "isnan": x.args[1] == "nan", "isinf": x.args[1] != "nan"}[o])
    if x.op == "num":
        return const(o == "isfinite")
    t, c = canon_factor(x)
    if tm.meta(t, "finite"):
        return const(o == "isfinite")
    if o == "isinf":
        return b_not(b_or(atom_bool(mk("isfinite", t)), atom_bool(mk("isnan", t))))
    return atom_bool(mk(o, t))


def quantify(kind, b, ax):
    if b is TRUE or b is FALSE:
        return b
    if kind == "all":
        return b_not(quantify("any", b_not(b), ax))
    if all(a.op in ("lt0", "gt0", "eq0", "isfinite", "isnan", "isinf") and is_scalar_val(a.args[0]) or is_scalar(a) or tm.meta(a, "bool") for a in supp(b)):
        return b
    return atom_bool(mk("any", b, ax))


def l_reduce(I, kind, x, *ax):
    if kind == "sum" and ax and ax[0] is NONE and len(ax) == 1:
        def f(v):
            p = to_poly(v)
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and sum(e for _, e in m) == 2 and all(e.denominator == 1 and e > 0 for _, e in m):
                    fs = []
                    for at, e in m:
                        fs += [at] * int(e)
                    return l_dot1(*fs)
            return mk("reduce", kind, v, *ax)
        return linear(f, x)
    if kind == "sum":
        many = len(to_poly(x)) > 1

        def g(v):
            if many and v.op == "getitem" and v.args[1] is NONE and ax == (ZERO,):
                return l_mul(mk("rows"), v.args[0])  # broadcast along the summed axis
            return mk("reduce", kind, v, *ax)
        return linear(g, x)
    if kind in ("min", "max") and x.op == "num":
        return x
    if kind in MIRROR and numeric(x):
        t, c = canon_factor(x)
        if c < 0:
            kind = MIRROR[kind]
        if kind in ("argmin", "argmax"):
            return mk("reduce", kind, t, *ax)
        return l_mul(num(c), mk("reduce", kind, t, *ax))
    return mk("reduce", kind, x, *ax)


MIRROR = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin"}


def l_getitem(x, i):
    if i is tm.ELLIPSIS:
        return x
    if x.op in STRUCT or x.op in ("const",):
        return mk("getitem", x, i)
    if i.op == "reduce" and i.args[0] in ("argmin", "argmax"):
        t, c = canon_factor(x)
        u, d = canon_factor(i.args[1])
        if t is u:
            kind = i.args[0][3:] if (c > 0) else MIRROR[i.args[0][3:]]
            k = i.args[0][3:]
            return l_mul(num(c), mk("reduce", k, t, *i.args[2:]))
    if i.op == "num":
        # integer indexing of an array
        op = "item"
    else:
        op = "getitem"
    p = to_poly(x)
    out = {}
    for m, c in p.items():
        mm = ()
        for at, e in m:
            b = at if is_scalar(at) else mk(op, at, i)
            if op == "item" and at.op in ("at_set", "stack") and e == 1:
                b = leaf_item(at, i)
                if b.op in ("poly", "num"):
                    return mk("item", x, i) if len(p) > 1 or len(m) > 1 else l_mul(num(c), b)
            mm = mono_mul(mm, ((b, e),))
        out[mm] = out.get(mm, 0) + c
    return from_poly(out)


def generic(I, t):
    """Uninterpreted application: normalise the arguments, distribute over gates."""
    if t.op == "call" and len(t.args) == 3 and not t.args[1] and tm.meta(t.args[0], "kind") == "norm":
        return lift(("norm", t.args[0]), lambda x: l_norm(t.args[0], x), nf(I, t.args[2]))
    parts, shape = [], []
    for x in t.args:
        if isinstance(x, T):
            shape.append("T")
            parts.append(nf(I, x))
        elif isinstance(x, tuple) and x and all(isinstance(y, T) for y in x):
            shape.append(("L", len(x)))
            parts += [nf(I, y) for y in x]
        else:
            shape.append(("C", x))

    def build(*xs):
        it = iter(xs)
        args = []
        for s in shape:
            if s == "T":
                args.append(next(it))
            elif s[0] == "L":
                args.append(tuple(next(it) for _ in range(s[1])))
            else:
                args.append(s[1])
        return mk(t.op, *args)

    key = ("gen", t.op, tuple(s if not (isinstance(s, tuple) and s[0] == "C") else ("C", _hk(s[1])) for s in shape))
    return lift(key, build, *parts)


def _hk(x):
    return (type(x).__name__, x)


def height(t):
    r = _heights.get(t)
    if r is None:
        r = 0
        for x in tm.walk(t):
            if x.op == "clam":
                r = max(r, x.args[0])
        _heights[t] = r
    return r


_heights = {}
_lam_memo = {}


def nf_lam(I, t):
    ps, body = t.args
    b = nf(I, body)
    # lift gates whose atom does not mention a parameter
    pset = set(ps)

    def closed(a):
        return not any(x in pset for x in tm.walk(a))

    for a in sorted(supp(b), key=lambda x: x.id):
        if closed(a):
            hi = nf_lam_body(I, ps, restrict(b, {a: True}))
            lo = nf_lam_body(I, ps, restrict(b, {a: False}))
            return mk_ite(a, hi, lo)
    return close_lam(I, ps, b)


def nf_lam_body(I, ps, b):
    pset = set(ps)
    for a in sorted(supp(b), key=lambda x: x.id):
        if not any(x in pset for x in tm.walk(a)):
            return mk_ite(a, nf_lam_body(I, ps, restrict(b, {a: True})), nf_lam_body(I, ps, restrict(b, {a: False})))
    return close_lam(I, ps, b)


def close_lam(I, ps, b):
    h = height(b) + 1
    m = {p: mk("bv", h, i) for i, p in enumerate(ps)}
    nb = renorm(I, b, m)
    return mk("clam", h, len(ps), nb)


def renorm(I, t, m, memo=None):
    """Substitute atoms inside a normal form and renormalise."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ("num", "const", "res", "class", "extref", "fn", "py", "sym", "bv", "unknown"):
        r = t
    elif not any(x in m for x in tm.walk(t)):
        r = t
    elif t.op == "ite":
        r = ite3(as_bdd(renorm(I, t.args[0], m, memo)), renorm(I, t.args[1], m, memo), renorm(I, t.args[2], m, memo))
    elif t.op == "poly":
        r = ZERO
        for mono, c in t.args[0]:
            x = num(c)
            for at, e in mono:
                x = lift("mul", l_mul, x, lift("pow", l_pow, renorm(I, at, m, memo), num(e)))
            r = lift("add", l_add, r, x)
    elif t.op in ("lt0", "gt0", "eq0"):
        k = {"lt0": "lt", "gt0": "gt", "eq0": "eq"}[t.op]
        r = lift(k, lambda x, y: l_cmp(k, x, y), renorm(I, t.args[0], m, memo), ZERO)
    elif t.op == "eqc":
        r = lift("eq", l_eq, renorm(I, t.args[0], m, memo), t.args[1])
    elif t.op == "isnone":
        r = lift("is", leaf_is, renorm(I, t.args[0], m, memo), NONE)
    elif t.op == "min" or t.op == "max":
        k = t.op
        r = renorm(I, t.args[0], m, memo)
        for x in t.args[1:]:
            r = lift(k + "2", lambda p, q: l_minmax(k, p, q), r, renorm(I, x, m, memo))
    elif t.op == "any":
        r = quantify("any", as_bdd(renorm(I, t.args[0], m, memo)), t.args[1])
    elif t.op == "clam":
        nb = renorm(I, t.args[2], m, memo)
        # closed gates introduced by the substitution move out of the binder
        r = relam(I, t.args[0], t.args[1], nb)
    else:
        new = []
        for x in t.args:
            if isinstance(x, T):
                new.append(renorm(I, x, m, memo))
            elif isinstance(x, tuple) and x and all(isinstance(y, T) for y in x):
                new.append(tuple(renorm(I, y, m, memo) for y in x))
            else:
                new.append(x)
        if t.op == "linsolve":
            r = lift("linsolve" + repr(t.args[3]), lambda *xs: mk_linsolve(xs[0], xs[1], xs[2], t.args[3], *xs[3:]), *(new[:3] + new[4:]))
        elif t.op in ("op_jac", "op_tree", "op_fn", "isfinite", "isnan", "reduce", "getitem", "item", "attr"):
            u = mk(t.op, *new) if t.op != "op_jac" else mk("op_jac", new[0], new[1], tup())
            r = nf_over(I, u)
        else:
            r = nf_over(I, mk(t.op, *new))
        if t.op == "dict":
            r = mk("dict", tuple((e[0], e[1], renorm(I, e[2], m, memo)) if e[0] == "k" else (e[0], renorm(I, e[1], m, memo)) for e in t.args[0]))
    memo[t] = r
    return r


def relam(I, h, n, body):
    bvs = [mk("bv", h, i) for i in range(n)]
    fr = [tm.fresh("r") for _ in range(n)]
    # rename the binder to fresh symbols only if the height changes
    hh = height(body)
    if hh + 1 == h:
        for a in sorted(supp(body), key=lambda x: x.id):
            if not any(occurs(b, a) for b in bvs):
                return mk_ite(a, relam(I, h, n, restrict(body, {a: True})), relam(I, h, n, restrict(body, {a: False})))
        return mk("clam", h, n, body)
    b2 = renorm(I, body, dict(zip(bvs, fr)))
    return nf_lam_body(I, tuple(fr), b2)


def nf_over(I, u):
    """Normalise a node whose arguments are already normal."""
    # normal forms are fixed points of nf for leaves, so the generic route is safe
    r = _memo.get(u)
    if r is None:
        for x in u.args:
            if isinstance(x, T) and x not in _memo:
                _memo[x] = x
        r = nf_(I, u)
        if r.op == u.op and r.args == u.args:
            r = u
    return r


_fn_depth = [0]


def nf_partial(I, t):
    """A partial application of a known function: compare by behaviour on the remaining arguments."""
    f, n, kws = t.args[:3]
    if f.op == "fn":
        r = nf_fn(I, f, list(t.args[3:3 + n]), dict(zip(kws, t.args[3 + n:])))
        if r is not f:
            return r
    return generic(I, t)


def nf_fn(I, t, given=(), kw=None, method=False):
    """A closure used as a value: compare by behaviour on symbolic arguments."""
    f = t.args[0]
    a = f.node.args
    kw = kw or {}
    names = [x.arg for x in a.posonlyargs + a.args]
    n = len(names) - len(f.defaults) - len(given) - sum(1 for k in kw if k in names)
    if (f.cls is not None and not method) or a.vararg or a.kwarg or _fn_depth[0] > 3 or n < 0:
        return t
    if any(k not in kw for k in (x.arg for x in a.kwonlyargs)) or (f.frame.parent is None and not given and not kw):
        return t
    _fn_depth[0] += 1
    pc, log, kl = I.pc, I.log, getattr(I, "keylookups", None)
    ev = len(I.events)
    try:
        I.pc, I.log, I.keylookups = TRUE, [], []
        ps = [tm.fresh("a") for _ in range(n)]
        body = I.freeze(I.call_func(f, list(given) + ps, dict(kw)))
        return nf_lam(I, mk("lam", tuple(ps), body))
    except (RecursionError,):
        return t
    finally:
        del I.events[ev:]
        if I.log:
            for cell, key, prev in reversed(I.log):
                if prev is I:
                    cell.vars.pop(key, None)
                else:
                    cell.vars[key] = prev
        I.pc, I.log, I.keylookups = pc, log, kl
        _fn_depth[0] -= 1


def atoms_of(t):
    return supp(t)


def leaves_of(t):
    """All gate-free leaves of a decision diagram."""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out
