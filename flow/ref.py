"""Reference formulas.  This file is read by the analyser (never imported); it is written from the
documentation and the textbook, with library primitives only - nothing from the analysed package."""
import math

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import lineax as lx
from equinox.internal import ω
from lineax.internal import default_floating_dtype, max_norm, rms_norm, sum_squares, tree_dot, two_norm


# ---------------------------------------------------------------- searches
def armijo(first_step, y, y_eval, f, f_eval, grad, slope, decrease_factor, step_init, step_size):
    predicted = tree_dot(grad, (y_eval**ω - y**ω).ω)
    accept = first_step | ((predicted <= 0) & (f_eval - f <= slope * predicted))
    step = jnp.where(accept, step_init, decrease_factor * step_size)
    return step, accept


def trust_region(first_step, actual, predicted, high_cutoff, low_cutoff, high_constant, low_constant, step_size):
    accept = first_step | (actual <= low_cutoff * predicted)
    good = (actual < high_cutoff * predicted) & (predicted < 0) & jnp.logical_not(first_step)
    factor = jnp.where(accept, jnp.where(good, high_constant, 1), low_constant)
    return factor * step_size, accept


def linear_model(grad, y_diff):
    return tree_dot(grad, y_diff)


def quadratic_model(grad, hessian, y_diff):
    return tree_dot(grad, y_diff) + tree_dot(y_diff, hessian.mv(y_diff)) / 2


def half_sum_squares(r):
    return tree_dot(r, r) / 2


def jt_r(jac, r):
    return jac.transpose().mv(r)


def gauss_newton_model(r, jac, y_diff):
    g = jac.transpose().mv(r)
    jd = jac.mv(y_diff)
    return tree_dot(g, y_diff) + tree_dot(jd, jd) / 2


# ---------------------------------------------------------------- convergence
def cauchy(rtol, atol, norm, y, y_diff, f, f_diff):
    y_scale = (atol + rtol * ω(y).call(jnp.abs)).ω
    f_scale = (atol + rtol * ω(f).call(jnp.abs)).ω
    y_converged = norm((y_diff**ω / y_scale**ω).ω) < 1
    f_converged = norm((f_diff**ω / f_scale**ω).ω) < 1
    return y_converged & f_converged


# ---------------------------------------------------------------- accept/reject solvers
def pick(pred, a, b):
    return jtu.tree_map(lambda x, y: jnp.where(pred, x, y), a, b)


def first_failure(a, b, ok):
    return jnp.where(a == ok, b, a)


def gauss_newton_eval(fn, y, args):
    f, lin, aux = jax.linearize(lambda _y: fn(_y, args), y, has_aux=True)
    return f, lx.FunctionLinearOperator(lin, jax.eval_shape(lambda: y)), aux


def objective_eval(fn, y, args):
    f, lin, aux = jax.linearize(lambda _y: fn(_y, args), y, has_aux=True)
    grad = jax.grad(lambda _y: fn(_y, args)[0])(y)
    return f, grad, aux


# ---------------------------------------------------------------- descents
def scaled(s, v):
    return (s * v**ω).ω


def normalised(norm, v):
    return (v**ω / norm(v)).ω


def newton_solve(operator, vector, linear_solver):
    return lx.linear_solve(operator, vector, linear_solver, throw=False)


def damping(step_size):
    small = jnp.finfo(step_size.dtype)
    ok = step_size > small.eps
    return jnp.where(ok, 1 / jnp.where(ok, step_size, 1), small.max)


def damped_minimise(hessian, grad, lm, linear_solver):
    operator = hessian + lm * lx.IdentityLinearOperator(hessian.in_structure())
    return lx.linear_solve(operator, grad, linear_solver, throw=False)


def damped_least_squares(jac, residual, lm, linear_solver):
    structure = jac.in_structure()

    def stacked(v):
        return jac.mv(v), jtu.tree_map(lambda vi: jnp.sqrt(lm) * vi, v)

    operator = lx.FunctionLinearOperator(stacked, structure)
    zero = jtu.tree_map(lambda x: jnp.zeros(x.shape, x.dtype), structure)
    return lx.linear_solve(operator, (residual, zero), linear_solver, throw=False)


def cauchy_minimise(grad, hessian):
    return cauchy_scaled(grad, tree_dot(grad, hessian.mv(grad)))


def cauchy_least_squares(residual, jac):
    grad = jac.transpose().mv(residual)
    jg = jac.mv(grad)
    return cauchy_scaled(grad, tree_dot(jg, jg))


def cauchy_scaled(grad, curvature):
    ok = curvature > jnp.finfo(curvature.dtype).eps
    scale = jnp.where(ok, tree_dot(grad, grad) / jnp.where(ok, curvature, 1), 0)
    return (-scale * grad**ω).ω


def dogleg_cauchy(cauchy, cauchy_norm, radius):
    ok = cauchy_norm > jnp.finfo(cauchy_norm.dtype).eps
    return jtu.tree_map(lambda v: jnp.where(ok, radius * v / jnp.where(ok, cauchy_norm, 1), jnp.zeros(v.shape, v.dtype)), cauchy)


def dogleg_point(t, cauchy, newton):
    return (cauchy**ω + (t - 1) * (newton**ω - cauchy**ω)).ω


def dogleg_quadratic(cauchy, newton, cauchy_norm, radius, form):
    d = (newton**ω - cauchy**ω).ω
    a = tree_dot(d, d)
    cd = tree_dot(cauchy, d)
    b = 2 * (cd - a)
    c = cauchy_norm**2 - 2 * cd + a - radius**2
    disc = jnp.sqrt(b**2 - 4 * a * c)
    t1 = jnp.clip((-b + disc) / (2 * a), min=1, max=2)
    t2 = jnp.clip(2 * c / (-b - disc), min=1, max=2)
    if form == "stable":
        return jnp.where(b >= 0, t2, t1)
    if form == "strict":
        return jnp.where(b > 0, t2, t1)
    if form == "first":
        return t1
    if form == "second":
        return t2
    return jnp.where(b >= 0, t1, t2)


# ---------------------------------------------------------------- nonlinear CG
def polak_ribiere(grad, grad_prev, d_prev):
    num = tree_dot(grad, (grad**ω - grad_prev**ω).ω)
    den = tree_dot(grad_prev, grad_prev)
    ok = den > jnp.finfo(den.dtype).eps
    return jnp.where(ok, jnp.clip(num / jnp.where(ok, den, 1), min=0), 0)


def fletcher_reeves(grad, grad_prev, d_prev):
    num = tree_dot(grad, grad)
    den = tree_dot(grad_prev, grad_prev)
    ok = den > jnp.finfo(den.dtype).eps
    return jnp.where(ok, num / jnp.where(ok, den, 1), 0)


def hestenes_stiefel(grad, grad_prev, d_prev):
    diff = (grad**ω - grad_prev**ω).ω
    num = tree_dot(grad, diff)
    den = tree_dot(d_prev, diff)
    ok = jnp.abs(den) > jnp.finfo(den.dtype).eps
    return jnp.where(ok, num / jnp.where(ok, den, 1), 0)


def dai_yuan(grad, grad_prev, d_prev):
    num = tree_dot(grad, grad)
    den = tree_dot(d_prev, (grad**ω - grad_prev**ω).ω)
    ok = jnp.abs(den) > jnp.finfo(den.dtype).eps
    return jnp.where(ok, num / jnp.where(ok, den, 1), 0)


def cg_direction(beta, grad, d_prev):
    d = (beta * d_prev**ω - grad**ω).ω
    ok = tree_dot(grad, d) < 0
    return jtu.tree_map(lambda a, g: jnp.where(ok, a, -g), d, grad)


def op_mv(op, v):
    return op.mv(v)


def damped_length_minus(norm, hessian, grad, linear_solver, radius):
    return lambda lam, _: norm(damped_minimise(hessian, grad, damping(1 / lam), linear_solver).value) - radius


def damped_length_minus_ls(norm, jac, residual, linear_solver, radius):
    return lambda lam, _: norm(damped_least_squares(jac, residual, damping(1 / lam), linear_solver).value) - radius


def dogleg_length_minus(norm, cauchy, newton, radius):
    return lambda t, _: norm(dogleg_point(t, cauchy, newton)) - radius


# ---------------------------------------------------------------- Newton / chord
def jacobian_at(fn, y, args):
    f, lin, aux = jax.linearize(lambda _y: fn(_y, args), y, has_aux=True)
    return lx.FunctionLinearOperator(lin, jax.eval_shape(lambda: y))


def newton_move(y, diff, lower, upper):
    new = (y**ω - diff**ω).ω
    if lower is not None:
        new = jtu.tree_map(lambda a, b: jnp.clip(a, min=b), new, lower)
    if upper is not None:
        new = jtu.tree_map(lambda a, b: jnp.clip(a, max=b), new, upper)
    return new


def scaled_size(rtol, atol, norm, y, diff):
    scale = (atol + rtol * ω(y).call(jnp.abs)).ω
    return norm((diff**ω / scale**ω).ω)


def newton_cauchy_stop(rtol, atol, norm, new_y, diff, f):
    return (scaled_size(rtol, atol, norm, new_y, diff) < 1) & (norm((f**ω / atol).ω) < 1)


def newton_rate_stop(step, size, size_prev, kappa, ok, div):
    two = step >= 2
    rate = size / size_prev
    factor = size * rate / (1 - rate)
    negligible = size < 10 ** (2 - jnp.finfo(size.dtype).precision)
    diverged = jnp.logical_not(jnp.isfinite(rate)) | (rate > 2)
    converged = (factor > 0) & (factor < kappa)
    stop = two & (negligible | diverged | converged)
    return stop, jnp.where(two & jnp.logical_not(negligible) & diverged, div, ok)


# ---------------------------------------------------------------- bisection
def bisect(fn, y, args, lower, upper, flip):
    f, aux = fn(y, args)
    go_right = flip ^ (f < 0)
    lo = jnp.where(go_right, y, lower)
    hi = jnp.where(go_right, upper, y)
    return (lo + hi) / 2, lo, hi, f, aux


def bisect_stop(rtol, atol, y, lower, upper, f):
    return (jnp.abs(upper - lower) < atol + rtol * jnp.abs(y)) & (jnp.abs(f) < atol)


def bisect_flip(fn, args, lower, upper):
    return fn(lower, args)[0] > fn(upper, args)[0]


def bisect_no_root(fn, args, lower, upper):
    return (fn(lower, args)[0] < 0) == (fn(upper, args)[0] < 0)


def bisect_expand(fn, args, lower, upper):
    f_lo, f_hi = fn(lower, args)[0], fn(upper, args)[0]
    need_positive = f_lo < 0
    up = need_positive ^ (f_hi < f_lo)

    def same_sign(carry):
        lo, hi = carry
        f, _ = fn(jnp.where(up, hi, lo), args)
        return need_positive ^ (f > 0)

    def widen(carry):
        lo, hi = carry
        width = 2 * (hi - lo)
        return jnp.where(up, hi, lo - width), jnp.where(up, hi + width, lo)

    return jax.lax.while_loop(same_sign, widen, (lower, upper))


# ---------------------------------------------------------------- fixed point
def fixed_point_move(fn, y, args, damp):
    f, aux = fn(y, args)
    return jtu.tree_map(lambda a, b: (1 - damp) * a + damp * b, f, y), aux


# ---------------------------------------------------------------- golden section
def golden_middle(lower, upper):
    phi = (1 + math.sqrt(5)) / 2
    return lower + (upper - lower) / (1 + phi)


def golden(fn, y, args, lower, middle, upper, f_middle, first):
    probe = jnp.where(first, lower + upper - middle, y)
    f, aux = fn(probe, args)
    better = f < f_middle
    left = probe < middle
    m = jnp.where(better, probe, middle)
    fm = jnp.where(better, f, f_middle)
    lo = jnp.where(better, jnp.where(left, lower, middle), jnp.where(left, probe, lower))
    hi = jnp.where(better, jnp.where(left, middle, upper), jnp.where(left, upper, probe))
    return lo + hi - m, lo, m, hi, fm, aux, probe, f


# ---------------------------------------------------------------- Optax
def gradient_step(fn, y, args):
    f, aux = fn(y, args)
    return f, aux, jax.grad(lambda _y: fn(_y, args)[0])(y)


# ---------------------------------------------------------------- Nelder-Mead
def nm_trial(fn, args, simplex, n, worst, f_worst, f_best, f_second):
    d = jtu.tree_map(lambda s, w: jnp.sum(s - w[None], axis=0) / (n - 1), simplex, worst)

    def at(k):
        return (worst**ω + k * d**ω).ω

    f_r, _ = fn(at(2), args)
    expand = f_r < f_best
    inner = f_r > f_worst
    contract = f_r > f_second
    v = pick(contract, pick(inner, at(0.5), at(1.5)), pick(expand, at(3), at(2)))
    f_v, aux = fn(v, args)
    return v, f_v, aux, expand, inner, contract


def nm_shrunk(simplex, best):
    return jtu.tree_map(lambda s, b: b[None] + (s - b[None]) / 2, simplex, best)


def nm_values(fn, args, simplex):
    f, _ = jax.vmap(lambda x: fn(x, args))(simplex)
    return f


def nm_replaced(simplex, i, v):
    return jtu.tree_map(lambda s, x: s.at[i].set(x), simplex, v)


def nm_ranks(simplex, f):
    i = jnp.argmin(f)
    j = jnp.argmax(f)
    (_, second), _ = jax.lax.top_k(f, 2)
    row = lambda k: jtu.tree_map(lambda s: s[k], simplex)
    return (jnp.min(f), row(i), i), (jnp.max(f), row(j), j), second


def nm_converged(rtol, atol, norm, simplex, f_simplex, best, f_best):
    dx = jtu.tree_map(lambda s, b: (s - b[None]) / (atol + rtol * jnp.abs(b[None])), simplex, best)
    df = (f_simplex - f_best) / (atol + rtol * jnp.abs(f_best))
    return (norm(dx) < 1) & (norm(df) < 1)


def not_finite(x):
    return jnp.logical_not(jnp.isfinite(x))


# ---------------------------------------------------------------- wrappers
def scalar_norm(x):
    return jnp.abs(x)


def with_args(fn, args):
    def closed(y, _):
        return fn(y, args)

    return closed


def keep_output(fn):
    def wrapped(y, args):
        out, aux = fn(y, args)
        return out, (out, aux)

    return wrapped


def optax_update(optim, grads, state, y, f, fn, args):
    return optim.update(grads, state, y, value=f, grad=grads, value_fn=lambda x: fn(x, args)[0])


# ---------------------------------------------------------------- quasi-Newton
def bfgs_inverse_mv(mv, s, q, v):
    sq, hq, hv = tree_dot(s, q), mv(q), mv(v)
    a = (sq + tree_dot(q, hq)) / sq**2 * tree_dot(s, v)
    return (hv**ω + a * s**ω - tree_dot(s, v) / sq * hq**ω - tree_dot(hq, v) / sq * s**ω).ω


def bfgs_direct_mv(mv, s, q, v):
    bs, bv = mv(s), mv(v)
    return (bv**ω + tree_dot(q, v) / tree_dot(s, q) * q**ω - tree_dot(bs, v) / tree_dot(s, bs) * bs**ω).ω


def dfp_inverse_mv(mv, s, q, v):
    return bfgs_direct_mv(mv, q, s, v)


def dfp_direct_mv(mv, s, q, v):
    return bfgs_inverse_mv(mv, q, s, v)


def above_eps(x):
    return x > jnp.finfo(x.dtype).eps


def two_loop(pairs, v):
    """pairs (s, q, 1/<s,q>), oldest first."""
    alphas = []
    for s, q, r in reversed(pairs):
        a = r * tree_dot(s, v)
        alphas.append(a)
        v = (v**ω - a * q**ω).ω
    s, q, r = pairs[-1]
    qq = tree_dot(q, q)
    gamma = jnp.where(qq > 0, tree_dot(s, q) / jnp.where(qq > 0, qq, 1), 1)
    v = (gamma * v**ω).ω
    for (s, q, r), a in zip(pairs, reversed(alphas)):
        b = r * tree_dot(q, v)
        v = (v**ω + (a - b) * s**ω).ω
    return v


def compact_mv(S, Q, SQ, D, SS, latest_s, latest_q, m, v):
    """Byrd, Nocedal & Schnabel (1994), algorithm 3.2, with a ring buffer of m pairs."""
    sq = tree_dot(latest_s, latest_q)
    gamma = jnp.where(sq > 0, tree_dot(latest_q, latest_q) / jnp.where(sq > 0, sq, 1), 1)
    D = jnp.where(D == 0, 1, D)
    root = jnp.sqrt(D)
    J = jnp.linalg.cholesky(gamma * SS + (SQ / jnp.expand_dims(D, axis=0)) @ SQ.T)
    rows = jax.vmap(tree_dot, in_axes=(0, None))
    rhs = jnp.concatenate((rows(Q, v), gamma * rows(S, v)), axis=0)
    low = jnp.block([[jnp.diag(root), jnp.zeros_like(SQ)], [-SQ / root[None], J]])
    p = jax.scipy.linalg.solve_triangular(low, rhs, lower=True)
    p = jax.scipy.linalg.solve_triangular(low.T.at[:m].multiply(-1), p, lower=False)
    return (gamma * v**ω - jnp.einsum("h,h...->...", p[:m], Q) - gamma * jnp.einsum("h,h...->...", p[m:], S)).ω


def row_dots(rows, v):
    return jax.vmap(tree_dot, in_axes=(0, None))(rows, v)


def set_row(m, i, v):
    return m.at[i].set(v)


def set_column(m, i, v):
    return m.at[:, i].set(v)


def reciprocal(x):
    return 1 / x


# ---------------------------------------------------------------- solve loop
def keep_if_finite(y, result):
    return lx.RESULTS.where(jnp.all(jnp.isfinite(y)), result, lx.RESULTS.nonfinite)


def keep_going(terminate, result):
    return jnp.invert(terminate) & (result == lx.RESULTS.successful)


def final_result(terminate, result):
    return lx.RESULTS.where((result == lx.RESULTS.successful) & jnp.invert(terminate), lx.RESULTS.nonlinear_max_steps_reached, result)


def statistics(num_steps, max_steps, stats):
    return {"num_steps": num_steps, "max_steps": max_steps, **stats}


def as_given(fn, norm, y, args):
    return fn(y, args)


def scalar_loss(fn, norm, y, args):
    r, aux = fn(y, args)
    return 0.5 * sum_squares(r), aux


def value_and_aux(fn, norm, y, args):
    f, aux = fn(y, args)
    return f, (f, aux)


def norm_of_value(fn, norm, y, args):
    f, aux = fn(y, args)
    return norm(f), (f, aux)


def displacement(fn, norm, y, args):
    f, aux = fn(y, args)
    return (f**ω - y**ω).ω, aux


def displacement_and_aux(fn, norm, y, args):
    f, aux = fn(y, args)
    d = (f**ω - y**ω).ω
    return d, (d, aux)


def norm_of_displacement(fn, norm, y, args):
    f, aux = fn(y, args)
    d = (f**ω - y**ω).ω
    return norm(d), (d, aux)


def without_aux(fn):
    return lambda y, args: (fn(y, args), None)


def inexact_dtype(x):
    dtype = jnp.result_type(x)
    return dtype if jnp.issubdtype(dtype, jnp.inexact) else default_floating_dtype()


# ------------------------------------------------------------ optimality conditions
def zero_value(fn, norm, y, args):
    return fn(y, args)[0]


def zero_displacement(fn, norm, y, args):
    return fn(y, args)[0] - y


def zero_gradient(fn, norm, y, args):
    return jax.grad(lambda z: fn(z, args)[0])(y)


def zero_residual_gradient(fn, norm, y, args):
    return jax.grad(lambda z: scalar_loss(fn, norm, z, args)[0])(y)


def zero_norm_gradient(fn, norm, y, args):
    return jax.grad(lambda z: norm(fn(z, args)[0]))(y)


def zero_displacement_norm_gradient(fn, norm, y, args):
    return jax.grad(lambda z: norm(fn(z, args)[0] - z))(y)


def implicit_tangent(rewrite, root, residual, inputs, tangents, tags, linear_solver):
    has = jtu.tree_map(lambda t: t is None, tangents, is_leaf=lambda t: t is None)
    fixed, moving = eqx.partition(inputs, has, is_leaf=lambda t: t is None)
    operator = lx.JacobianLinearOperator(lambda r, _: rewrite(r, residual, inputs), root, None, tags=tags)
    _, rhs = jax.jvp(lambda m: rewrite(root, residual, eqx.combine(m, fixed)), (moving,), (tangents,))
    return -lx.linear_solve(operator, rhs, linear_solver).value


# ------------------------------------------------------------ SciPy interface
def mapping_of(**kw):
    return kw


def list_of(*xs):
    return [*xs]


def statistics_only(num_steps, max_steps):
    return {"num_steps": num_steps, "max_steps": max_steps}


def gradient_at(fun, x, args):
    return jax.grad(lambda z: fun(z, *args))(x)


# ------------------------------------------------------------ rejected configurations
def armijo_invalid(decrease_factor, slope, step_init):
    return (decrease_factor <= 0) | (decrease_factor >= 1) | (slope <= 0) | (slope >= 1) | (step_init <= 0)


def trust_region_invalid(high_cutoff, low_cutoff, high_constant, low_constant):
    return (low_cutoff > high_cutoff) | (low_constant < 0) | (high_constant < 0)


def trust_region_invalid_strict(high_cutoff, low_cutoff, high_constant, low_constant):
    return (low_cutoff > high_cutoff) | (low_constant <= 0) | (high_constant <= 0)


def not_scalar(y, lower, upper, f_struct):
    return (jnp.shape(y) != () or jnp.shape(lower) != () or jnp.shape(upper) != ()
            or not isinstance(f_struct, jax.ShapeDtypeStruct) or f_struct.shape != ())


def not_a_loss(fn, y0, args):
    y0 = as_inexact(y0)
    out = jax.eval_shape(lambda: as_inexact(fn(y0, args)[0]))
    return not (isinstance(out, jax.ShapeDtypeStruct) and out.shape == () and jnp.issubdtype(out.dtype, jnp.floating))


def as_inexact(x):
    return jnp.asarray(x, dtype=jnp.result_type(x) if jnp.issubdtype(jnp.result_type(x), jnp.inexact) else default_floating_dtype())


def not_an_endomorphism(fn, y0, args):
    y0 = as_inexact(y0)
    out = as_inexact(fn(y0, args)[0])
    return eqx.tree_equal(jax.eval_shape(lambda: y0), jax.eval_shape(lambda: out)) is not True


def no_tags():
    return frozenset()


# ------------------------------------------------------------------ box constraints
def box_fractions(x, dx, lower, upper, offset):
    keep = 1 - offset
    towards_lower = jnp.where(dx < 0, keep * (lower - x) / dx, jnp.inf)
    towards_upper = jnp.where(dx > 0, keep * (upper - x) / dx, jnp.inf)
    return jnp.clip(towards_lower, min=0, max=1), jnp.clip(towards_upper, min=0, max=1)


def feasible_where(x, dx, lower, upper, offset):
    a, b = box_fractions(x, dx, lower, upper, offset)
    return jnp.where(a < b, a, b)


def feasible_min(x, dx, lower, upper, offset):
    a, b = box_fractions(x, dx, lower, upper, offset)
    return jnp.minimum(a, b)


def meets(x, bound, g):
    t = (x - bound) / g
    t = jnp.where(t >= 0, t, jnp.inf)
    t = jnp.where(g != 0, t, jnp.inf)
    return jnp.where(jnp.isfinite(t), jnp.minimum(t, 1.0), t)


def box_breakpoints(y, lower, upper, g):
    return jnp.minimum(meets(y, lower, g), meets(y, upper, g))


def met_within_step(breaks):
    return jnp.any((breaks > 0) & (breaks < 1))


def on_path(y, g, t, lower, upper):
    return jnp.clip(y - t * g, min=lower, max=upper)


def next_breakpoint(breaks, last):
    skip = jnp.where(jnp.isfinite(breaks), ~(breaks > last), jnp.ones_like(breaks, dtype=bool))
    return breaks[jnp.argmin(skip)]


def cauchy_trial(y, g, lower, upper, mv, breaks, last, base):
    t = next_breakpoint(breaks, last)
    d = on_path(y, g, t, lower, upper) - y
    slope = tree_dot(g, d) + tree_dot(base, mv(d))
    best = -slope / tree_dot(d, mv(d))
    uphill = slope > 0
    beyond = best > t
    chosen = jnp.where(beyond, t, jnp.where(uphill, last, best))
    found = uphill | ~beyond
    return t, on_path(y, g, chosen, lower, upper), found | ~jnp.any(breaks > t), found | ~(jnp.max(breaks) > t)
