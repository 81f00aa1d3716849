import casadi as ca
import numpy as np
import scipy.linalg

from vfw import expr as ex
from vfw.core import arr, scenario
from vfw.env import SX_sym, dm
from vfw.freeze import Frozen
from vfw.shadow import Universe
from yaocptool.modelling import SystemModel
from yaocptool.util import convert_expr_from_tau_to_time, create_constant_theta, expm, join_thetas
from yaocptool.util.util import create_polynomial_approximation

RULE = (
    "Random expressions, element boundaries, polynomial degrees, per-element parameter dictionaries and matrices through "
    "the numerical building blocks, each compared with an independent computation (plain Python, numpy interpolation, scipy)."
)
ASSUMPTIONS = ["scipy.linalg.expm as reference"]


@scenario("C07", quick=180, thorough=800)
def element_time(ctx):
    """Element time and physical time are inverse changes of variable on every element."""
    uni = Universe(ctx)
    m = SystemModel()
    x = m.create_state("x", 2)
    kt, ktau = uni.add(m.t), uni.add(m.tau)
    ks = uni.add_vec(x) + [kt, ktau]
    t_k = ctx.choice([ctx.uniform(-2, 2), 0.0, ctx.uniform(20, 200)])
    t_n = t_k + ctx.choice([ctx.uniform(0.05, 3), 1.0, 1e-4 * ctx.uniform(1, 9), ctx.uniform(3, 50)])
    tree = [ex.gen(ctx, ks) for _ in range(ctx.randint(1, 3))]
    tree.append(("+", ("*", ("c", 2.0), ("v", kt)), ("*", ("c", 3.0), ("v", ktau))))
    e = ca.vertcat(*[ex.sx(q, uni.elem) for q in tree])
    ctx.note("element", t_k, t_n, [ex.show(q, uni.name) for q in tree])
    uni.resample()
    v = dict(uni.val)
    v[kt] = t_k + ctx.uniform(-0.5, 1.5) * (t_n - t_k)
    # tau -> time
    for g in (convert_expr_from_tau_to_time(e, m.t, m.tau, t_k, t_n), m.convert_expr_from_tau_to_time(e, t_k, t_n)):
        w = dict(v)
        w[ktau] = (v[kt] - t_k) / (t_n - t_k)
        ctx.close(uni.eval([g], v)[0], [ex.num(q, w) for q in tree], "tau-to-time", "value", atol=1e-8)
        ctx.check(not ca.depends_on(g, m.tau), "tau-to-time", "element time is left")
    # time -> tau
    g = m.convert_expr_from_time_to_tau(e, t_k, t_n)
    w = dict(v)
    w[kt] = t_k + v[ktau] * (t_n - t_k)
    ctx.close(uni.eval([g], v)[0], [ex.num(q, w) for q in tree], "time-to-tau", "value", atol=1e-8)
    ctx.check(not ca.depends_on(g, m.t), "time-to-tau", "time is left")
    # there and back
    only_t = ca.vertcat(ca.sin(m.t), x[0] * m.t)
    back = m.convert_expr_from_tau_to_time(m.convert_expr_from_time_to_tau(only_t, t_k, t_n), t_k, t_n)
    ctx.close(uni.eval([back], v)[0], uni.eval([only_t], v)[0], "round-trip", "time -> tau -> time", atol=1e-8)


@scenario("C07", quick=180, thorough=800)
def polynomials(ctx):
    """A polynomial approximation interpolates its parameters at the collocation points and has the stated degree."""
    size, degree = ctx.randint(0, 4), ctx.randint(1, 9)
    zero = ctx.chance()
    tau = SX_sym("tau")
    named = ctx.chance(0.4) and size
    name = ["v%d" % i for i in range(size)] if named else "var"
    pol, par = create_polynomial_approximation(tau, size, degree, name, zero)
    nodes = list(ca.collocation_points(degree, "radau"))
    if zero and degree > 1:
        nodes = [0.0] + nodes
    n_par = len(nodes) if degree > 1 else 1
    ctx.note("polynomial", size, degree, "point at zero" if zero else "", "named" if named else "")
    ctx.eq(par.numel(), size * n_par, "polynomial-parameters", "number of parameters")
    ctx.eq(pol.numel(), size, "polynomial-parameters", "size of the polynomial")
    if size == 0:
        return
    V = ctx.rng.uniform(-2, 2, (size, n_par))
    f = ca.Function("f", [tau, par], [pol])
    pv = dm(V.ravel(order="F"))
    if degree == 1:
        for s in (0.0, 0.37, 1.0):
            ctx.close(f(s, pv), V[:, 0], "polynomial-values", "piecewise constant")
        return
    for j, s in enumerate(nodes):
        ctx.close(f(s, pv), V[:, j], "polynomial-values", "at node %d" % j, atol=1e-8)
    co = [np.polyfit(nodes, V[i], len(nodes) - 1) for i in range(size)]
    for s in ctx.rng.uniform(0, 1, 3):
        ctx.close(f(s, pv), [np.polyval(c, s) for c in co], "polynomial-values", "between the nodes", rtol=1e-6, atol=1e-6)
    if named:
        for i in range(size):
            for j in range(n_par):
                ctx.check(par[j * size + i].name().startswith("v%d" % i), "polynomial-parameters", lambda: "parameter names %s" % par)


@scenario("C07", quick=180, thorough=800)
def theta_tables(ctx):
    """Joining per-element parameters stacks them, element by element, in argument order."""
    K = ctx.choice([1, 2, 3, 4, 5, 12])
    keys = list(range(K))
    args, want = [], {k: [] for k in keys}
    for _ in range(ctx.randint(1, 4)):
        form = ctx.randint(0, 5)
        full = [a for a in args if a]
        if form == 0:
            args.append(None)
        elif form == 1:
            args.append({})
        elif form == 2:
            c, d = round(ctx.uniform(-2, 2), 3), ctx.randint(1, 3)
            th = create_constant_theta(c, d, K)
            ctx.eq(sorted(th), keys, "constant-theta", "elements")
            for k in keys:
                ctx.close(th[k], [c] * d, "constant-theta", "value of element %d" % k)
                want[k] += [c] * d
            args.append(th)
        elif form == 3:
            c, d = round(ctx.uniform(-2, 2), 3), (ctx.randint(1, 2), ctx.randint(1, 3))
            th = create_constant_theta(c, d, K)
            for k in keys:
                ctx.eq(th[k].shape, (d[0] * d[1], 1), "constant-theta", "shape of a matrix theta")
                want[k] += [c] * (d[0] * d[1])
            args.append(th)
        elif full and ctx.chance(0.3):
            # the same table (or an equal one) once more
            th = ctx.choice(full)
            th = th if ctx.chance() else {k: ca.DM(th[k]) for k in ctx.perm(keys)}
            for k in keys:
                want[k] += arr(th[k]).reshape(-1).tolist()
            args.append(th)
        else:
            n = ctx.randint(1, 5)
            th = {k: dm(ctx.rng.uniform(-2, 2, n)) for k in ctx.perm(keys)}
            for k in keys:
                want[k] += arr(th[k]).reshape(-1).tolist()
            args.append(th)
    fr = Frozen(ctx, args=args)
    got = join_thetas(*args)
    fr.verify("join_thetas")
    full = [a for a in args if a]
    ctx.note("join", K, ["None" if a is None else len(a) for a in args])
    if not full:
        ctx.eq(len(got), 0, "join-thetas", "elements of an empty join")
        return
    ctx.eq(sorted(got), keys, "join-thetas", "elements")
    for k in keys:
        ctx.close(arr(got[k]).reshape(-1), want[k], "join-thetas", "element %d" % k)
    # joined tables are new: changing one leaves the arguments alone
    got[0][0] = 99.0
    fr.verify("changing the joined table")
    bad = {k: dm([1.0]) for k in range(K + 1)}
    with ctx.raises("join-thetas", "tables for different numbers of elements", ValueError):
        join_thetas(*(args + [bad]))


@scenario("C07", quick=90, thorough=360)
def matrix_exponential(ctx):
    n = ctx.choice([1, 2, 3, 4, 5, 6, 8])
    A = ctx.rng.uniform(-1, 1, (n, n)) * ctx.choice([0.1, 1.0, 2.0, 4.0]) / (1 if n < 5 else 1.5)
    kind = ctx.randint(0, 3)
    if kind == 3:
        # fast, stable systems
        A = -ctx.choice([1.0, 5.0, 20.0]) * (A @ A.T / max(1e-3, np.linalg.norm(A) ** 2)) + 0.3 * np.triu(A, 1) / n
    elif kind == 1:
        A = np.triu(A, 1)
    elif kind == 2:
        A = A * (ctx.rng.random((n, n)) < 0.5)
    ctx.note("expm", A.tolist())
    E = scipy.linalg.expm(A)
    tol = dict(rtol=5e-3, atol=2e-3 * max(1, np.abs(E).max()))
    got = np.array(expm(dm(A).reshape((n, n))).full())
    ctx.close(got, E, "matrix-exponential", "expm", **tol)
    if kind == 3:
        return
    inv = np.array(expm(dm(-A).reshape((n, n))).full())
    ctx.close(got @ inv, np.eye(n), "matrix-exponential", "expm(A) expm(-A)", rtol=1e-2, atol=4e-3 * max(1, np.abs(E).max()) ** 2)
