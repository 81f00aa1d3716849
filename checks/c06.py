import casadi as ca
import numpy as np

from vfw.core import arr, scenario
from vfw.env import dm
from vfw.freeze import Frozen
from yaocptool.modelling import SystemModel

RULE = (
    "Random models with a known algebraic solution / steady state: what is returned is substituted back into the model "
    "equations (as evaluated in plain Python) and compared with the known solution; linearizations are compared with "
    "finite differences and by their trajectories."
)
ASSUMPTIONS = ["the systems drawn have a unique solution near the guess"]


@scenario("C06", quick=150, thorough=600)
def algebraic_variables(ctx):
    """find_algebraic_variable returns the y that solves g(x, y, u, t, p, theta) = 0."""
    r = ctx.rng
    ny, nx, nu = ctx.randint(1, 3), ctx.randint(1, 3), ctx.randint(1, 2)
    npar, nth = ctx.randint(0, 2), ctx.randint(0, 2)
    m = SystemModel()
    for q in ctx.perm(["x", "y", "u", "p", "th"]):
        if q == "x":
            m.create_state("x", nx)
        elif q == "y":
            m.create_algebraic_variable("y", ny)
        elif q == "u":
            m.create_control("u", nu)
        elif q == "p" and npar:
            m.create_parameter("p", npar)
        elif q == "th" and nth:
            m.create_theta("th", nth)
    My = r.uniform(-0.3, 0.3, (ny, ny)) + 1.5 * np.eye(ny)
    Mx, Mu = r.uniform(-1, 1, (ny, nx)), r.uniform(-1, 1, (ny, nu))
    Mp, Mth, k = r.uniform(-1, 1, (ny, npar)), r.uniform(-1, 1, (ny, nth)), r.uniform(-1, 1, ny)
    cub = ctx.choice([0.0, 0.2])
    mt = lambda M, v: ca.mtimes(dm(M), v) if M.shape[1] else 0
    g = mt(My, m.y) + cub * m.y ** 3 + mt(Mx, m.x) + mt(Mu, m.u) + mt(Mp, m.p) + mt(Mth, m.theta) + dm(k) * m.t
    m.include_equations(ode=ca.SX.ones(nx), alg=g)
    xv, uv, pv, tv, t = r.uniform(-1, 1, nx), r.uniform(-1, 1, nu), r.uniform(-1, 1, npar), r.uniform(-1, 1, nth), ctx.uniform(-1, 2)
    kw = dict(x=dm(xv), u=dm(uv))
    if ctx.chance(0.7):
        kw["t"] = t
    else:
        t = 0.0
    if npar:
        kw["p"] = pv.tolist() if ctx.chance() else dm(pv)
    if nth:
        kw["theta_value"] = tv.tolist() if ctx.chance() else dm(tv)
    if ctx.chance():
        kw["guess"] = [0.2] * ny
    ctx.note("algebraic", ny, nx, nu, npar, nth, "cubic", cub, sorted(kw), t)
    fr = Frozen(ctx, **kw)
    y = arr(m.find_algebraic_variable(**kw)).reshape(-1)
    fr.verify("find_algebraic_variable")
    res = My @ y + cub * y ** 3 + Mx @ xv + Mu @ uv + Mp @ pv + Mth @ tv + k * t
    ctx.close(res, np.zeros(ny), "algebraic-residual", "g at the returned y", atol=1e-6)


@scenario("C06", quick=150, thorough=600)
def equilibria(ctx):
    """find_equilibrium returns x, y, u with f = 0, g = 0 and the additional conditions, at time t_0."""
    r = ctx.rng
    nx, nu, ny = ctx.randint(1, 3), ctx.randint(0, 2), ctx.randint(0, 2)
    m = SystemModel()
    for q in ctx.perm(["x", "y", "u"]):
        if q == "x":
            m.create_state("x", nx)
        elif q == "y" and ny:
            m.create_algebraic_variable("y", ny)
        elif q == "u" and nu:
            m.create_control("u", nu)
    A = r.uniform(-0.3, 0.3, (nx, nx)) - 1.5 * np.eye(nx)
    B, E = r.uniform(-0.5, 0.5, (nx, nu)), r.uniform(-0.3, 0.3, (nx, ny))
    for i in range(min(nx, nu)):
        B[i, i] += 1
    c, d, kt = r.uniform(-1, 1, nx), r.uniform(-1, 1, nu), r.uniform(-1, 1, nx)
    G, H = r.uniform(-0.3, 0.3, (ny, nx)), r.uniform(-0.3, 0.3, (ny, nu))
    cub = ctx.choice([0.0, 0.1])
    mt = lambda M, v: ca.mtimes(dm(M), v) if M.shape[1] else 0
    ode = mt(A, m.x) + mt(B, m.u) + mt(E, m.y) + dm(c) - cub * m.x ** 3 + dm(kt) * m.t
    kw = {}
    if ny:
        kw["alg"] = m.y - mt(G, m.x) - mt(H, m.u)
    m.include_equations(ode=ode, **kw)
    # additional conditions: fix the controls (exactly n_u of them)
    add = [m.u[i] - d[i] + 0.1 * m.x[0] for i in range(nu)]
    form = ctx.randint(0, 1)
    kw2 = {}
    t0 = 0.0
    if ctx.chance(0.7):
        t0 = ctx.uniform(-1, 2)
        kw2["t_0"] = t0
    if ctx.chance():
        kw2["guess"] = [0.1] * (nx + ny + nu)
    ctx.note("equilibrium", nx, ny, nu, "cubic", cub, sorted(kw2), t0, "list" if form else "vector")
    arg = add if form else (ca.vertcat(*add) if nu else [])
    x, y, u = m.find_equilibrium(arg, **kw2)
    x, y, u = arr(x).reshape(-1), arr(y).reshape(-1), arr(u).reshape(-1)
    if not ctx.eq((x.size, y.size, u.size), (nx, ny, nu), "equilibrium-shapes", "sizes returned"):
        return
    ctx.close(A @ x + B @ u + E @ y + c - cub * x ** 3 + kt * t0, np.zeros(nx), "equilibrium-residual", "f", atol=1e-6)
    if ny:
        ctx.close(y - G @ x - H @ u, np.zeros(ny), "equilibrium-residual", "g", atol=1e-6)
    if nu:
        ctx.close(u - d + 0.1 * x[0], np.zeros(nu), "equilibrium-residual", "additional conditions", atol=1e-6)


@scenario("C06", quick=90, thorough=360)
def nearest_solution(ctx):
    """Equations with several solutions: the guess decides (a guess close to a solution gives that solution)."""
    r = ctx.rng
    n = ctx.randint(1, 3)
    lo, hi = -r.uniform(1, 3, n), r.uniform(1, 3, n)
    if ctx.chance():
        lo[ctx.randint(0, n - 1)] = 0.0
    pick = r.random(n) < 0.4
    want = np.where(pick, hi, lo)
    guess = want + (0 if ctx.chance() else r.uniform(-0.03, 0.03, n))
    if ctx.chance(0.2):
        guess = guess * (np.abs(guess) > 0.1)  # a guess with zeros in it
    form = ctx.choice([lambda g: g.tolist(), dm])
    m = SystemModel()
    what = ctx.turn(["algebraic", "equilibrium"])
    ctx.note(what, lo, hi, guess)
    if what == "algebraic":
        x, u = m.create_state("x"), m.create_control("u")
        y = m.create_algebraic_variable("y", n)
        m.include_equations(ode=[y[0] - x + u], alg=(y - dm(lo) - 0.1 * x) * (y - dm(hi) - 0.1 * x))
        xv = ctx.choice([0.0, r.uniform(-1, 1)])
        got = m.find_algebraic_variable(x=dm([xv]), u=dm([0.3]), guess=form(guess + 0.1 * xv))
        ctx.close(got, want + 0.1 * xv, "nearest", "solution next to the guess", atol=1e-5)
    else:
        x, u = m.create_state("x", n), m.create_control("u")
        y = m.create_algebraic_variable("y")
        m.include_equations(ode=(x - dm(lo)) * (x - dm(hi)) + u, alg=[y - x[0] - u])
        k = r.uniform(-1, 1)
        got = m.find_equilibrium([u + 0 * y], guess=form(np.concatenate([guess, [guess[0]], [0.0]])))
        ctx.close(got[0], want, "nearest", "equilibrium next to the guess", atol=1e-5)
        ctx.close(got[1], want[:1], "nearest", "y of the equilibrium", atol=1e-5)


@scenario("C06", quick=90, thorough=360)
def equilibrium_stays(ctx):
    """Started at the equilibrium found, the simulated model stays there."""
    r = ctx.rng
    nx = ctx.randint(1, 3)
    m = SystemModel()
    x, u = m.create_state("x", nx), m.create_control("u")
    a = r.uniform(0.5, 1.5, nx)
    # a chain of nonlinear tanks
    ode = [(u if i == 0 else a[i - 1] * ca.tanh(x[i - 1])) - a[i] * ca.tanh(x[i]) for i in range(nx)]
    m.include_equations(ode=ode)
    ref = ctx.uniform(0.2, 0.35)
    xe, ye, ue = m.find_equilibrium([x[nx - 1] - ref], guess=[0.3] * (nx + 1))
    ctx.note("tanks", nx, a.tolist(), ref)
    ctx.close(xe[nx - 1], ref, "equilibrium-residual", "set point", atol=1e-6)
    ctx.close(ue, a[-1] * np.tanh(ref), "equilibrium-residual", "steady input", atol=1e-6)
    res = m.simulate(x_0=xe, t_f=2.0, u=ue)
    ctx.close(res.final_condition()["x"], xe, "equilibrium-residual", "state after simulating from the equilibrium", rtol=1e-3, atol=1e-4)


@scenario("C06", quick=120, thorough=480)
def linearizations(ctx):
    """linearize(x, u): same variables, A = df/dx, B = df/du at the point, and the trajectories agree to first order."""
    r = ctx.rng
    nx, nu = ctx.randint(1, 3), ctx.randint(1, 2)
    m = SystemModel(name="nl")
    x, u = m.create_state("x", nx), m.create_control("u", nu)
    A, B, C = r.uniform(-1, 1, (nx, nx)), r.uniform(-1, 1, (nx, nu)), r.uniform(-1, 1, nx)
    zero_row = ctx.chance(0.3)
    if zero_row:
        A[0], B[0], C[0] = 0, 0, 0

    def f(xx, uu):
        return A @ np.sin(xx) + B @ (uu ** 2 + uu) + C * xx * uu[0]

    e = ca.mtimes(dm(A), ca.sin(x)) + ca.mtimes(dm(B), u ** 2 + u) + dm(C) * x * u[0]
    if zero_row:
        e = ca.vertcat(ca.SX(1, 1) if ctx.chance() else ca.SX(0), *[e[i] for i in range(1, nx)])
    m.include_equations(ode=e)
    xb, ub = r.uniform(-1, 1, nx), r.uniform(-1, 1, nu)
    before = str(m.ode)
    lin = m.linearize(dm(xb), dm(ub))
    ctx.note("linearize", nx, nu, "zero row" if zero_row else "", np.round(xb, 3).tolist())
    ctx.check(str(m.ode) == before, "inputs-unchanged", "linearize changed the model")
    ctx.eq((lin.n_x, lin.n_u, lin.n_y), (nx, nu, 0), "linear-model-shape", "sizes")
    ctx.eq((lin.x_names, lin.u_names), (m.x_names, m.u_names), "linear-model-shape", "names")
    h = 1e-6
    J = np.array([(f(xb + h * d, ub) - f(xb - h * d, ub)) / (2 * h) for d in np.eye(nx)]).T
    K = np.array([(f(xb, ub + h * d) - f(xb, ub - h * d)) / (2 * h) for d in np.eye(nu)]).T
    F = ca.Function("F", [lin.x, lin.u], [ca.densify(lin.ode)])
    for _ in range(2):
        xv, uv = r.uniform(-1, 1, nx), r.uniform(-1, 1, nu)
        ctx.close(F(xv, uv), J @ xv + K @ uv, "linear-model", "ode of the linear model", rtol=1e-5, atol=1e-6)
    got = lin.simulate(x_0=dm(xb), t_f=0.5, u=dm(ub)).final_condition()["x"]
    from scipy.linalg import expm

    M = expm(np.block([[J, (K @ ub).reshape(-1, 1)], [np.zeros((1, nx + 1))]]) * 0.5)
    ctx.close(got, (M @ np.append(xb, 1))[:nx], "linear-model", "trajectory of the linear model", rtol=2e-3, atol=3e-4)
