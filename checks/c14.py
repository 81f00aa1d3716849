import warnings

import casadi as ca
import numpy as np

from vfw.core import scenario
from vfw.env import dm
from vfw.freeze import Frozen
from vfw.ocpgen import Plan
from checks.c13 import v
from yaocptool.methods import IndirectMethod

RULE = (
    "Random optimal control problems (as for C13) are solved and the returned decisions are judged by an optimality "
    "certificate computed without the library: the gradient of the cost, obtained by differencing an independent "
    "simulation, must be a combination (with the right signs) of the gradients of the active constraints. Solutions of the "
    "indirect method must satisfy Pontryagin's conditions (state and adjoint equations on every element, minimising "
    "control within bounds, transversality) evaluated in plain numpy, and direct and indirect solutions must agree."
)
ASSUMPTIONS = ["local optimality (first-order conditions) is what the methods promise", "the control cost of the indirect workloads is diagonal (documented restriction: the bounds are applied by clipping)"]


def certificate(ctx, pl, res):
    ctx.event("solutions")
    if not ctx.check(bool(res.success), "solved", lambda: str(res.stats.get("return_status"))):
        return
    r, g, na, ne = pl.kkt(pl.pack(*pl.read(res)))
    ctx.event("active-inequalities", na)
    ctx.event("equalities", ne)
    ctx.check(r < 2e-4 * (1 + g), "stationarity", lambda: "residual %g with gradient %g, %d active constraints" % (r, g, na))


@scenario("C14", quick=156, thorough=1500)
def stationary(ctx):
    pl = Plan(ctx, scheme="collocation", fe=ctx.randint(2, 4))
    ctx.note(pl.describe())
    certificate(ctx, pl, pl.solve(pl.method(), pl.solve_args()))


@scenario("C14", quick=65, thorough=500)
def stationary_shooting(ctx):
    pl = Plan(ctx, scheme="multiple-shooting", fe=ctx.randint(2, 4))
    ctx.note(pl.describe())
    mt = pl.method(integrator_type=ctx.choice(["collocation"] if pl.ny else ["rk", "explicit", "collocation"]))
    certificate(ctx, pl, pl.solve(mt, pl.solve_args()))


class Pontryagin:
    def __init__(self, pl):
        self.pl = pl

    def nu(self, y, lam):
        return -(2 * self.pl.W * y + self.pl.E.T @ lam)

    def wish(self, t, lam, nu, p, th):
        pl = self.pl
        # (bounds only together with a diagonal R: the clipped point is then the minimiser)
        u = -np.linalg.solve(2 * pl.R, pl.B.T @ lam - pl.H.T @ nu + pl.cu(t, p, th))
        return np.clip(u, pl.ulb, pl.uub)

    def control(self, t, x, lam, p, th):
        """Minimiser of the Hamiltonian within the bounds (coordinate descent, strictly convex)."""
        pl = self.pl
        K = 2 * pl.R + (2 * pl.H.T @ np.diag(pl.W) @ pl.H if pl.ny else 0)
        y0 = pl.yv(t, x, np.zeros(pl.nu), p, th)
        b = pl.B.T @ lam + (pl.H.T @ (2 * pl.W * y0 + pl.E.T @ lam) if pl.ny else 0) + pl.cu(t, p, th)
        u = np.zeros(pl.nu)
        for _ in range(200):
            old = u.copy()
            for i in range(pl.nu):
                u[i] = np.clip(u[i] - (K[i] @ u + b[i]) / K[i, i], pl.ulb[i], pl.uub[i])
            if np.abs(u - old).max() < 1e-14:
                break
        return u

    def adjoint(self, t, x, y, lam):
        pl = self.pl
        d = 2 * pl.Q @ (x - pl.xr) + (pl.A - np.diag(3 * pl.nl * x ** 2)).T @ lam
        d[0] += pl.lt * t
        if pl.ny:
            d -= pl.G.T @ self.nu(y, lam)
        return -d

    def rhs(self, t, z, p, th):
        n = self.pl.n
        x, lam = z[:n], z[n:]
        u = self.control(t, x, lam, p, th)
        return np.concatenate([self.pl.f(t, x, u, p, th), self.adjoint(t, x, self.pl.yv(t, x, u, p, th), lam)])


@scenario("C14", quick=78, thorough=700)
def pontryagin(ctx):
    scheme = ctx.choice(["collocation", "collocation", "multiple-shooting"])
    ms = scheme == "multiple-shooting"
    n = ctx.randint(1, 3)
    hf = ctx.chance(0.3)
    ubox = ctx.chance(0.5) and not hf
    pl = Plan(ctx, scheme=scheme, fe=ctx.randint(2, 5), deg=ctx.choice([2, 3, 4]), dc=1, n=n, diagR=ubox or ctx.chance(0.3), opt=False, con=False, last_u=False,
              Sx=np.zeros(n), ts=1.0, free0=False, ubox=ubox, T=ctx.uniform(0.4, 1.2))
    if hf:
        k = ctx.randint(1, max(1, n - 1))
        a = np.linalg.qr(ctx.rng.normal(size=(n, n)))[0][:k] * ctx.rng.uniform(0.5, 1.5, (k, 1))
        pl.hf = (a, a @ pl.nominal[1][-1][-1])
        rows = [ca.mtimes(dm(a), pl.pr.model.x) - dm(pl.hf[1])] if ctx.chance() else [ca.dot(dm(a[i]), pl.pr.model.x) - pl.hf[1][i] for i in range(k)]
        for q in rows:
            pl.pr.include_final_time_equality(q)
    ctx.note("indirect " + pl.describe())
    kw = {}
    cs = ctx.chance(0.3)
    if cs:
        kw["create_cost_state"] = True
    if ms:
        kw["integrator_type"] = ctx.choice(["collocation"] if pl.ny else ["collocation", "rk", "explicit"])
    ign = []
    for kind, k in (("x", n), ("y", pl.ny)):
        for side in ("min", "max"):
            if k and ctx.chance(0.12):
                # state and algebraic bounds are outside what the method handles: announced and ignored
                b = ca.DM(getattr(pl.pr, "%s_%s" % (kind, side)))
                for i in ctx.sample(range(k), ctx.randint(1, k)):
                    b[i] = ctx.choice([0.0, 50.0]) * (1 if side == "min" else -1)
                setattr(pl.pr, "%s_%s" % (kind, side), b)
                ign.append((kind, side))
    with warnings.catch_warnings(record=True) as told:
        warnings.simplefilter("always")
        mt = IndirectMethod(pl.pr, discretization_scheme=scheme, finite_elements=pl.fe, degree=pl.deg, nlpsol_opts={}, **kw)
    for kind in {k for k, _ in ign}:
        word = "state constraints" if kind == "x" else "algebraic constraints"
        ctx.check(any(word in str(w.message) for w in told), "ignored-bounds", lambda: "%s bounds are not handled and nothing was said (%s)" % (kind, ign))
    for kind, side in ign:
        ctx.check(bool(np.all(np.isinf(v(getattr(pl.pr, "%s_%s" % (kind, side)))))), "ignored-bounds", lambda: "%s_%s is not free" % (kind, side))
    ctx.eq(mt.degree_control, pl.deg, "layout", "degree of the control")
    args = {}
    if pl.np:
        args["p"] = dm(pl.p)
    if pl.nth:
        args["theta"] = {e: dm(pl.th[e]) for e in range(pl.fe)}
    fr = Frozen(ctx, **args)
    res = mt.solve(**args)
    fr.verify("solve")
    ctx.event("solutions")
    if not ctx.check(bool(res.success), "solved", lambda: "%s" % res.stats.get("return_status")):
        return
    P = Pontryagin(pl)
    names = list(res.x_names)
    ix = [names.index(q) for q in pl.m.x_names]
    il = [i for i, q in enumerate(names) if "lamb" in q]
    ctx.eq(len(il), n, "layout", "adjoint states")
    iy = [list(res.y_names).index(q) for q in pl.m.y_names]
    tol = dict(rtol=2e-4, atol=2e-4) if ms else dict(rtol=1e-5, atol=1e-6)
    ctx.close(v(res.x_data["values"][0][0])[ix], pl.x0, "initial-condition", "x(t_0)", atol=1e-6)
    zn = None
    total = 0.0
    for e in range(pl.fe):
        Z = np.array([np.concatenate([v(q)[ix], v(q)[il]]) for q in res.x_data["values"][e]])
        U = np.array([v(q) for q in res.u_data["values"][e]])
        if zn is not None:
            ctx.close(Z[0], zn, "dynamics", "state and adjoint are continuous into element %d" % e, **tol)
        t0 = pl.tb[e]
        if ms:
            ctx.eq(Z.shape[0], 1, "layout", "points per element")
            z, s = Z[0], 0.0
            tu = [float(k) for k in res.u_data["time"][e]]
            ctx.eq((len(U), len(tu)), (pl.deg, pl.deg), "layout", "controls per element")
            for j, q in enumerate(pl.tau):
                N = 6
                h = pl.dt * (q - s) / N
                for i in range(N):
                    t = t0 + s * pl.dt + i * h
                    g = lambda w, z: P.rhs(w, z, pl.p, pl.th[e])
                    k1 = g(t, z)
                    k2 = g(t + h / 2, z + h / 2 * k1)
                    k3 = g(t + h / 2, z + h / 2 * k2)
                    k4 = g(t + h, z + h * k3)
                    z = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                s = q
                t = t0 + s * pl.dt
                ctx.close(tu[j], t, "layout", "times of the controls", atol=1e-9)
                ctx.close(U[j], P.control(t, z[:n], z[n:], pl.p, pl.th[e]), "minimising-control", "control minimises the Hamiltonian within its bounds, shooting, t=%g" % t, rtol=1e-3, atol=1e-3)
            zn = z
        else:
            ctx.eq(Z.shape[0], pl.deg + 1, "layout", "points per element")
            for j, s in enumerate(pl.tau):
                t = t0 + s * pl.dt
                x, lam = Z[j + 1][:n], Z[j + 1][n:]
                y = v(res.y_data["values"][e][j])[iy] if pl.ny else np.zeros(0)
                u = P.wish(t, lam, P.nu(y, lam), pl.p, pl.th[e])
                ctx.close(U[j], u, "minimising-control", "control minimises the Hamiltonian within its bounds, t=%g" % t, rtol=1e-6, atol=1e-6)
                ctx.close(y, pl.yv(t, x, U[j], pl.p, pl.th[e]), "algebraic", "y", rtol=1e-6, atol=1e-6)
                d = pl.Dm[j] @ Z / pl.dt
                ctx.close(d[:n], pl.f(t, x, U[j], pl.p, pl.th[e]), "dynamics", "state equation at t=%g" % t, **tol)
                ctx.close(d[n:], P.adjoint(t, x, y, lam), "adjoint", "adjoint equation at t=%g" % t, **tol)
                total += pl.dt * pl.bw[j] * pl.L(t, x, U[j], pl.p, pl.th[e])
            zn = Z[-1]
    zf = np.concatenate([v(res.x_data["values"][-1][-1])[ix], v(res.x_data["values"][-1][-1])[il]])
    ctx.close(zf, zn, "dynamics", "final state and adjoint", **tol)
    gap = zf[n:] - 2 * pl.Qv @ (zf[:n] - pl.xr)
    gap[0] -= pl.vp @ pl.p
    if pl.hf is not None:
        # (the multipliers of the final equalities are part of the solution)
        a = pl.hf[0]
        if ctx.eq(ca.DM(res.eta).numel(), len(a), "final-multipliers", "number"):
            gap = gap - a.T @ v(res.eta)
        ctx.close(a @ zf[:n], pl.hf[1], "final-equality", "h_final", atol=1e-5)
    ctx.close(gap, np.zeros(n), "transversality", "final adjoint", atol=1e-5 if not ms else 1e-4)
    if cs and not ms:
        ctx.close(v(res.x_data["values"][-1][-1])[[i for i in range(len(names)) if i not in ix and i not in il]], [total], "running-cost", "cost state", rtol=1e-4, atol=1e-5)


@scenario("C14", quick=32, thorough=300)
def direct_and_indirect_agree(ctx):
    n = ctx.randint(1, 2)
    o = dict(scheme="collocation", fe=ctx.randint(4, 6), deg=3, dc=3, n=n, diagR=True, opt=False, con=False, last_u=False, Sx=np.zeros(n), ts=1.0,
             free0=False, ubox=False, T=ctx.uniform(0.4, 1.0), nth=0)
    pl = Plan(ctx, **o)
    ctx.note(pl.describe())
    args = {"p": dm(pl.p)} if pl.np else {}
    a = pl.method().solve(**args)
    pl.build_model()
    pl.build_problem()
    b = IndirectMethod(pl.pr, discretization_scheme="collocation", finite_elements=pl.fe, degree=3, nlpsol_opts={}).solve(**args)
    ctx.event("solutions", 2)
    if not ctx.check(bool(a.success) and bool(b.success), "solved", "both"):
        return
    for e in range(pl.fe):
        for j in range(4):
            ctx.close(v(b.x_data["values"][e][j])[:n], v(a.x_data["values"][e][j])[:n], "same-trajectory", "x, element %d" % e, rtol=1e-3, atol=5e-4)
        for j in range(3):
            ctx.close(v(b.u_data["values"][e][j]), v(a.u_data["values"][e][j]), "same-control", "u, element %d" % e, rtol=1e-2, atol=5e-3)


@scenario("C14", quick=24, thorough=100)
def indirect_refusals(ctx):
    """What the indirect method cannot solve is refused, not answered wrongly."""
    n = ctx.randint(1, 2)
    pl = Plan(ctx, scheme="collocation", fe=2, deg=2, dc=1, n=n, diagR=True, opt=False, con=False, last_u=False, Sx=np.zeros(n), ts=1.0, free0=False, ubox=False, nth=0)
    mt = IndirectMethod(pl.pr, discretization_scheme="collocation", finite_elements=2, degree=2, nlpsol_opts={})
    with ctx.raises("refused", "degree_control of the indirect method", ValueError):
        mt.degree_control = ctx.choice([1, 2, 3])
    ctx.eq(mt.degree_control, 2, "refused", "degree of the control")
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    m = SystemModel()
    x, u = m.create_state("x", n), m.create_control("u")
    m.include_equations(ode=-x + ca.SX(dm(ctx.rng.uniform(0.5, 1, n))) * u)
    L = ca.dot(x, x) + (u if ctx.chance() else 0)
    pr = OptimalControlProblem(m, x_0=dm(ctx.rng.uniform(-1, 1, n)), t_f=1.0, L=L)
    with ctx.raises("refused", "a Hamiltonian that is not strictly convex in u"):
        IndirectMethod(pr, discretization_scheme="collocation", finite_elements=2, degree=2, nlpsol_opts={}).solve()
    ctx.event("refused")
