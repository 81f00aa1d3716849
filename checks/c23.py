from itertools import product
from math import comb, factorial

import casadi as ca
import numpy as np
from numpy.polynomial import hermite_e

from vfw.core import scenario
from vfw.env import dm
from vfw.freeze import Frozen
from yaocptool.methods import DirectMethod
from yaocptool.modelling import StochasticOCP, SystemModel
from yaocptool.stochastic import (
    sample_parameter_log_normal_distribution_with_sobol,
    sample_parameter_normal_distribution_with_sobol,
)
from yaocptool.stochastic.pce import PCEConverter, get_ls_factor

RULE = (
    "Samples, polynomials and regression of the polynomial chaos expansion are checked against numpy (Hermite polynomials, exact "
    "Gaussian moments of random polynomials).  Random stochastic problems (uncertain parameters and initial conditions, chance "
    "constraints, certain parameters) are converted and solved; every sample is simulated independently under the returned "
    "control, and cost statistics, statistics of expressions, constraint margins and stationarity are recomputed."
)
ASSUMPTIONS = ["numpy as reference", "IPOPT converges on small problems", "sobol_seq draws are taken as they are"]


def v(d):
    return np.array(ca.DM(d).full(), float).ravel()


def full(d):
    return np.array(ca.DM(d).full(), float)


def spd(ctx, n, scale):
    L = np.tril(ctx.rng.uniform(-0.8, 0.8, (n, n)))
    for i in range(n):
        L[i, i] = ctx.uniform(0.5, 1.0)
    return scale * L @ L.T


def exponents(n, order):
    return [e for e in product(range(order + 1), repeat=n) if sum(e) <= order]


def psi(e, x):
    out = 1.0
    for k, q in zip(e, x):
        out = out * hermite_e.hermeval(q, [0.0] * k + [1.0])
    return out


def draws(n, N):
    """The standard normal draws the library uses (columns)."""
    return full(sample_parameter_normal_distribution_with_sobol(ca.DM.zeros(n), ca.DM.eye(n), N))


@scenario("C23", quick=25, thorough=200)
def samples(ctx):
    n, N = ctx.randint(1, 4), ctx.choice([2, 5, 17, 300])
    mean = ctx.rng.uniform(-2, 2, n)
    P = spd(ctx, n, ctx.choice([0.01, 0.5]))
    arg = [float(q) for q in mean] if ctx.chance(0.3) else dm(mean)
    C = dm(P)
    fr = Frozen(ctx, mean=arg, covariance=C)
    X = full(sample_parameter_normal_distribution_with_sobol(arg, C, N))
    fr.verify("sampling")
    ctx.eq(X.shape, (n, N), "samples-shape", "one column per sample")
    Z = draws(n, N)
    L = np.linalg.cholesky(P)
    ctx.close(X, mean[:, None] + L @ Z, "samples-mean-and-covariance", "samples are mean + L z", rtol=1e-6, atol=1e-8)
    ctx.check(len({tuple(np.round(c, 9)) for c in Z.T}) == N, "samples-distinct", "repeated samples")
    if N == 300:
        ctx.check(np.abs(Z.mean(1)).max() < 0.1, "samples-standard-normal", "mean %s" % Z.mean(1))
        S = Z @ Z.T / N
        ctx.check(np.abs(S - np.eye(n)).max() < 0.25, "samples-standard-normal", "covariance %s" % S)
    m2 = np.abs(mean) + 0.1
    Y = full(sample_parameter_log_normal_distribution_with_sobol(dm(m2), C, N))
    ctx.close(Y, np.exp(np.log(m2)[:, None] + L @ Z), "log-normal-samples", "", rtol=1e-6, atol=1e-8)
    ctx.event("samples", N)


@scenario("C23", quick=40, thorough=300)
def expansion(ctx):
    n = ctx.randint(1, 3)
    order = ctx.randint(1, {1: 10, 2: 5, 3: 3}[n])
    E = exponents(n, order)
    M = len(E)
    N = M + ctx.choice([0, 0, 1, 3, 10])
    lamb = ctx.choice([None, None, 0.0])
    ls, phi, fun = get_ls_factor(n, N, order) if lamb is None else get_ls_factor(n, N, order, lamb)
    ls, phi = full(ls), v(phi)
    ctx.eq(ls.shape, (M, N), "regression-shape", "")
    ctx.close(phi, [np.prod([factorial(k) for k in e]) for e in E], "polynomial-norms", "n=%d order=%d" % (n, order), rtol=1e-9)
    for _ in range(3):
        x = ctx.rng.uniform(-2.5, 2.5, n)
        ctx.close(v(fun(dm(x))), [psi(e, x) for e in E], "hermite-polynomials", "n=%d order=%d at %s" % (n, order, x), rtol=1e-8, atol=1e-8)
    if order <= (6 if n == 1 else 3):
        Z = draws(n, N)
        c = ctx.rng.uniform(-1, 1, M)
        f = lambda z: sum(a * psi(e, z) for a, e in zip(c, E))
        got = ls @ np.array([f(Z[:, s]) for s in range(N)])
        B = np.array([[psi(e, Z[:, s]) for e in E] for s in range(N)])
        if np.linalg.cond(B) < 1e4:
            ctx.close(got, c, "regression-exact-for-polynomials", "n=%d order=%d N=%d" % (n, order, N), rtol=1e-5, atol=1e-5)
            ctx.event("regressions")
        k = ctx.uniform(0.01, 2.0)
        ridge = full(get_ls_factor(n, N, order, k)[0])
        ctx.close(ridge, np.linalg.solve(B.T @ B + k * np.eye(M), B.T), "regularized-regression", "n=%d order=%d N=%d lamb=%g" % (n, order, N, k), rtol=1e-6, atol=1e-6)
    ctx.event("polynomials", M)


# ------------------------------------------------------------------- problems
class Stoch:
    def __init__(self, ctx):
        self.ctx = ctx
        r = ctx.rng
        self.n, self.nu, self.ny = ctx.randint(1, 2), ctx.randint(1, 2), ctx.choice([0, 0, 1, 2])
        self.np_ = ctx.randint(1, 3)
        self.nth = ctx.choice([0, 0, 1])
        n, nu, ny, NP = self.n, self.nu, self.ny, self.np_
        self.A = r.uniform(-0.5, 0.5, (n, n)) - 0.6 * np.eye(n)
        self.N = r.uniform(-0.4, 0.4, (n, n))
        self.B = r.uniform(0.4, 1.2, (n, nu)) * r.choice([-1, 1], (n, nu))
        self.D, self.F = r.uniform(-0.5, 0.5, (n, NP)), r.uniform(-0.5, 0.5, (n, self.nth))
        self.c, self.w = r.uniform(-0.3, 0.3, n) * ctx.choice([0, 1]), r.uniform(0.5, 2)
        self.E, self.G = r.uniform(-0.4, 0.4, (n, ny)), r.uniform(-0.8, 0.8, (ny, n))
        self.H, self.Gp = r.uniform(-0.5, 0.5, (ny, nu)), r.uniform(-0.4, 0.4, (ny, NP))
        self.Q, self.R, self.W = r.uniform(0.4, 1.5, n), r.uniform(0.3, 1.0, nu), r.uniform(0.1, 0.5, ny)
        self.xr = r.uniform(-0.5, 0.5, n)
        self.Lp = r.uniform(-0.5, 0.5)
        self.t0 = ctx.choice([0.0, 0.0, 0.6])
        self.fe, self.dt = ctx.randint(2, 4), ctx.choice([0.25, 0.4])
        self.tf = self.t0 + self.fe * self.dt
        self.x0 = r.uniform(-1, 1, n)
        self.p = r.uniform(-1, 1, NP)
        self.th = [r.uniform(-1, 1, self.nth) for _ in range(self.fe)]
        self.order = ctx.randint(1, 3)
        # what is uncertain: some parameters (in one or two declarations), some initial conditions
        self.unc = ctx.sample(range(NP), ctx.randint(0, min(NP, 2)))
        self.uic = sorted(ctx.sample(range(n), ctx.randint(0, 1)))
        if not self.unc and not self.uic:
            self.unc = [0]
        self.mean_p = self.p[self.unc]
        self.cov_p = spd(ctx, len(self.unc), 0.05)
        self.mean_x = r.uniform(-1, 1, len(self.uic))
        self.cov_x = spd(ctx, len(self.uic), 0.05)
        self.ub = ctx.choice([None, 0.3, 1.0])
        self.split = len(self.unc) == 2 and ctx.chance()
        if self.split:
            self.cov_p = np.diag(np.diag(self.cov_p))
        # the mean of an uncertain parameter may be another parameter of the problem
        self.cert = [i for i in range(NP) if i not in self.unc]
        self.mean_sym = ctx.choice(self.cert) if len(self.unc) == 1 and self.cert and ctx.chance() else None
        if self.mean_sym is not None:
            self.mean_p = self.p[[self.mean_sym]]
        self.nunc = len(self.unc) + len(self.uic)
        M = comb(self.nunc + self.order, self.order)
        self.ns = M + ctx.choice([0, 0, 2])
        self.chance = [(r.uniform(-1, 1, n), r.uniform(-0.5, 0.5, NP), r.uniform(-0.5, 0.5), ctx.choice([0.5, 0.8, 0.95])) for _ in range(ctx.choice([0, 1, 2, 3]))]
        self.slack = [ctx.choice([0.02, 0.15, 1.0]) for _ in self.chance]
        self.stat = [(r.uniform(-1, 1, n), r.uniform(-0.5, 0.5, NP)) for _ in range(ctx.choice([0, 0, 1]))]

    def eps(self):
        return draws(self.nunc, self.ns)

    def scenarios(self):
        """(x0, p) of every sample"""
        Z = self.eps()
        k = len(self.unc)
        out = []
        C = np.zeros((self.nunc, self.nunc))
        C[:k, :k], C[k:, k:] = self.cov_p, self.cov_x
        L = np.linalg.cholesky(C)
        mean = np.concatenate([self.mean_p, self.mean_x])
        for s in range(self.ns):
            q = mean + L @ Z[:, s]
            p, x = self.p.copy(), self.x0.copy()
            p[self.unc] = q[:k]
            x[self.uic] = q[k:]
            out.append((x, p))
        return out

    def f(self, t, x, u, p, th):
        d = self.A @ x + self.N @ x * p[0] + self.B @ u + self.D @ p + self.c * np.sin(self.w * t) + self.F @ th
        y = self.G @ x + self.H @ u + self.Gp @ p
        L = self.Q @ (x - self.xr) ** 2 + self.R @ u ** 2 + self.Lp * p[-1] * x[0] * (1 + 0.2 * t)
        if self.ny:
            d = d + self.E @ y
            L += self.W @ y ** 2
        return np.append(d, L)

    def simulate(self, x0, p, U, th):
        z, out = np.append(x0, 0.0), []
        K = 10
        h = self.dt / K
        for e in range(self.fe):
            for i in range(K):
                t = self.t0 + e * self.dt + i * h
                g = lambda a, b: self.f(t + a, b[:-1], U[e], p, th[e])
                k1 = g(0, z)
                k2 = g(h / 2, z + h / 2 * k1)
                k3 = g(h / 2, z + h / 2 * k2)
                k4 = g(h, z + h * k3)
                z = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            out.append(z.copy())
        return out

    def regress(self, vals):
        Z = self.eps()
        E = exponents(self.nunc, self.order)
        B = np.array([[psi(e, Z[:, s]) for e in E] for s in range(self.ns)])
        c = np.linalg.lstsq(B, np.array(vals), rcond=None)[0]
        nrm = np.array([np.prod([factorial(k) for k in e]) for e in E])
        return c, c[0], float((c[1:] ** 2) @ nrm[1:])

    def build(self):
        ctx = self.ctx
        m = SystemModel(name="stoch")
        mk = {
            "x": (self.n, lambda: m.create_state("x", self.n)),
            "u": (self.nu, lambda: m.create_control("u", self.nu)),
            "p": (self.np_, lambda: m.create_parameter("p", self.np_)),
            "theta": (self.nth, lambda: m.create_theta("th", self.nth)),
            "y": (self.ny, lambda: m.create_algebraic_variable("y", self.ny)),
        }
        for q in ctx.perm(list(mk)):
            if mk[q][0]:
                mk[q][1]()
        x, u, p, y, t = m.x, m.u, m.p, m.y, m.t
        ode = ca.mtimes(dm(self.A) + dm(self.N) * p[0], x) + ca.mtimes(dm(self.B), u) + ca.mtimes(dm(self.D), p) + dm(self.c) * ca.sin(self.w * t)
        L = ca.dot(dm(self.Q), (x - dm(self.xr)) ** 2) + ca.dot(dm(self.R), u ** 2) + self.Lp * p[-1] * x[0] * (1 + 0.2 * t)
        if self.nth:
            ode += ca.mtimes(dm(self.F), m.theta)
        k = {}
        if self.ny:
            ode += ca.mtimes(dm(self.E), y)
            k["alg"] = y - ca.mtimes(dm(self.G), x) - ca.mtimes(dm(self.H), u) - ca.mtimes(dm(self.Gp), p)
            L += ca.dot(dm(self.W), y ** 2)
        m.include_equations(ode=ode, **k)
        pr = StochasticOCP(m, name="stoch", x_0=dm(self.x0), t_0=self.t0, t_f=self.tf)
        pr.L = L
        if self.ub:
            pr.u_min, pr.u_max = dm([-self.ub] * self.nu), dm([self.ub] * self.nu)
        if self.unc:
            if self.split:
                for i, j in enumerate(self.unc):
                    pr.set_parameter_as_uncertain_parameter(p[j], mean=dm([self.mean_p[i]]), cov=dm([[self.cov_p[i, i]]]))
            else:
                mean = p[self.mean_sym] if self.mean_sym is not None else dm(self.mean_p)
                pr.set_parameter_as_uncertain_parameter(ca.vertcat(*[p[j] for j in self.unc]), mean=mean, cov=dm(self.cov_p))
        for i, j in enumerate(self.uic):
            pr.set_initial_condition_as_uncertain(m.x_0[j], mean=dm([self.mean_x[i]]), cov=dm([[self.cov_x[i, i]]]))
        sc = self.scenarios()
        U = [np.zeros(self.nu)] * self.fe
        self.rhs = []
        for (a, b, g, prob), slack in zip(self.chance, self.slack):
            # a right-hand side that the zero control satisfies with some slack
            worst = -np.inf
            sims = [self.simulate(x, q, U, self.th) for x, q in sc]
            for e in range(self.fe):
                _, mu, var = self.regress([a @ sims[s][e][:-1] + b @ sc[s][1] + g * (self.t0 + (e + 1) * self.dt) for s in range(self.ns)])
                worst = max(worst, mu + np.sqrt(prob / (1 - prob)) * np.sqrt(max(var, 1e-6)))
            rhs = worst + slack
            self.rhs.append(rhs)
            ex = ca.dot(dm(a), x) + ca.dot(dm(b), p) + g * t
            if ctx.chance():
                pr.include_time_chance_inequality(ex, rhs=[float(rhs)], prob=[prob])
            else:
                pr.include_time_chance_inequality(ex - rhs, prob=prob)
        self.pr, self.m = pr, m
        return pr


@scenario("C23", quick=40, thorough=300, timeout=120)
def conversion(ctx):
    S = Stoch(ctx)
    pr = S.build()
    ctx.note("n=%d nu=%d ny=%d np=%d nth=%d fe=%d order=%d unc=%s uic=%s ns=%d ub=%s chance=%d stat=%d mean_sym=%s" % (
        S.n, S.nu, S.ny, S.np_, S.nth, S.fe, S.order, S.unc, S.uic, S.ns, S.ub, len(S.chance), len(S.stat), S.mean_sym))
    kw = dict(pc_order=S.order)
    if S.ns != comb(S.nunc + S.order, S.order) or ctx.chance(0.3):
        kw["n_samples"] = S.ns
    Z = S.eps()
    B = np.array([[psi(e, Z[:, s]) for e in exponents(S.nunc, S.order)] for s in range(S.ns)])
    if np.linalg.cond(B) > 1e4:
        ctx.skip("ill-conditioned regression")
    before = (str(S.m.ode), str(S.m.alg), S.m.n_x, S.m.n_p, str(pr.L), str(pr.g_eq), str(pr.g_ineq), list(pr.time_g_eq), list(pr.time_g_ineq), str(pr.h_initial), str(pr.h_final))
    conv = PCEConverter(pr, **kw)
    ctx.eq((conv.n_uncertain, conv.n_pol_parameters, conv.n_samples), (S.nunc, comb(S.nunc + S.order, S.order), S.ns), "sizes-of-the-expansion", "")
    for a, b in S.stat:
        conv.stochastic_variables.append(ca.dot(dm(a), S.m.x) + ca.dot(dm(b), S.m.p))
    q = conv.convert_socp_to_ocp_with_pce()
    after = (str(S.m.ode), str(S.m.alg), S.m.n_x, S.m.n_p, str(pr.L), str(pr.g_eq), str(pr.g_ineq), list(pr.time_g_eq), list(pr.time_g_ineq), str(pr.h_initial), str(pr.h_final))
    ctx.eq(after, before, "stochastic-problem-unchanged", "")
    ctx.close([float(q.t_0), float(q.t_f)], [S.t0, S.tf], "horizon", "")
    ctx.eq((q.model.n_u, q.model.n_y), (S.nu, S.ny * S.ns), "variables-of-the-converted-problem", "")
    sm = DirectMethod(q, discretization_scheme="collocation", finite_elements=S.fe, degree=4, nlpsol_opts={})
    nP = q.model.n_p
    p = np.zeros(nP)
    p[: len(S.cert)] = S.p[S.cert]
    args = dict(p=dm(p))
    if S.nth or q.n_theta_opt:
        args["theta"] = {e: dm(np.concatenate([S.th[e], np.zeros(q.model.n_theta - S.nth)])) for e in range(S.fe)}
    res = sm.solve(**args)
    if not sm.opt_problem.solver_stats["success"] if hasattr(sm.opt_problem, "solver_stats") else False:
        ctx.skip("solver")
    U = [v(res.u_data["values"][e][0]) for e in range(S.fe)]
    sc = S.scenarios()
    sims = [S.simulate(x, w, U, S.th) for x, w in sc]
    X = [np.array([v(k) for k in res.x_data["values"][e]])[0] for e in range(S.fe)]
    Xend = v(res.x_data["values"][S.fe - 1][-1])
    n1 = S.n + 1
    tol = dict(rtol=2e-4, atol=2e-4)
    for s in range(S.ns):
        for e in range(1, S.fe):
            ctx.close(X[e][s * n1 : s * n1 + S.n], sims[s][e - 1][:-1], "trajectory-of-each-sample", "sample %d element %d" % (s, e), **tol)
        ctx.close(X[0][s * n1 : s * n1 + S.n], sc[s][0], "initial-condition-of-each-sample", "sample %d" % s, rtol=1e-5, atol=1e-6)
        ctx.close(Xend[s * n1 : (s + 1) * n1], sims[s][-1], "trajectory-of-each-sample", "sample %d, end" % s, **tol)
    c, mu, var = S.regress([k[-1][-1] for k in sims])
    po = v(res.p_opt)
    big = dict(rtol=5e-4, atol=5e-4 * max(1.0, np.linalg.cond(B)))
    M = len(c)
    names = [q.p_opt[i].name() for i in range(q.n_p_opt)]
    get = lambda pre: [po[i] for i, nm in enumerate(names) if nm.startswith(pre)]
    ctx.close(get("cost_pol_par"), c, "cost-expansion", "coefficients", **big)
    ctx.close(get("cost_mean")[0], mu, "cost-mean", "", **big)
    ctx.close(get("cost_var")[0], var, "cost-variance", "", rtol=2e-3, atol=big["atol"])
    ctx.close(float(res.objective_opt_problem), mu, "objective-is-the-mean-cost", "", **big)
    # statistics and chance constraints at the end of each element
    tn = [q.theta_opt[i].name() for i in range(q.n_theta_opt)]
    margins = []
    for e in range(S.fe):
        th = v(res.theta_opt[e]) if q.n_theta_opt else np.zeros(0)
        t = S.t0 + (e + 1) * S.dt
        for i, (a, b) in enumerate(S.stat):
            _, m1, v1 = S.regress([a @ sims[s][e][:-1] + b @ sc[s][1] for s in range(S.ns)])
            at = tn.index("stoch_var_%d_mean" % i)
            ctx.close(th[at], m1, "mean-of-an-expression", "element %d" % e, **big)
            ctx.close(th[tn.index("stoch_var_%d_var" % i)], v1, "variance-of-an-expression", "element %d" % e, rtol=2e-3, atol=big["atol"])
        for i, (a, b, g, prob) in enumerate(S.chance):
            _, m1, v1 = S.regress([a @ sims[s][e][:-1] + b @ sc[s][1] + g * t for s in range(S.ns)])
            viol = m1 + np.sqrt(prob / (1 - prob)) * np.sqrt(max(v1, 1e-6)) - S.rhs[i]
            margins.append(viol)
            if "stoch_constr_%d_viol_prob" % i in tn:
                ctx.close(th[tn.index("stoch_constr_%d_viol_prob" % i)], viol, "chance-constraint-value", "constraint %d, element %d" % (i, e), rtol=2e-3, atol=1e-3 + 2 * big["atol"])
            ctx.check(viol <= 5e-3 + big["atol"], "chance-constraint-met", "constraint %d, element %d: %g" % (i, e, viol))
            ctx.event("chance constraints")
    if S.ub:
        ctx.check(max(np.abs(k).max() for k in U) <= S.ub + 1e-5, "bounds-met", "controls %s" % U)
    # stationarity of the mean cost, where nothing is active
    inside = (not S.ub or max(np.abs(k).max() for k in U) < S.ub - 1e-2) and (not margins or max(margins) < -2e-2)
    if inside:
        def J(w):
            return S.regress([S.simulate(x, k, w.reshape(S.fe, S.nu), S.th)[-1][-1] for x, k in sc])[1]

        w = np.concatenate(U)
        d = ctx.rng.standard_normal(w.size)
        h = 1e-3
        g = (J(w + h * d) - J(w - h * d)) / (2 * h)
        g2 = (J(w + h * d) - 2 * J(w) + J(w - h * d)) / h ** 2
        ctx.check(abs(g) <= 1e-3 * max(1.0, abs(g2)) * max(1.0, np.linalg.cond(B) / 10), "mean-cost-stationary", "slope %g, curvature %g" % (g, g2))
        ctx.event("stationary points")
    ctx.event("samples", S.ns)


@scenario("C23", quick=50, thorough=120)
def refusals(ctx):
    m = SystemModel(name="m")
    x = m.create_state("x", 2)
    u = m.create_control("u")
    p = m.create_parameter("p", 2)
    y = m.create_algebraic_variable("y")
    m.include_equations(ode=[-p[0] * x[0] + u, x[0] - p[1] * x[1]], alg=[y - x[0]])
    pr = StochasticOCP(m, x_0=dm([1.0, 0.5]), t_f=1.0)
    pr.L = ca.sumsqr(x) + u ** 2
    what = ctx.turn(["mean", "cov", "ic-mean", "ic-cov", "rhs", "prob", "dist", "none", "V", "S", "g_ineq-x", "g_ineq-y", "g_eq-x", "g_eq-y", "order"])
    ctx.note(what)
    two = dm(np.eye(2))
    R = lambda exc=ValueError: ctx.raises("unacceptable-uncertainty-refused", what, exc)
    if what == "mean":
        with R():
            pr.set_parameter_as_uncertain_parameter(p, mean=dm([1.0]), cov=two)
    elif what == "cov":
        with R():
            pr.set_parameter_as_uncertain_parameter(p, mean=dm([1.0, 2.0]), cov=dm([[1.0]]))
    elif what == "ic-mean":
        with R():
            pr.set_initial_condition_as_uncertain(m.x_0, mean=dm([1.0]), cov=two)
    elif what == "ic-cov":
        with R():
            pr.set_initial_condition_as_uncertain(m.x_0, mean=dm([1.0, 2.0]), cov=dm([1.0, 1.0]))
    elif what == "rhs":
        with R():
            pr.include_time_chance_inequality(x, prob=[0.9, 0.9], rhs=[1.0])
    elif what == "prob":
        with R():
            pr.include_time_chance_inequality(x, prob=[0.9], rhs=[1.0, 2.0])
    elif what == "none":
        with R():
            PCEConverter(pr, pc_order=1).convert_socp_to_ocp_with_pce()
    else:
        pr.set_parameter_as_uncertain_parameter(p[0], mean=dm([1.0]), cov=dm([[0.1]]), distribution="uniform" if what == "dist" else "normal")
        if what == "V":
            pr.V = x[0] ** 2
        if what == "S":
            pr.S = x[0] ** 2
        if what == "order":
            c = PCEConverter(pr)
            ctx.eq((c.n_pol_parameters, c.n_samples), (4, 4), "default-order", "polynomials and samples of one uncertain parameter")
            return
        if what[:2] == "g_":
            z = ctx.choice([x[0], x[1]]) if what[-1] == "x" else y
            if ctx.chance():
                pr.include_time_inequality(u - 1)
            (pr.include_time_inequality if "ineq" in what else pr.include_time_equality)(z - 3 * u)
        with R(NotImplementedError):
            PCEConverter(pr, pc_order=1).convert_socp_to_ocp_with_pce()
        return
    ctx.eq((pr.n_p_unc, pr.n_uncertain_initial_condition, pr.n_g_stochastic), (0, 0, 0), "refused-uncertainty-leaves-nothing", what)


@scenario("C23", quick=60, thorough=300)
def declarations(ctx):
    """Uncertainties and chance constraints are kept as declared, in any order and form."""
    r = ctx.rng
    m = SystemModel(name="m")
    nx, npar = ctx.randint(2, 4), ctx.randint(1, 4)
    x = m.create_state("x", nx)
    m.create_control("u")
    p = m.create_parameter("p", npar)
    m.include_equations(ode=-x)
    pr = StochasticOCP(m, x_0=dm(np.ones(nx)), t_f=1.0)
    names = ["p_%d" % i for i in range(npar)] if npar > 1 else ["p"]
    free_p, free_x = list(range(npar)), list(range(nx))
    unc, ic, con = [], [], []  # (name or index, mean, block, distribution), (expr, rhs, prob)

    def data(k):
        mean, cov = r.uniform(-1, 1, k), spd(ctx, k, 0.3)
        dist = ctx.choice(["normal", "log-normal"])
        kw = {} if dist == "normal" and ctx.chance() else {"distribution": dist}
        return mean, cov, dist, kw

    for step in range(ctx.randint(2, 6)):
        op = ctx.choice(["set", "set", "create", "include", "ic", "ic", "chance", "bad"])
        ctx.note(op)
        if op == "set" and free_p:
            ks = ctx.sample(free_p, ctx.randint(1, min(2, len(free_p))))
            free_p = [k for k in free_p if k not in ks]
            mean, cov, dist, kw = data(len(ks))
            if len(ks) == 1 and ctx.chance(0.3):
                pr.set_parameter_as_uncertain_parameter(p[ks[0]], float(mean[0]), float(cov[0, 0]), **kw)
            else:
                pr.set_parameter_as_uncertain_parameter(ca.vertcat(*[p[k] for k in ks]), dm(mean), dm(cov), **kw)
            unc.append(([pr.model.p[k].name() for k in ks], mean, cov, dist))
        elif op in ("create", "include"):
            k = ctx.randint(1, 3)
            mean, cov, dist, kw = data(k)
            nm = "q%d" % step
            if op == "create":
                q = pr.create_uncertain_parameter(nm, dm(mean), dm(cov), **({"size": k} if k > 1 or ctx.chance() else {}), **kw)
                ctx.eq(q.numel(), k, "declared-uncertainty", "size of the created parameter")
            else:
                q = ca.SX.sym(nm, k)
                pr.include_uncertain_parameter(q, dm(mean), dm(cov), **kw)
            names += [e.name() for e in q.nz]
            unc.append(([e.name() for e in q.nz], mean, cov, dist))
        elif op == "ic" and free_x:
            ks = ctx.sample(free_x, ctx.randint(1, min(2, len(free_x))))
            free_x = [k for k in free_x if k not in ks]
            mean, cov, dist, kw = data(len(ks))
            pr.set_initial_condition_as_uncertain(ca.vertcat(*[pr.model.x_0[k] for k in ks]), dm(mean), dm(cov), **kw)
            ic.append((ks, mean, cov, dist))
        elif op == "chance":
            k = ctx.randint(1, 2)
            A, rhs, prob = r.uniform(-1, 1, (k, nx)), r.uniform(-1, 1, k), r.uniform(0.1, 0.9, k)
            ex = [ca.dot(dm(a), x) for a in A]
            kw = {"prob": [float(q) for q in prob] if ctx.chance() else dm(prob)}
            if k == 1 and ctx.chance():
                kw["prob"] = float(prob[0])
            if ctx.chance(0.7):
                kw["rhs"] = ctx.choice([[float(q) for q in rhs], dm(rhs)] + ([float(rhs[0])] if k == 1 else []))
            else:
                rhs = np.zeros(k)
            pr.include_time_chance_inequality(ex if ctx.chance() else ca.vertcat(*ex), **kw)
            con += list(zip(A, rhs, prob))
        elif op == "bad":
            k = ctx.choice(["mean", "cov", "prob"])
            with ctx.raises("unacceptable-uncertainty-refused", k, ValueError):
                if k == "mean":
                    ctx.choice([lambda: pr.set_parameter_as_uncertain_parameter(p[0], dm([1.0, 2.0]), dm(np.eye(2))),
                                lambda: pr.set_initial_condition_as_uncertain(m.x_0[0], dm([1.0, 2.0]), dm(np.eye(2)))])()
                elif k == "cov":
                    ctx.choice([lambda: pr.set_parameter_as_uncertain_parameter(p[0], dm([1.0]), dm(np.eye(2))),
                                lambda: pr.set_initial_condition_as_uncertain(m.x_0[0], dm([1.0]), dm([[0.1, 0.1]]))])()
                else:
                    pr.include_time_chance_inequality(x, prob=[0.5] * (nx - 1))
        ctx.event("declarations")
        block = lambda L: __import__("scipy.linalg").linalg.block_diag(*[c for _, _, c, _ in L]) if L else np.zeros((0, 0))
        flat = lambda L, i: [q for e in L for q in e[i]]
        for what, L, vec, mean, cov, dist in (
            ("parameters", unc, pr.p_unc, pr.p_unc_mean, pr.p_unc_cov, pr.p_unc_dist),
            ("initial conditions", ic, pr.uncertain_initial_conditions, pr.uncertain_initial_conditions_mean, pr.uncertain_initial_conditions_cov, pr.uncertain_initial_conditions_distribution),
        ):
            if not ctx.eq(vec.numel(), sum(len(e[0]) for e in L), "declared-uncertainty", "number of uncertain %s" % what) or not L:
                continue
            ctx.close(v(mean), flat(L, 1), "declared-uncertainty", "means of the %s" % what)
            ctx.close(full(cov), block(L), "declared-uncertainty", "covariance of the %s" % what)
            ctx.eq(list(dist), [d for e in L for d in [e[3]] * len(e[0])], "declared-uncertainty", "distributions of the %s" % what)
        un = flat(unc, 0)
        got = [e.name() for e in ca.SX(pr.p_unc).nz] if un else []
        ctx.eq(got, un, "declared-uncertainty", "uncertain parameters")
        allp = pr.model.p_names
        ctx.eq([allp[i] for i in pr.get_p_unc_indices()] if un else [], un, "declared-uncertainty", "indices of the uncertain parameters")
        ctx.eq([e.name() for e in pr.get_p_without_p_unc().nz], [q for q in allp if q not in un], "declared-uncertainty", "certain parameters")
        ctx.eq(pr.get_uncertain_initial_cond_indices() if ic else [], flat(ic, 0), "declared-uncertainty", "indices of the uncertain initial conditions")
        if ctx.eq((pr.n_p_unc, pr.n_uncertain_initial_condition, pr.n_g_stochastic), (len(un), len(flat(ic, 0)), len(con)), "declared-uncertainty", "numbers") and con:
            ctx.close(v(pr.g_stochastic_rhs), [q[1] for q in con], "declared-uncertainty", "right-hand sides")
            ctx.close(v(pr.g_stochastic_prob), [q[2] for q in con], "declared-uncertainty", "probabilities")
            z = r.uniform(-1, 1, nx)
            ctx.close(v(ca.Function("g", [pr.model.x], [pr.g_stochastic_ineq])(dm(z))), [q[0] @ z for q in con], "declared-uncertainty", "constraints")


@scenario("C23", quick=60, thorough=400)
def carried_over(ctx):
    """Whatever is not uncertain (bounds, guesses, decisions, constraints on controls and parameters, times) reaches the converted problem."""
    r = ctx.rng
    m = SystemModel(name="m")
    nx, nu, ny, npar, nth = ctx.randint(1, 3), ctx.randint(1, 3), ctx.randint(0, 3), ctx.randint(1, 4), ctx.randint(0, 3)
    mk = {"x": (nx, m.create_state), "u": (nu, m.create_control), "y": (ny, m.create_algebraic_variable), "p": (npar, m.create_parameter), "th": (nth, m.create_theta)}
    for q in ctx.perm(list(mk)):
        if mk[q][0]:
            mk[q][1](q, mk[q][0])
    x, u, y, p, th, t = m.x, m.u, m.y, m.p, m.theta, m.t
    kw = {"alg": y - dm(r.uniform(-1, 1, ny)) * x[0] * p[0]} if ny else {}
    m.include_equations(ode=-x + u[0] + p[-1], **kw)
    t0, tf = round(ctx.uniform(-1, 1), 2), round(ctx.uniform(2, 5), 2)
    x0 = r.uniform(-1, 1, nx)
    pr = StochasticOCP(m, x_0=dm(x0), t_0=t0, t_f=tf)
    pr.L = ca.sumsqr(x) + ca.sumsqr(u)
    val = {}
    for k, n in (("x", nx), ("y", ny), ("u", nu), ("delta_u", nu)):
        for side, s in (("min", -1), ("max", 1)):
            b = np.where(r.random(n) < 0.6, s * r.uniform(1, 4, n), s * np.inf)
            val[k + "_" + side] = b if ctx.chance(0.8) and n else np.full(n, s * np.inf)
            if n:
                setattr(pr, k + "_" + side, dm(val[k + "_" + side]))
    for k, n in (("u_guess", nu), ("y_guess", ny), ("last_u", nu)):
        val[k] = None
        if n and ctx.chance():
            val[k] = r.uniform(-1, 1, n)
            setattr(pr, k, dm(val[k]))
    # roles of the parameters
    roles = ctx.perm(range(npar))
    unc = roles[: ctx.randint(0, min(2, npar))]
    dec = [i for i in roles[len(unc):] if ctx.chance()]
    uic = ctx.sample(range(nx), ctx.randint(0 if unc else 1, min(2, nx)))
    tdec = [i for i in ctx.perm(range(nth)) if ctx.chance()]
    plb, pub = -r.uniform(0, 2, len(dec)), r.uniform(0, 2, len(dec))
    tlb, tub = -r.uniform(0, 2, len(tdec)), r.uniform(0, 2, len(tdec))
    todo = []
    if dec:
        todo.append(lambda: pr.set_parameter_as_optimization_parameter(ca.vertcat(*[p[i] for i in dec]), dm(plb), dm(pub)))
    if tdec:
        todo.append(lambda: pr.set_theta_as_optimization_theta(ca.vertcat(*[th[i] for i in tdec]), dm(tlb), dm(tub)))
    if unc:
        todo.append(lambda: pr.set_parameter_as_uncertain_parameter(ca.vertcat(*[p[i] for i in unc]), mean=dm(r.uniform(-1, 1, len(unc))), cov=dm(spd(ctx, len(unc), 0.1))))
    if uic:
        todo.append(lambda: pr.set_initial_condition_as_uncertain(ca.vertcat(*[m.x_0[i] for i in uic]), mean=dm(r.uniform(-1, 1, len(uic))), cov=dm(spd(ctx, len(uic), 0.1))))
    for f in ctx.perm(todo):
        f()
    cert = [i for i in range(npar) if i not in unc]
    # constraints on what is certain
    cons = {"g_eq": [], "g_ineq": [], "h": [], "h_final": [], "h_initial": []}
    when = {"g_eq": [], "g_ineq": []}

    def affine(control=True):
        a, b, c, d = r.uniform(-1, 1, nu) * control, r.uniform(-1, 1, len(cert)), r.uniform(-1, 1, nth) * control, r.uniform(-1, 1) * control
        e = ca.dot(dm(a), u) + d * t if control else ca.SX(0.3)
        for i, j in enumerate(cert):
            e = e + b[i] * p[j] ** 2
        for j in range(nth if control else 0):
            e = e + c[j] * th[j]
        return e, lambda U, P, T, tt: a @ U + d * tt + b @ P[cert] ** 2 + c @ T + (0.0 if control else 0.3)

    for k, fn in (("g_eq", pr.include_time_equality), ("g_ineq", pr.include_time_inequality)):
        for _ in range(ctx.choice([0, 1, 2])):
            e, f = affine()
            w = ctx.choice(["default", "end", "start"])
            fn(e, when=w)
            cons[k].append(f)
            when[k].append(w)
    for k, fn in (("h", pr.include_equality), ("h_final", pr.include_final_time_equality), ("h_initial", pr.include_initial_time_equality)):
        for _ in range(ctx.choice([0, 0, 1, 2])):
            e, f = affine(False)
            fn(e)
            cons[k].append(f)
    n_unc = len(unc) + len(uic)
    order = ctx.randint(1, 2)
    ns = comb(n_unc + order, order)
    ctx.note("nx=%d nu=%d ny=%d np=%d nth=%d unc=%s uic=%s dec=%s tdec=%s cons=%s" % (nx, nu, ny, npar, nth, unc, uic, dec, tdec, {k: len(w) for k, w in cons.items()}))
    q = PCEConverter(pr, pc_order=order).convert_socp_to_ocp_with_pce()
    ctx.event("converted")
    C = "carried-over"
    rep = lambda b, extra: np.concatenate([np.append(b, extra)] * ns) if len(extra) or len(b) else np.zeros(0)
    ctx.close(v(q.x_min), rep(val["x_min"], [-np.inf]), C, "x_min", atol=0)
    ctx.close(v(q.x_max), rep(val["x_max"], [np.inf]), C, "x_max", atol=0)
    ctx.close(v(q.y_min), rep(val["y_min"], []), C, "y_min", atol=0)
    ctx.close(v(q.y_max), rep(val["y_max"], []), C, "y_max", atol=0)
    for k in ("u_min", "u_max", "delta_u_min", "delta_u_max"):
        ctx.close(v(getattr(q, k)), val[k], C, k, atol=0)
    for k, w in (("u_guess", val["u_guess"]), ("last_u", val["last_u"]), ("y_guess", None if val["y_guess"] is None else rep(val["y_guess"], []))):
        g = getattr(q, k)
        if ctx.eq(g is None, w is None, C, k + " present") and w is not None:
            ctx.close(v(g), w, C, k, atol=0)
    ctx.close(v(q.x_0), rep(x0, [0.0]), C, "x_0", atol=0)
    ctx.close([float(q.t_0), float(q.t_f)], [t0, tf], C, "horizon", atol=0)
    names = lambda s: [s[i].name() for i in range(s.numel())]
    ctx.eq(names(q.model.u), names(u), C, "controls")
    ctx.eq(names(q.model.p)[: len(cert)], [names(p)[i] for i in cert], C, "certain parameters")
    ctx.eq(names(q.p_opt)[: len(dec)], [names(p)[i] for i in dec], C, "decision parameters")
    ctx.eq(names(q.theta_opt)[: len(tdec)], [names(th)[i] for i in tdec], C, "decision thetas")
    for a, b, n in ((q.p_opt_min, plb, len(dec)), (q.p_opt_max, pub, len(dec)), (q.theta_opt_min, tlb, len(tdec)), (q.theta_opt_max, tub, len(tdec))):
        ctx.close(v(a)[:n], b, C, "bounds of the decisions", atol=0)
    ctx.eq((q.n_p_opt, q.p_opt_min.numel(), q.p_opt_max.numel()), (len(dec) + ns + 2,) * 3, C, "number of decision parameters")
    for k in ("g_eq", "g_ineq"):
        ctx.eq(list(getattr(q, "time_" + k))[: len(when[k])], when[k], C, "when of " + k)
    U, P, T, tt = r.uniform(-1, 1, nu), r.uniform(-1, 1, npar), r.uniform(-1, 1, nth), 0.7
    for k in ("g_eq", "g_ineq", "h"):
        e = getattr(q, k)
        n = len(cons[k])
        if not ctx.eq(int(e.numel()) >= n, True, C, k):
            continue
        if n:
            e = e[:n]
            fn = ca.Function("f", [q.model.u, q.model.p, q.model.theta, q.model.t_sym], [e])
            pv = np.concatenate([P[cert], np.zeros(q.model.n_p - len(cert))])
            tv = np.concatenate([T, np.zeros(q.model.n_theta - nth)])
            ctx.close(v(fn(dm(U), dm(pv), dm(tv), tt)), [f(U, P, T, tt) for f in cons[k]], C, k)
    # those at the ends of the horizon hold together with the conditions of the samples
    for k, others in (("h_initial", ns * (nx + 1)), ("h_final", None)):
        e = getattr(q, k)
        n = len(cons[k])
        if k == "h_initial":
            if not ctx.eq(int(e.numel()), others + n, C, "number of initial conditions"):
                continue
            e = e[others:]
        else:
            e = e[:n]
        if n:
            fn = ca.Function("f", [q.model.p], [e])
            pv = np.concatenate([P[cert], np.zeros(q.model.n_p - len(cert))])
            ctx.close(v(fn(dm(pv))), [f(U, P, T, tt) for f in cons[k]], C, k)
