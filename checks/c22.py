import casadi as ca
import numpy as np
import scipy.linalg
from scipy.integrate import solve_ivp

from vfw.core import arr, scenario
from vfw.env import dm
from vfw.freeze import Frozen
from yaocptool.estimation import ExtendedKalmanFilter, PCEKalmanFilter, UnscentedKalmanFilter
from yaocptool.estimation.ideal_estimator import IdealEstimator
from yaocptool.modelling import SystemModel

RULE = (
    "Random systems, time-varying and with dynamics that depend on control and parameters (ordinary and "
    "differential-algebraic; linear in the state, and nonlinear for the extended and unscented filters), are tracked for several samples with random measurement equations; mean and covariance returned "
    "and recorded after every sample are compared with the Kalman recursions computed in numpy from the matrix exponential of "
    "the system, its Jacobians at the prediction, or its sigma points."
)
ASSUMPTIONS = ["numpy/scipy linear algebra as reference", "integrators run with their default tolerances: relative error below 2e-3"]
TOL = dict(rtol=4e-3, atol=2e-3)


def v(d):
    return np.array(ca.DM(d).full(), float).ravel()


def full(d):
    return np.array(ca.DM(d).full(), float)


def spd(ctx, n, scale):
    L = np.tril(ctx.rng.uniform(-0.8, 0.8, (n, n)))
    for i in range(n):
        L[i, i] = ctx.uniform(0.5, 1.0)
    return scale * L @ L.T


class System:
    def __init__(self, ctx, dae=None, nonlinear=False):
        r = ctx.rng
        self.n, self.nu, self.np_ = ctx.randint(1, 3), ctx.randint(1, 2), ctx.choice([0, 0, 1, 2])
        self.nth = ctx.choice([0, 0, 0, 1])
        self.ny = ctx.choice([0, 0, 1, 2]) if dae is None else (ctx.randint(1, 2) if dae else 0)
        n, ny = self.n, self.ny
        self.A = r.uniform(-0.6, 0.6, (n, n)) - 0.5 * np.eye(n)
        self.N = r.uniform(-0.3, 0.3, (n, n)) * ctx.choice([0, 1])  # times the first control
        self.Np = r.uniform(-0.3, 0.3, (n, n)) * ctx.choice([0, 1])  # times the first parameter
        self.B = r.uniform(-1, 1, (n, self.nu))
        self.D = r.uniform(-0.5, 0.5, (n, self.np_))
        self.F = r.uniform(-0.5, 0.5, (n, self.nth))
        self.c, self.w = r.uniform(-0.5, 0.5, n) * ctx.choice([0, 1]), r.uniform(0.5, 2)
        self.E = r.uniform(-0.4, 0.4, (n, ny))
        self.G, self.H = r.uniform(-1, 1, (ny, n)), r.uniform(-0.5, 0.5, (ny, self.nu))
        self.s = r.uniform(0.5, 1.5, ny) * r.choice([-1, 1], ny)
        nl = 1 if nonlinear else 0
        self.a, self.b = nl * r.uniform(-0.4, 0.4, n), r.uniform(0.5, 1.5, n)  # sin(b*x) in the ode
        self.q = nl * r.uniform(-0.4, 0.4, ny)  # square of the first state in the algebraic equations
        m = SystemModel(name="est")
        self.m = m
        x = m.create_state("x", n)
        u = m.create_control("u", self.nu)
        p = m.create_parameter("p", self.np_) if self.np_ else None
        th = m.create_theta("th", self.nth) if self.nth else None
        ode = ca.mtimes(dm(self.A) + dm(self.N) * u[0], x) + ca.mtimes(dm(self.B), u) + dm(self.c) * ca.sin(self.w * m.t)
        if nl:
            ode += dm(self.a) * ca.sin(dm(self.b) * x)
        if self.np_:
            ode += ca.mtimes(dm(self.D), p) + ca.mtimes(dm(self.Np) * p[0], x)
        if self.nth:
            ode += ca.mtimes(dm(self.F), th)
        k = {}
        if ny:
            y = m.create_algebraic_variable("y", ny)
            ode += ca.mtimes(dm(self.E), y)
            k["alg"] = dm(self.s) * (y - ca.mtimes(dm(self.G), x) - ca.mtimes(dm(self.H), u) - dm(self.q) * x[0] ** 2)
        m.include_equations(ode=ode, **k)
        self.p, self.th = r.uniform(-1, 1, self.np_), r.uniform(-1, 1, self.nth)

    def mats(self, u):
        A = self.A + self.N * u[0]
        if self.np_:
            A = A + self.Np * self.p[0]
        return A

    def f(self, t, x, u):
        d = self.a * np.sin(self.b * x) + self.mats(u) @ x + self.B @ u + self.c * np.sin(self.w * t) + self.D @ self.p + self.F @ self.th
        return d + self.E @ self.y(x, u) if self.ny else d

    def y(self, x, u):
        return self.G @ x + self.H @ u + self.q * x[0] ** 2

    def jac(self, x, u):
        """Jacobians of the ode in x and of the algebraic variables in x."""
        G = self.G.copy()
        if self.ny:
            G[:, 0] += 2 * self.q * x[0]
        return self.mats(u) + np.diag(self.a * self.b * np.cos(self.b * x)), G

    def step(self, t, h, x, u):
        return solve_ivp(self.f, (t, t + h), x, rtol=1e-10, atol=1e-12, args=(u,)).y[:, -1]


class Case:
    def __init__(self, ctx, dae=None, quad=False, nonlinear=False):
        self.ctx = ctx
        s = self.s = System(ctx, dae, nonlinear)
        r = ctx.rng
        self.ts = ctx.choice([0.1, 0.3, 0.5, 1.0])
        self.t = ctx.choice([0.0, 0.0, 1.2])
        self.nm = ctx.randint(1, 3)
        self.C = r.uniform(-1, 1, (self.nm, s.n + s.ny))
        self.Dm = r.uniform(-1, 1, (self.nm, s.nu)) if ctx.chance(0.4) else np.zeros((self.nm, s.nu))
        self.Rv, self.Rn = spd(ctx, s.n, 0.1), spd(ctx, self.nm, 0.1)
        if ctx.chance(0.2):
            self.Rv = np.zeros((s.n, s.n))
        self.x, self.P = r.uniform(-1, 1, s.n), spd(ctx, s.n, 0.4)
        self.quad = np.zeros(self.nm)
        self.wq = r.uniform(-1, 1, s.n)
        if quad:
            self.quad = r.uniform(-0.5, 0.5, self.nm)
        kw = dict(t_s=self.ts, t=self.t, x_mean=dm(self.x), p_k=dm(self.P), r_v=dm(self.Rv), r_n=dm(self.Rn), verbosity=0)
        m = s.m
        self.hf = quad or ctx.chance(0.3)
        if self.hf:
            x, y, u = ca.SX.sym("x", s.n), ca.SX.sym("y", s.ny), ca.SX.sym("u", s.nu)
            h = ca.mtimes(dm(self.C), ca.vertcat(x, y)) + ca.mtimes(dm(self.Dm), u) + dm(self.quad) * ca.dot(dm(self.wq), x) ** 2
            kw["h_function"] = ca.Function("h", [x, y, u], [h])
        else:
            kw["c_matrix"] = dm(self.C)
            if self.Dm.any():
                kw["d_matrix"] = dm(self.Dm)
        if s.np_:
            kw["p"] = dm(s.p)
        if s.nth:
            kw["theta"] = {0: dm(s.th)}
        if s.ny:
            kw["y_guess"] = dm(s.y(self.x, np.zeros(s.nu)))
        self.kw = kw
        self.log = []

    def make(self, cls, **more):
        self.fr = Frozen(self.ctx, **{k: q for k, q in self.kw.items() if isinstance(q, (ca.DM, dict))})
        self.e = cls(self.s.m, **self.kw, **more)
        self.aug = None
        return self.e

    def h(self, x, y, u):
        return self.C @ np.concatenate([x, y]) + self.Dm @ u + self.quad * (self.wq @ x) ** 2

    def ekf(self, z, u):
        """Extended Kalman filter on [x; y] (Mandela et al. 2009)."""
        s = self.s
        n, ny = s.n, s.ny
        if self.aug is None:
            self.aug = np.eye(n + ny)
            self.aug[:n, :n] = self.P
        xp = s.step(self.t, self.ts, self.x, u)
        yp = s.y(xp, u) if ny else np.zeros(0)
        A, G = s.jac(xp, u)
        Aa = np.block([[A, s.E], [G @ A, G @ s.E]]) if ny else A
        Ph = scipy.linalg.expm(Aa * self.ts)
        Ga = np.vstack([np.eye(n), G]) if ny else np.eye(n)
        Pp = Ph @ self.aug @ Ph.T + Ga @ self.Rv @ Ga.T
        H = self.C.copy()
        H[:, :n] += 2 * np.outer(self.quad, self.wq) * (self.wq @ xp)
        K = Pp @ H.T @ np.linalg.inv(H @ Pp @ H.T + self.Rn)
        xa = np.concatenate([xp, yp]) + K @ (z - self.h(xp, yp, u))
        self.aug = (np.eye(n + ny) - K @ H) @ Pp
        self.x, self.P = xa[:n], self.aug[:n, :n]
        self.ycorr, self.Py = xa[n:], self.aug[n:, n:]
        self.t += self.ts
        return xa

    def moments(self, z, u):
        """Filters that propagate the distribution through the system: the gain comes from the propagated moments."""
        s = self.s
        n, ny = s.n, s.ny
        xp = s.step(self.t, self.ts, self.x, u)
        A = s.mats(u) + (s.E @ s.G if ny else 0)
        Ph = scipy.linalg.expm(A * self.ts)
        P0 = Ph @ self.P @ Ph.T
        J = np.vstack([np.eye(n), s.G]) if ny else np.eye(n)
        yp = s.y(xp, u) if ny else np.zeros(0)
        CJ = self.C @ J
        mu, c = self.wq @ xp, P0 @ self.wq
        s2 = self.wq @ c
        zp = self.C @ np.concatenate([xp, yp]) + self.Dm @ u + self.quad * (mu ** 2 + s2)
        Pxz = P0 @ CJ.T + 2 * mu * np.outer(c, self.quad)
        Cc = 2 * mu * np.outer(CJ @ c, self.quad)
        Pzz = CJ @ P0 @ CJ.T + Cc + Cc.T + np.outer(self.quad, self.quad) * (2 * s2 ** 2 + 4 * mu ** 2 * s2) + self.Rn
        K = Pxz @ np.linalg.inv(Pzz)
        self.x = xp + K @ (z - zp)
        self.P = P0 + self.Rv - K @ Pzz @ K.T
        if ny:
            Paug = J @ P0 @ J.T
            Ka = J @ P0 @ CJ.T @ np.linalg.inv(Pzz)
            self.ycorr = yp + (Ka @ (z - zp))[n:]
            self.Py = (Paug - Ka @ Pzz @ Ka.T)[n:, n:]
        self.t += self.ts
        return np.concatenate([self.x, self.ycorr]) if ny else self.x

    def unscented(self, z, u):
        """Moments from the 2n+1 symmetric sigma points (alpha 1e-3, beta 2, kappa 0)."""
        s = self.s
        n = s.n
        lam = 1e-6 * n
        S = np.linalg.cholesky((n + lam) * (self.P + self.P.T) / 2)
        pts = [self.x] + [self.x + S[:, i] for i in range(n)] + [self.x - S[:, i] for i in range(n)]
        wm = np.full(2 * n + 1, 0.5 / (n + lam))
        wm[0] = lam / (n + lam)
        wc = wm.copy()
        wc[0] += 1 - 1e-6 + 2
        xs = [s.step(self.t, self.ts, q, u) for q in pts]
        ys = [s.y(q, u) if s.ny else np.zeros(0) for q in xs]
        X = np.array([np.concatenate(q) for q in zip(xs, ys)])
        Z = np.array([self.h(a, b, u) for a, b in zip(xs, ys)])
        xm, zm = wm @ X, wm @ Z
        dx, dz = X - xm, Z - zm
        Pxx, Pzz, Pxz = (dx.T * wc) @ dx, (dz.T * wc) @ dz + self.Rn, (dx.T * wc) @ dz
        Pxx[:n, :n] += self.Rv
        K = Pxz @ np.linalg.inv(Pzz)
        xa, Pa = xm + K @ (z - zm), Pxx - K @ Pzz @ K.T
        self.x, self.P = xa[:n], Pa[:n, :n]
        self.ycorr, self.Py = xa[n:], Pa[n:, n:]
        self.t += self.ts
        return xa

    def run(self, rule, record):
        ctx, s = self.ctx, self.s
        N = ctx.randint(1, 4)
        X, Ps, M, Y, Py = [], [], [], [], []
        times = []
        for k in range(N):
            u = ctx.rng.uniform(-1, 1, s.nu)
            z = ctx.rng.uniform(-1.5, 1.5, self.nm)
            tk = round(self.t + self.ts, 6)
            times.append(tk)
            a = dict(t_k=tk, y_k=dm(z), u_k=dm(u))
            f = Frozen(ctx, y_k=a["y_k"], u_k=a["u_k"])
            x, P = self.e.estimate(**a) if ctx.chance() else self.e.estimate(tk, a["y_k"], a["u_k"])
            f.verify("estimate")
            xa = rule(z, u)
            what = "after sample %d" % (k + 1)
            ctx.eq((ca.DM(x).shape, ca.DM(P).shape), ((s.n, 1), (s.n, s.n)), "estimate-shape", what)
            ctx.close(v(x), self.x, "estimated-mean", what, **TOL)
            ctx.close(full(P), self.P, "estimated-covariance", what, **TOL)
            ctx.close(full(P), full(P).T, "covariance-symmetric", what, rtol=1e-3, atol=1e-4)
            ctx.check(np.linalg.eigvalsh((full(P) + full(P).T) / 2).min() > -1e-3, "covariance-non-negative", what)
            ctx.close(v(self.e.x_mean), self.x, "estimate-kept", what, **TOL)
            ctx.close(full(self.e.p_k), self.P, "estimate-kept", what, **TOL)
            X.append(self.x)
            Ps.append(self.P.ravel(order="F"))
            M.append(self.h(xa[: s.n], xa[s.n :], u))
            if s.ny:
                Y.append(self.ycorr)
                Py.append(self.Py.ravel(order="F"))
        want = {"x": X, "P": Ps}
        if record:
            want["meas"] = M
            if s.ny:
                want.update(y=Y, P_y=Py)
        for k, w in want.items():
            e = self.e.dataset.data[k]
            ctx.close(v(e.time), times, "estimates-recorded", "times of %s" % k)
            ctx.close(full(e.values).T, np.array(w), "estimates-recorded", k, **TOL)
        self.fr.verify("estimator")
        ctx.event("samples", N)


def describe(ctx, c):
    ctx.note("n=%d ny=%d nu=%d np=%d nth=%d nm=%d h=%s quad=%s Rv=%s" % (c.s.n, c.s.ny, c.s.nu, c.s.np_, c.s.nth, c.nm, c.hf, c.quad.any(), c.Rv.any()))


@scenario("C22", quick=60, thorough=500)
def extended(ctx):
    c = Case(ctx, quad=ctx.chance(0.4), nonlinear=ctx.chance(0.5))
    describe(ctx, c)
    c.make(ExtendedKalmanFilter)
    c.run(c.ekf, True)


@scenario("C22", quick=50, thorough=400)
def unscented(ctx):
    c = Case(ctx)
    describe(ctx, c)
    c.make(UnscentedKalmanFilter)
    c.run(c.moments, True)


@scenario("C22", quick=50, thorough=400)
def unscented_nonlinear(ctx):
    c = Case(ctx, quad=ctx.chance(0.6), nonlinear=ctx.chance(0.7))
    describe(ctx, c)
    c.make(UnscentedKalmanFilter)
    c.run(c.unscented, True)


@scenario("C22", quick=40, thorough=300)
def polynomial_chaos(ctx):
    quad = ctx.chance(0.5)
    c = Case(ctx, quad=quad)
    order = ctx.randint(2 if quad else 1, 3)
    from math import comb

    n = comb(c.s.n + order, order)
    more = dict(pc_order=order)
    if ctx.chance(0.5):
        more["n_samples"] = n + ctx.randint(0, 5)
        if ctx.chance(0.3):
            with ctx.raises("too-few-samples-refused", "%d samples for %d polynomials" % (n - 1, n), ValueError):
                PCEKalmanFilter(c.s.m, **c.kw, pc_order=order, n_samples=n - 1)
    describe(ctx, c)
    ctx.note(more)
    c.make(PCEKalmanFilter, **more)
    c.run(c.moments, False)


@scenario("C22", quick=30, thorough=60)
def incomplete(ctx):
    """What is missing is refused; the ideal estimator hands the state on."""
    c = Case(ctx, dae=ctx.chance(0.3))
    cls = ctx.choice([ExtendedKalmanFilter, UnscentedKalmanFilter, PCEKalmanFilter])
    kw = dict(c.kw)
    what = ctx.turn(["measurement", "x_mean", "p_k", "y_guess"])
    if what == "measurement":
        for k in ("c_matrix", "h_function", "d_matrix"):
            kw.pop(k, None)
    elif what == "y_guess" and (not c.s.ny or cls is not ExtendedKalmanFilter):
        what = "p_k"
    if what != "measurement":
        kw.pop(what)
    ctx.note(cls.__name__, what)
    with ctx.raises("incomplete-estimator-refused", "%s without %s" % (cls.__name__, what)):
        e = cls(c.s.m, **kw)
        e.estimate(c.ts, dm(np.zeros(c.nm)), dm(np.zeros(c.s.nu)))
    n = ctx.randint(1, 4)
    z = ctx.rng.uniform(-1, 1, n + ctx.randint(0, 3))
    x, P = IdealEstimator(t_s=0.1, t_0=0.0, n_x=n).estimate(0.3, dm(z), dm([0.0]))
    ctx.close(v(x), z[:n], "ideal-estimator", "state")
    ctx.close(full(P), np.zeros((n, n)), "ideal-estimator", "covariance")
    # rank-one update of a Cholesky factor
    A = ctx.rng.uniform(-1, 1, (n, n))
    R = np.linalg.cholesky(A @ A.T + 2 * np.eye(n)).T
    w = ctx.rng.uniform(-0.5, 0.5, n) / n
    sign = ctx.choice(["+", "-"])
    new = np.array(UnscentedKalmanFilter.cholupdate(R.copy(), w.copy(), sign), float)
    ctx.close(new.T @ new, R.T @ R + (1 if sign == "+" else -1) * np.outer(w, w), "cholesky-update", "sign %s" % sign, atol=1e-9)
    with ctx.raises("cholesky-update", "unknown sign", ValueError):
        UnscentedKalmanFilter.cholupdate(R.copy(), w.copy(), "*")
