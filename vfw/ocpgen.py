"""Random optimal control problems with an independent numerical twin.

`Plan` draws a system, a cost and constraints that a known control satisfies,
builds the problem through the public interface, and can evaluate everything
(trajectory, cost, constraints) for any decision in plain numpy: collocation on
the Radau nodes (Newton) or a fine Runge-Kutta integration per element."""
import casadi as ca
import numpy as np
import scipy.optimize

from vfw.env import dm
from yaocptool.modelling import OptimalControlProblem, SystemModel

INF = np.inf


def radau(d):
    c = np.zeros(d + 1)
    c[d - 1], c[d] = 1.0, -1.0
    r = np.sort(np.real(np.polynomial.legendre.legroots(c)))
    return (1 + r) / 2


def lagrange(nodes):
    """Coefficients (rows: basis polynomials, highest power first)."""
    out = []
    for j, a in enumerate(nodes):
        others = [b for i, b in enumerate(nodes) if i != j]
        c = np.poly(others) if others else np.array([1.0])
        out.append(c / np.prod([a - b for b in others]) if others else c)
    return out


class Plan:
    def __init__(self, ctx, **o):
        self.ctx = ctx
        r = ctx.rng
        ch = ctx.chance
        g = lambda key, default: o[key] if key in o else default()
        self.scheme = g("scheme", lambda: ctx.choice(["collocation", "collocation", "multiple-shooting"]))
        ms = self.scheme == "multiple-shooting"
        self.fe = g("fe", lambda: ctx.choice([1, 2, 3, 4, 5, 2, 3, 4, 5, 7] * 2 + [11, 12]))
        many = self.fe > 9
        self.deg = g("deg", lambda: ctx.choice([1, 2] if many else [1, 2, 3, 3, 4, 1, 2, 3, 4, 5, 6]))
        self.dc = g("dc", lambda: ctx.choice([1, 1, 2, 3]))
        if not ms:
            # a control polynomial richer than the collocation polynomial is not determined by the problem
            self.dc = min(self.dc, self.deg)
        self.n, self.nu = g("n", lambda: ctx.randint(1, 2 if many else 3)), g("nu", lambda: ctx.randint(1, 2))
        self.ny = g("ny", lambda: ctx.choice([0, 0, 1, 2]))
        self.np, self.nth = g("np", lambda: ctx.choice([0, 0, 1, 2, 0, 0, 1, 2, 3])), g("nth", lambda: ctx.choice([0, 0, 1, 2, 0, 0, 1, 2, 3]))
        # unit of time: the same problem in seconds, hours or microseconds
        self.ts = g("ts", lambda: ctx.choice([1.0] * 10 + [1e-4, 3600.0]))
        self.t0 = self.ts * g("t0", lambda: ctx.choice([0.0, 0.0, 0.7, -0.4]))
        self.tf = self.t0 + self.ts * g("T", lambda: round(ctx.uniform(0.6, 2.0), 3))
        self.nl = g("nl", lambda: ctx.choice([0.0, 0.3]))
        n, nu, ny = self.n, self.nu, self.ny
        self.A = r.uniform(-1, 1, (n, n)) - 0.4 * np.eye(n)
        self.B = r.uniform(0.3, 1.2, (n, nu)) * r.choice([-1, 1], (n, nu))
        self.D, self.F = r.uniform(-1, 1, (n, self.np)), r.uniform(-1, 1, (n, self.nth))
        self.E = r.uniform(-0.5, 0.5, (n, ny))
        self.G, self.H = r.uniform(-1, 1, (ny, n)), r.uniform(-1, 1, (ny, nu))
        self.Gp, self.Gth = r.uniform(-1, 1, (ny, self.np)), r.uniform(-1, 1, (ny, self.nth))
        self.k = r.uniform(-0.5, 0.5, ny)
        self.c, self.w = r.uniform(-0.5, 0.5, n), r.uniform(0.5, 2)
        # cost
        pd = lambda m, s=0.3: (lambda L: L @ L.T + s * np.eye(m))(r.uniform(-0.7, 0.7, (m, m)))
        self.Q, self.R = pd(n), pd(nu, 0.4)
        if g("diagR", lambda: False):
            self.R = np.diag(r.uniform(0.5, 1.5, nu))
        self.xr = r.uniform(-1, 1, n)
        self.W = g("W", lambda: r.uniform(0.0, 0.5, ny) if ch() else np.zeros(ny))
        self.lt = g("lt", lambda: ctx.uniform(-0.3, 0.3) if ch() else 0.0)
        # cost of the control that depends on time and parameters
        k = 0.25 * g("cross", lambda: ctx.choice([0.0, 1.0]))
        self.Ut, self.Up, self.Uth = k * r.uniform(-1, 1, nu), k * r.uniform(-1, 1, (nu, self.np)), k * r.uniform(-1, 1, (nu, self.nth))
        self.Qv = g("Qv", lambda: pd(n) if ch() else np.zeros((n, n)))
        self.vp = g("vp", lambda: r.uniform(0.2, 1, self.np) if self.np and ch() else np.zeros(self.np))
        self.Sx = g("Sx", lambda: r.uniform(0, 0.5, n) if ch(0.4) else np.zeros(n))
        self.Su = g("Su", lambda: r.uniform(0, 0.5, nu) if self.Sx.any() else np.zeros(nu))
        self.St = g("St", lambda: ctx.uniform(-0.3, 0.3) if self.Sx.any() and ch() else 0.0)
        # decisions among the parameters
        self.po = sorted(ctx.sample(range(self.np), ctx.randint(0, self.np))) if g("opt", lambda: True) else []
        self.to = sorted(ctx.sample(range(self.nth), ctx.randint(0, self.nth))) if g("opt", lambda: True) else []
        if ch():
            self.po, self.to = ctx.perm(self.po), ctx.perm(self.to)
        # how far the constraints are from the nominal decision: the closer, the more of them are active
        self.margin = g("margin", lambda: ctx.choice([1.0, 1.0, 0.2]))
        self.wp = r.uniform(0.3, 1)  # decisions are penalised, so that the solution is isolated
        if self.po and self.vp[self.po].any():
            # the final cost couples a decision with a state: convex enough to be bounded from below
            self.Qv = self.Qv + 1.5 * (self.vp[self.po] ** 2).sum() / (4 * self.wp) * np.eye(n)
        # data and the nominal decision
        self.x0 = r.uniform(-1, 1, n)
        self.p = r.uniform(-1, 1, self.np)
        self.th = [r.uniform(-1, 1, self.nth) for _ in range(self.fe)]
        self.uc = r.uniform(-0.5, 0.5, nu)
        self.tau_u = radau(self.dc) if self.dc > 1 else np.array([0.0])
        self.lag_u = lagrange(self.tau_u)
        tau = radau(self.deg)
        self.tau = tau
        nodes = np.concatenate([[0.0], tau])
        self.lag_x, self.lag_y = lagrange(nodes), lagrange(tau)
        self.Dm = np.array([[np.polyval(np.polyder(c), s) if len(c) > 1 else 0.0 for c in self.lag_x] for s in tau])
        self.bw = np.array([np.diff(np.polyval(np.polyint(c), [0.0, 1.0]))[0] for c in self.lag_y])
        self.tb = self.t0 + (self.tf - self.t0) / self.fe * np.arange(self.fe + 1)
        self.dt = (self.tf - self.t0) / self.fe
        self.near = None
        self.free0 = []
        if g("free0", lambda: ch(0.15)) and n > 1:
            self.free0 = [ctx.randint(0, n - 1)]
        self.build_model()
        self.constraints(g)
        self.build_problem()

    # ------------------------------------------------------------------ system
    def build_model(self):
        ctx = self.ctx
        m = SystemModel(name="sys")
        self.m = m
        # names that only differ in case, or that contain each other, are different names
        N = dict(zip(["x", "u", "p", "th", "y"], ctx.choice([["x", "u", "p", "th", "y"], ["x", "u", "p", "th", "y"], ["x", "X", "P", "th", "Y"], ["a", "aa", "p", "pp", "A"]])))
        mk = {
            "x": (self.n, lambda: m.create_state(N["x"], self.n)),
            "u": (self.nu, lambda: m.create_control(N["u"], self.nu)),
            "p": (self.np, lambda: m.create_parameter(N["p"], self.np)),
            "theta": (self.nth, lambda: m.create_theta(N["th"], self.nth)),
            "y": (self.ny, lambda: m.create_algebraic_variable(N["y"], self.ny)),
        }
        for q in ctx.perm(list(mk)):
            if mk[q][0]:
                mk[q][1]()
        x, u, p, th, y, t = m.x, m.u, m.p, m.theta, m.y, m.t if self.ts == 1 else m.t / self.ts
        mt = lambda M, v: ca.mtimes(dm(M), v) if M.size else 0
        ode = mt(self.A, x) + dm(self.c) * ca.sin(self.w * t) - self.nl * x ** 3
        ode += mt(self.B, u) + mt(self.D, p) + mt(self.F, th)
        kw = {}
        if self.ny:
            ode += mt(self.E, y)
            kw["alg"] = y - (mt(self.G, x) + mt(self.H, u) + mt(self.Gp, p) + mt(self.Gth, th) + dm(self.k) * t)
        m.include_equations(ode=ode if self.ts == 1 else ode / self.ts, **kw)

    def yv(self, t, x, u, p, th):
        return self.G @ x + self.H @ u + self.Gp @ p + self.Gth @ th + self.k * t / self.ts

    def f(self, t, x, u, p, th):
        d = self.A @ x + self.c * np.sin(self.w * t / self.ts) - self.nl * x ** 3 + self.B @ u + self.D @ p + self.F @ th
        if self.ny:
            d = d + self.E @ self.yv(t, x, u, p, th)
        return d / self.ts

    def jac(self, x):
        return (self.A - np.diag(3 * self.nl * x ** 2) + (self.E @ self.G if self.ny else 0)) / self.ts

    def L(self, t, x, u, p, th):
        e = x - self.xr
        v = e @ self.Q @ e + u @ self.R @ u + self.lt * t / self.ts * x[0]
        if self.ny:
            v += self.W @ (self.yv(t, x, u, p, th) ** 2)
        if self.to:
            v += self.wp * (th[self.to] ** 2).sum()
        return (v + u @ self.cu(t, p, th)) / self.ts

    def cu(self, t, p, th):
        return self.Ut * t / self.ts + self.Up @ p + self.Uth @ th

    def V(self, x, p):
        e = x - self.xr
        return e @ self.Qv @ e + (self.vp @ p) * x[0] + (self.wp * (p[self.po] ** 2).sum() if self.po else 0.0)

    def S(self, t, x, u):
        return self.Sx @ (x ** 2) + self.Su @ (u ** 2) + self.St * t / self.ts * x[0]

    def u_at(self, uk, s):
        """uk: (dc, nu) control parameters of an element; s in [0, 1]"""
        if self.dc == 1:
            return uk[0]
        return sum(np.polyval(c, s) * uk[j] for j, c in enumerate(self.lag_u))

    # -------------------------------------------------------------- simulation
    def element(self, el, x, uk, p, th, near=None):
        """Stage values of one element: x (deg, n) / end value, integral of L."""
        t = self.tb[el]
        if self.scheme == "collocation":
            d, n = self.deg, self.n
            us = [self.u_at(uk, s) for s in self.tau]
            ts = t + self.dt * self.tau
            # implicit equations can have several solutions: the one near the given stage values, if any
            X = np.tile(x, (d, 1)) if near is None else np.array(near, float)
            for _ in range(40):
                F = np.array([self.f(ts[j], X[j], us[j], p, th) for j in range(d)])
                res = self.Dm[:, 1:] @ X + np.outer(self.Dm[:, 0], x) - self.dt * F
                J = np.kron(self.Dm[:, 1:], np.eye(n))
                for j in range(d):
                    J[j * n : (j + 1) * n, j * n : (j + 1) * n] -= self.dt * self.jac(X[j])
                dx = np.linalg.solve(J, -res.ravel()).reshape(d, n)
                X = X + dx
                if np.abs(dx).max() < 1e-13 * (1 + np.abs(X).max()):
                    break
            Lj = [self.L(ts[j], X[j], us[j], p, th) for j in range(d)]
            return X, self.dt * (self.bw @ np.array(Lj))
        N = 12
        h = self.dt / N
        z = np.append(x, 0.0)

        def rhs(s, z):
            tt, u = t + s, self.u_at(uk, s / self.dt)
            return np.append(self.f(tt, z[:-1], u, p, th), self.L(tt, z[:-1], u, p, th))

        for i in range(N):
            s = i * h
            k1 = rhs(s, z)
            k2 = rhs(s + h / 2, z + h / 2 * k1)
            k3 = rhs(s + h / 2, z + h / 2 * k2)
            k4 = rhs(s + h, z + h * k3)
            z = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return z[:-1][None, :], z[-1]

    def simulate(self, u, p, th, x0):
        """u: (fe, dc, nu).  Points: x at the start of each element and at its stages."""
        X, cost = [], 0.0
        x = np.array(x0, float)
        for el in range(self.fe):
            st, c = self.element(el, x, u[el], p, th[el], None if self.near is None else self.near[el])
            X.append(np.vstack([x[None, :], st]))
            cost += c
            x = st[-1]
        J = cost + self.V(x, p) + sum(self.S(self.tb[e + 1], X[e][-1], self.u_at(u[e], 1.0)) for e in range(self.fe))
        return X, cost, J

    # ------------------------------------------------------------- constraints
    def constraints(self, g):
        """Constraints the nominal decision satisfies (inequalities strictly)."""
        ctx, r = self.ctx, self.ctx.rng
        ch = ctx.chance
        ms = self.scheme == "multiple-shooting"
        u = np.tile(self.uc, (self.fe, self.dc, 1))
        X, _, _ = self.simulate(u, self.p, self.th, self.x0)
        allx = np.vstack(X)
        Y = np.array([self.yv(self.tb[e] + s * self.dt, X[e][min(j, len(X[e]) - 1)], self.uc, self.p, self.th[e])
                      for e in range(self.fe) for j, s in enumerate([0.0] + (list(self.tau) if not ms else [1.0]))]).reshape(-1, self.ny) if self.ny else np.zeros((1, 0))
        box = lambda v, prob, a=0.05, b=0.6: (
            np.where(r.random(v.shape[1]) < prob, v.min(0) - self.margin * r.uniform(a, b, v.shape[1]), -INF),
            np.where(r.random(v.shape[1]) < prob, v.max(0) + self.margin * r.uniform(a, b, v.shape[1]), INF),
        )
        plain = box

        def box(v, prob, *ab):
            # now and then a limit at zero
            lo, hi = plain(v, prob, *ab)
            for i in range(v.shape[1]):
                if prob and ch(0.2):
                    if v[:, i].min() > 0.02:
                        lo[i] = 0.0
                    elif v[:, i].max() < -0.02:
                        hi[i] = 0.0
            return lo, hi

        con = g("con", lambda: True)
        self.xlb, self.xub = box(allx, 0.4 if con and ch() else 0.0)
        self.ylb, self.yub = box(Y, 0.3 if con and ch() else 0.0)
        ub = g("ubox", lambda: ch(0.6))
        self.ulb, self.uub = box(self.uc[None, :], 0.6 if ub else 0.0, 0.05, 0.5)
        self.dlb = self.dub = None
        self.last_u = None
        if g("du", lambda: self.dc == 1 and con and ch(0.35)):
            m1 = r.random(self.nu) < 0.7
            m2 = r.random(self.nu) < 0.7
            if not (m1.any() or m2.any()):
                m1[0] = True
            self.dlb = np.where(m1, -(0.04 + self.margin * r.uniform(0.01, 0.26, self.nu)), -INF)
            self.dub = np.where(m2, 0.04 + self.margin * r.uniform(0.01, 0.26, self.nu), INF)
        if g("last_u", lambda: ch(0.5) if self.dlb is not None else ch(0.1)):
            self.last_u = self.uc + r.uniform(-0.04, 0.04, self.nu)
        if self.dlb is not None and ch(0.25):
            # a control that may only fall (or only rise)
            i = ctx.randint(0, self.nu - 1)
            if ch():
                self.dub[i] = 0.0
                self.dlb[i] = self.dlb[i] if ch() else -INF
            else:
                self.dlb[i] = 0.0
                self.dub[i] = self.dub[i] if ch() else INF
            if self.last_u is not None:
                self.last_u[i] = self.uc[i]
        self.plb = self.pub = self.tlb = self.tub = None
        if self.po:
            self.plb, self.pub = box(self.p[None, self.po], 0.5)
        if self.to:
            self.tlb, self.tub = box(np.array(self.th)[:, self.to], 0.5)
        # path constraints: rows (a, b, c, d, k, q, rhs, when, eq)
        self.path = []
        for _ in range(g("rows", lambda: ctx.choice([0, 0, 1, 2] * 4 + [11])) if con else 0):
            row = dict(a=r.uniform(-1, 1, self.n), b=r.uniform(-1, 1, self.ny), c=r.uniform(-1, 1, self.nu), d=r.uniform(-1, 1, self.np),
                       e=r.uniform(-1, 1, self.nth), k=ctx.uniform(-0.5, 0.5), q=ctx.choice([0.0, 0.3]), when=ctx.choice(["default", "end"] + ([] if ms else ["start"])), eq=False, rhs=0.0)
            vals = [self.path_value(row, t, x, y, uu, self.p, th) for t, x, y, uu, th in self.points(row["when"], X, u, self.th, self.p)]
            row["rhs"] = max(vals) + ctx.uniform(0.02, 0.3)
            self.path.append(row)
        if con and self.nu == 2 and self.dc == 1 and ch(0.25):
            # one equation per element between the two controls and a state
            row = dict(a=np.zeros(self.n), b=np.zeros(self.ny), c=np.array([1.0, ctx.uniform(0.5, 1.5)]), d=np.zeros(self.np), e=np.zeros(self.nth), k=ctx.uniform(-0.1, 0.1), q=0.0, when=ctx.choice(["end"] + ([] if ms else ["start"])), eq=True, rhs=0.0)
            if self.margin < 1:
                row["k"] = 0.0  # the nominal decision has to satisfy it: with tight limits nothing else may
            row["rhs"] = row["c"] @ self.uc
            if not self.ubounded() and self.dlb is None:
                self.path.append(row)
        # final equality
        self.hf = None
        tight = np.isfinite(self.xlb).any() or np.isfinite(self.xub).any() or self.path
        if con and ch(0.3) and not (tight and self.ubounded()):
            a = r.uniform(-1, 1, self.n)
            self.hf = (a, a @ X[-1][-1])
        # equality among the decisions p
        self.hp = None
        if con and len(self.po) == 2 and ch():
            a = r.uniform(0.5, 1, 2)
            self.hp = (a, a @ self.p[self.po])
        self.nominal = (u, X)

    def ubounded(self):
        return np.isfinite(self.ulb).any() or np.isfinite(self.uub).any()

    def path_value(self, row, t, x, y, u, p, th):
        return row["a"] @ x + row["b"] @ y + row["c"] @ u + row["d"] @ p + row["e"] @ th + row["k"] * t / self.ts + row["q"] * x[0] ** 2 - row["rhs"]

    def points(self, when, X, u, th, p):
        """(t, x, y, u, theta) where a path constraint is imposed."""
        out = []
        ms = self.scheme == "multiple-shooting"
        for e in range(self.fe):
            if ms:
                ss = [(1.0, X[e][-1])]
            elif when == "start":
                ss = [(0.0, X[e][0])]
            elif when == "end":
                ss = [(1.0, X[e][-1])]
            else:
                ss = [(s, X[e][j + 1]) for j, s in enumerate(self.tau)]
            for s, x in ss:
                uu = self.u_at(u[e], s)
                if ms or s > 0:
                    y = self.yv(self.tb[e] + s * self.dt, x, uu, p, th[e])
                else:
                    # y has no point at the start of the element: its polynomial is evaluated there
                    ys = [self.yv(self.tb[e] + q * self.dt, X[e][j + 1], self.u_at(u[e], q), p, th[e]) for j, q in enumerate(self.tau)]
                    y = sum(np.polyval(c, 0.0) * ys[j] for j, c in enumerate(self.lag_y))
                out.append((self.tb[e] + s * self.dt, x, y, uu, th[e]))
        return out

    def build_problem(self):
        ctx, m = self.ctx, self.m
        pr = OptimalControlProblem(m, name="ocp", x_0=dm(self.x0), t_0=self.t0, t_f=self.tf)
        self.pr = pr
        M = pr.model
        x, y, u, p, th, t = M.x, M.y, M.u, M.p, M.theta, M.t if self.ts == 1 else M.t / self.ts
        q = lambda v, W: ca.mtimes([v.T, dm(W), v])
        L = q(x - dm(self.xr), self.Q) + q(u, self.R) + self.lt * t * x[0]
        if self.ny:
            L += ca.dot(dm(self.W), y ** 2)
        if self.to:
            L += self.wp * ca.sumsqr(th[self.to])
        if self.Ut.any():
            L += ca.dot(u, dm(self.Ut)) * t
            if self.np:
                L += ca.dot(u, ca.mtimes(dm(self.Up), p))
            if self.nth:
                L += ca.dot(u, ca.mtimes(dm(self.Uth), th))
        pr.L = L if self.ts == 1 else L / self.ts
        V = q(x - dm(self.xr), self.Qv)
        if self.np:
            V += ca.dot(dm(self.vp), p) * x[0]
        if self.po:
            V += self.wp * ca.sumsqr(p[self.po])
        pr.V = V
        if self.Sx.any():
            pr.S = ca.dot(dm(self.Sx), x ** 2) + ca.dot(dm(self.Su), u ** 2) + self.St * t * x[0]
        # vectors and plain lists of numbers mean the same
        plain = ctx.chance(0.25)
        form = lambda q: [float(w) for w in q] if plain and ctx.chance() else dm(q)
        pr.x_min, pr.x_max = form(self.xlb), form(self.xub)
        if self.ny:
            pr.y_min, pr.y_max = form(self.ylb), form(self.yub)
        pr.u_min, pr.u_max = form(self.ulb), form(self.uub)
        if self.dlb is not None:
            pr.delta_u_min, pr.delta_u_max = form(self.dlb), form(self.dub)
        if self.po:
            pr.set_parameter_as_optimization_parameter(p[self.po], dm(self.plb), dm(self.pub))
        if self.to:
            pr.set_theta_as_optimization_theta(th[self.to], dm(self.tlb), dm(self.tub))
        for row in self.path:
            e = ca.dot(dm(row["a"]), x) + ca.dot(dm(row["c"]), u) + row["k"] * t + row["q"] * x[0] ** 2 - row["rhs"]
            if self.ny:
                e += ca.dot(dm(row["b"]), y)
            if self.np:
                e += ca.dot(dm(row["d"]), p)
            if self.nth:
                e += ca.dot(dm(row["e"]), th)
            fn = pr.include_time_equality if row["eq"] else pr.include_time_inequality
            if row["when"] == "default" and ctx.chance():
                fn(e)
            else:
                fn(e, when=row["when"])
        if self.hf is not None:
            pr.include_final_time_equality(ca.dot(dm(self.hf[0]), x) - self.hf[1])
        if self.hp is not None:
            pr.include_equality(ca.dot(dm(self.hp[0]), p[self.po]) - self.hp[1])
        if self.free0:
            keep = [i for i in range(self.n) if i not in self.free0]
            pr.h_initial = pr.h_initial[keep]
            for i in self.free0:
                # free, within bounds
                self.xlb[i], self.xub[i] = self.nominal[1][0][:, i].min() - 1.0, self.nominal[1][0][:, i].max() + 1.0
                for e in range(self.fe):
                    self.xlb[i] = min(self.xlb[i], self.nominal[1][e][:, i].min() - 0.5)
                    self.xub[i] = max(self.xub[i], self.nominal[1][e][:, i].max() + 0.5)
            pr.x_min, pr.x_max = dm(self.xlb), dm(self.xub)
        if ctx.chance(0.3):
            pr.u_guess = form(self.uc)
        if self.ny and ctx.chance(0.3):
            pr.y_guess = form(np.zeros(self.ny))
        if self.last_u is not None and ctx.chance():
            pr.last_u = form(self.last_u)

    def method(self, **kw):
        from yaocptool.methods import DirectMethod

        o = dict(discretization_scheme=self.scheme, finite_elements=self.fe, degree=self.deg, degree_control=self.dc, nlpsol_opts={})
        if self.scheme == "multiple-shooting":
            # fixed-step integrators, whose derivatives are smooth; now and then the adaptive one (tolerances above its noise)
            self.integrator = kw.get("integrator_type") or self.ctx.choice(["implicit"] + (["collocation"] if self.ny else ["rk", "explicit", "collocation"]) * 2)
            o["integrator_type"] = self.integrator
            if self.integrator == "implicit":
                o["nlpsol_opts"] = {"ipopt.tol": 1e-5, "ipopt.acceptable_tol": 1e-4, "ipopt.max_iter": 40}
        if self.last_u is not None and self.pr.last_u is None:
            o["last_control_as_parameter"] = True
        o.update(kw)
        return DirectMethod(self.pr, **o)

    def solve_args(self):
        a = {}
        if self.np and not (len(self.po) == self.np and self.ctx.chance()):
            a["p"] = dm(self.p) if self.ctx.chance() else [float(v) for v in self.p]
        if self.nth and not (len(self.to) == self.nth and self.ctx.chance()):
            # a dictionary: the order in which its keys were inserted means nothing
            a["theta"] = {e: dm(self.th[e]) for e in self.ctx.perm(range(self.fe))}
        if self.last_u is not None and self.pr.last_u is None:
            a["last_u"] = dm(self.last_u) if self.ctx.chance() else [float(v) for v in self.last_u]
        return a

    def solve(self, mt, a):
        """One solve; when IPOPT gives up on a problem known to be feasible, it gets a few other starting points."""
        res = mt.solve(**a)
        for k in range(7):
            if res.success or (self.scheme == "multiple-shooting" and self.integrator == "implicit"):
                break
            self.ctx.event("restarts")
            v = np.array(res.raw_decision_variables.full()).ravel()
            if k % 2:
                v = self.ctx.rng.uniform(-1, 1, v.size) * (0.3 + 0.3 * k)
            if k in (2, 6):
                v = self.nominal_vector(mt)
            res = mt.solve(initial_guess=dm(v), **a)
        return res

    def nominal_vector(self, mt):
        """The decision the constraints were built around (feasible), as the solver sees it."""
        M = mt.problem.model
        names = [M.x[i].name() for i in range(M.n_x)]
        ix = [names.index(q) for q in self.m.x_names]
        ms = self.scheme == "multiple-shooting"
        X = self.nominal[1]
        xs, ys = [], []

        def put(x):
            z = np.zeros(len(names))
            z[ix] = x
            xs.append(z)

        for e in range(self.fe):
            for x in X[e][:1] if ms else X[e]:
                put(x)
            for j, s in enumerate([1.0] if ms else self.tau):
                ys.append(self.yv(self.tb[e] + s * self.dt, X[e][j + 1] if not ms else X[e][-1], self.uc, self.p, self.th[e]))
        if ms:
            put(X[-1][-1])
        us = [self.uc] * (self.fe * self.dc)
        return np.concatenate(xs + ys + us + [self.p[self.po]] + [self.th[e][self.to] for e in range(self.fe)])

    def describe(self):
        return "%s fe=%d deg=%d dc=%d n=%d nu=%d ny=%d np=%d/%s nth=%d/%s nl=%g ts=%g t0=%g path=%s hf=%s hp=%s xb=%d ub=%d du=%s last=%s S=%s free0=%s" % (
            self.scheme, self.fe, self.deg, self.dc, self.n, self.nu, self.ny, self.np, self.po, self.nth, self.to, self.nl, self.ts, self.t0,
            [(q["when"], "eq" if q["eq"] else "in") for q in self.path], self.hf is not None, self.hp is not None,
            int(np.isfinite(self.xlb).sum() + np.isfinite(self.xub).sum()), int(np.isfinite(self.ulb).sum() + np.isfinite(self.uub).sum()),
            self.dlb is not None, self.last_u is not None, bool(self.Sx.any()), self.free0)

    # -------------------------------------------------------- reading a result
    def read(self, res):
        """Decisions in the result: u (fe, dc, nu), p, theta, x0."""
        v = lambda d: np.array(ca.DM(d).full(), float).ravel()
        if self.scheme == "collocation":
            ix = [list(res.x_names).index(q) for q in self.m.x_names]
            near = [np.array([v(q)[ix] for q in res.x_data["values"][e][1:]]) for e in range(self.fe)]
            self.near = near if all(q.shape == (self.deg, self.n) for q in near) else None
        u = np.array([[v(q) for q in res.u_data["values"][e]] for e in range(self.fe)]).reshape(self.fe, -1, self.nu)
        p, th = self.p.copy(), [q.copy() for q in self.th]
        if self.po:
            p[self.po] = v(res.p_opt)
        if self.to:
            for e in range(self.fe):
                th[e][self.to] = v(res.theta_opt[e])
        x0 = self.x0.copy()
        if self.free0:
            x0[self.free0] = v(res.x_data["values"][0][0])[self.free0]
        return u, p, th, x0

    # ---------------------------------------------------- optimality machinery
    def pack(self, u, p, th, x0):
        parts = [u.ravel(), p[self.po] if self.po else [], np.concatenate([q[self.to] for q in th]) if self.to else [], x0[self.free0] if self.free0 else []]
        return np.concatenate([np.asarray(q, float) for q in parts])

    def unpack(self, v):
        i = self.fe * self.dc * self.nu
        u = v[:i].reshape(self.fe, self.dc, self.nu)
        p, th, x0 = self.p.copy(), [q.copy() for q in self.th], self.x0.copy()
        if self.po:
            p[self.po] = v[i : i + len(self.po)]
            i += len(self.po)
        if self.to:
            for e in range(self.fe):
                th[e][self.to] = v[i : i + len(self.to)]
                i += len(self.to)
        if self.free0:
            x0[self.free0] = v[i : i + len(self.free0)]
        return u, p, th, x0

    def evaluate(self, v):
        """Objective, inequalities (<= 0) and equalities (= 0) of the reduced problem."""
        u, p, th, x0 = self.unpack(v)
        X, cost, J = self.simulate(u, p, th, x0)
        ineq, eq = [], []

        def two(val, lo, hi):
            for a, l, h in zip(np.atleast_1d(val), lo, hi):
                if np.isfinite(l):
                    ineq.append(l - a)
                if np.isfinite(h):
                    ineq.append(a - h)

        ms = self.scheme == "multiple-shooting"
        for e in range(self.fe):
            for j, x in enumerate(X[e]):
                if j == 0 and e > 0:
                    continue
                two(x, self.xlb, self.xub)
            for k in range(self.dc):
                two(u[e][k], self.ulb, self.uub)
            if self.ny:
                for j, s in enumerate(self.tau if not ms else [1.0]):
                    two(self.yv(self.tb[e] + s * self.dt, X[e][j + 1], self.u_at(u[e], s), p, th[e]), self.ylb, self.yub)
            if self.dlb is not None:
                if e > 0:
                    two(u[e][0] - u[e - 1][0], self.dlb, self.dub)
                elif self.last_u is not None:
                    two(u[0][0] - self.last_u, self.dlb, self.dub)
            if self.to:
                two(th[e][self.to], self.tlb, self.tub)
        if self.po:
            two(p[self.po], self.plb, self.pub)
        for row in self.path:
            vals = [self.path_value(row, t, x, y, uu, p, h) for t, x, y, uu, h in self.points(row["when"], X, u, th, p)]
            (eq if row["eq"] else ineq).extend(vals)
        if self.hf is not None:
            eq.append(self.hf[0] @ X[-1][-1] - self.hf[1])
        if self.hp is not None:
            eq.append(self.hp[0] @ p[self.po] - self.hp[1])
        return J, np.array(ineq), np.array(eq)

    def kkt(self, v, act=1e-4, h=1e-5):
        """Residual of stationarity: gradient as combination of active constraints."""
        J0, i0, e0 = self.evaluate(v)
        # constraints the decision cannot influence do not count
        g, Gi, Ge = np.zeros(v.size), np.zeros((i0.size, v.size)), np.zeros((e0.size, v.size))
        for k in range(v.size):
            a, b = v.copy(), v.copy()
            a[k] += h
            b[k] -= h
            Ja, ia, ea = self.evaluate(a)
            Jb, ib, eb = self.evaluate(b)
            g[k], Gi[:, k], Ge[:, k] = (Ja - Jb) / 2 / h, (ia - ib) / 2 / h, (ea - eb) / 2 / h
        cols = [Gi[k] for k in range(i0.size) if i0[k] > -act] + [q for q in Ge] + [-q for q in Ge]
        if cols:
            A = np.array(cols).T
            sc = np.linalg.norm(A, axis=0)
            A = A[:, sc > 1e-9] / sc[sc > 1e-9]
            r = scipy.optimize.nnls(A, -g, maxiter=3000)[1] if A.shape[1] else np.linalg.norm(g)
        else:
            r = np.linalg.norm(g)
        return r, np.linalg.norm(g), int((i0 > -act).sum()), e0.size
