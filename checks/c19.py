import casadi as ca
import numpy as np

from vfw.core import scenario
from vfw.env import dm
from vfw.freeze import Frozen
from yaocptool.methods import AugmentedLagrangian, DirectMethod
from yaocptool.methods.augmented_lagrangian import AugmentedLagrangianOptions
from yaocptool.modelling import OptimalControlProblem, SystemModel

RULE = (
    "Random convex problems (linear differential-algebraic systems, time-varying quadratic cost, parameters, per-element "
    "parameters, path equalities, bounds) are relaxed in random parts; the relaxed problem is evaluated at random points "
    "against the textbook augmented Lagrangian, every outer iteration is recorded (data handed to the inner solver and what "
    "it answered) and replayed against the multiplier and penalty rules in plain numpy, and the converged answer is compared "
    "with the direct solution of the unrelaxed problem."
)
ASSUMPTIONS = ["collocation (the multiple-shooting combination is out of reach for its run time)", "IPOPT converges on small convex problems"]


def v(d):
    return np.array(ca.DM(d).full(), float).ravel()


class Prob:
    """A convex problem, held as plain numpy data; can be built any number of times."""

    def __init__(self, ctx, state_bounds=None, fe=None, deg=None):
        r = ctx.rng
        self.nx, self.ny, self.nq = ctx.randint(1, 2), ctx.randint(1, 3), ctx.choice([0, 1, 2, 0, 1, 2, 3])
        self.nu = self.nx + self.nq
        self.np_, self.nth = ctx.randint(0, 2), ctx.choice([0, 0, 1])
        nx, ny, nu = self.nx, self.ny, self.nu
        g = lambda *s: np.round(r.uniform(-0.6, 0.6, s), 3)
        self.A, self.B, self.C, self.d = g(nx, nx), g(nx, nu), g(nx, ny), g(nx)
        for i in range(nx):
            self.B[i, i] = 1.0 + r.uniform(0, 0.5)
        self.E, self.F = g(nx, self.np_), g(nx, self.nth)
        # algebraic equations: sign * scale * (y_i - (G x + H u + Y y_<i + k + kt t))
        self.G, self.H, self.k, self.kt = g(ny, nx), g(ny, nu), g(ny), g(ny)
        self.Y = np.tril(g(ny, ny), -1)
        self.sc = np.round(r.uniform(0.6, 1.6, ny) * r.choice([-1, 1], ny), 3)
        # path equalities: the j-th has a control of its own
        self.a, self.b = g(self.nq, nx), g(self.nq)
        self.Q, self.R, self.S = r.uniform(0.5, 2, nx), r.uniform(0.5, 2, nu), r.uniform(0.2, 1, ny)
        self.xr, self.yr = g(nx), g(ny)
        self.t0 = ctx.choice([0.0, 0.0, 0.5, -1.0])
        self.tf = self.t0 + ctx.choice([0.8, 1.0, 1.5])
        self.x0 = np.round(r.uniform(-0.9, 0.9, nx), 3)
        self.p = np.round(r.uniform(-1, 1, self.np_), 3)
        self.fe = fe or ctx.randint(2, 4)
        self.deg = deg or ctx.choice([2, 3, 3, 4])
        self.th = {e: dm(np.round(r.uniform(-1, 1, self.nth), 3)) for e in range(self.fe)} if self.nth else None
        inf = np.inf
        self.yb = [(-inf, inf) if ctx.chance(0.5) else (-round(r.uniform(1.0, 3), 2), round(r.uniform(1.0, 3), 2)) for _ in range(ny)]
        self.ub = [(-inf, inf) if i < nx or ctx.chance(0.6) else (-6.0, 6.0) for i in range(nu)]
        sb = state_bounds if state_bounds is not None else ctx.chance(0.3)
        self.xb = [ctx.choice([(-inf, inf), (-1.5, inf), (-inf, 1.4), (-1.6, 1.3)]) if sb else (-inf, inf) for _ in range(nx)]
        self.yg = np.round(r.uniform(-1, 1, ny), 3) if ctx.chance(0.4) else None
        # (guesses are declared for all the variables or for none; a relaxed state would have no guess)
        self.ug = np.round(r.uniform(-1, 1, nu), 3) if self.yg is not None and not sb else None
        self.mayer = round(r.uniform(0, 1), 3)
        self.when = None  # where the time equalities hold

    def build(self, name="al"):
        m = SystemModel(name=name)
        self.split = [m.create_state("x%d" % i) for i in range(self.nx)]
        x = ca.vertcat(*self.split)
        y = ca.vertcat(*[m.create_algebraic_variable("y%d" % i) for i in range(self.ny)])
        u = ca.vertcat(*[m.create_control("u%d" % i) for i in range(self.nu)])
        p = m.create_parameter("pp", self.np_) if self.np_ else ca.DM.zeros(0, 1)
        th = m.create_theta("tt", self.nth) if self.nth else ca.DM.zeros(0, 1)
        m.include_equations(ode=self.f(x, y, u, p, th), alg=self.alg(m.t, x, y, u))
        pr = OptimalControlProblem(m, t_0=self.t0, t_f=self.tf, x_0=dm(self.x0), name=name)
        pr.L = self.L(m.t, x, y, u)
        if self.mayer:
            pr.V = self.mayer * ca.sumsqr(x)
        for q in range(self.nq):
            w = self.when[q] if self.when else "default"
            pr.include_time_equality(self.eq(x, u)[q], **({} if w == "default" else {"when": w}))
        for key, bb in (("x", self.xb), ("y", self.yb), ("u", self.ub)):
            setattr(pr, key + "_min", dm([b[0] for b in bb]))
            setattr(pr, key + "_max", dm([b[1] for b in bb]))
        if self.yg is not None:
            pr.y_guess = dm(self.yg)
        if self.ug is not None:
            pr.u_guess = dm(self.ug)
        return pr

    # the same formulas serve symbols and numbers
    def f(self, x, y, u, p, th):
        e = ca.mtimes(dm(self.A), x) + ca.mtimes(dm(self.B), u) + ca.mtimes(dm(self.C), y) + dm(self.d)
        if self.np_:
            e = e + ca.mtimes(ca.DM(self.E), p)
        if self.nth:
            e = e + ca.mtimes(ca.DM(self.F), th)
        return e

    def alg(self, t, x, y, u):
        e = y - (ca.mtimes(dm(self.G), x) + ca.mtimes(dm(self.H), u) + ca.mtimes(dm(self.Y), y) + dm(self.k) + dm(self.kt) * t)
        return dm(self.sc) * e

    def eq(self, x, u):
        return u[self.nx:] - (ca.mtimes(ca.DM(self.a), x) + ca.DM(self.b)) if self.nq else ca.DM.zeros(0, 1)

    def L(self, t, x, y, u):
        w = 1 + 0.2 * t * t
        return (ca.dot(dm(self.Q), (x - dm(self.xr)) ** 2) * w + ca.dot(dm(self.R), u ** 2) + ca.dot(dm(self.S), (y - dm(self.yr)) ** 2))


class Relax:
    """What is relaxed, and what the relaxed problem must be."""

    def __init__(self, ctx, P, states=None):
        self.P = P
        full = ctx.chance(0.35)
        self.alg = None if full else sorted(ctx.sample(range(P.ny), ctx.randint(0, P.ny)))
        if self.alg is not None and ctx.chance(0.4):
            self.alg = ctx.perm(self.alg)
        self.eq = sorted(ctx.sample(range(P.nq), ctx.randint(0, P.nq))) if P.nq else []
        if ctx.chance(0.4):
            self.eq = ctx.perm(self.eq)
        bounded = [i for i in range(P.nx) if np.isfinite(P.xb[i]).any()]
        self.states = bool(bounded) and (ctx.chance(0.5) if states is None else states)
        self.ai = list(range(P.ny)) if self.alg is None else list(self.alg)
        self.bx = bounded if self.states else []
        if not (self.ai or self.eq or self.bx):
            self.alg = self.ai = [0]
        self.n = len(self.ai) + len(self.bx) + len(self.eq)
        self.keep = [i for i in range(P.ny) if i not in self.ai]

    def kwargs(self, given=True):
        k = {}
        if self.alg is not None:
            k["relax_algebraic_index"] = list(self.alg)
        if self.eq:
            k["relax_time_equality_index"] = list(self.eq)
        if self.states:
            k["relax_state_bounds"] = True
        return k

    def residual(self, t, x, y, u, yx):
        """Relaxed equations, in the order of the multipliers."""
        P = self.P
        a = v(P.alg(t, dm(x), dm(y), dm(u)))
        return np.concatenate([a[self.ai], [yx[j] - x[i] for j, i in enumerate(self.bx)], v(P.eq(dm(x), dm(u)))[self.eq]])


def lagrange(nodes, vals, s):
    """Polynomial through (nodes, vals) at s; vals is n_relax x len(nodes)."""
    w = np.array([np.prod([(s - nodes[k]) / (nodes[j] - nodes[k]) for k in range(len(nodes)) if k != j]) for j in range(len(nodes))])
    return vals @ w


def solver_options(P, ctx=None, give=True):
    o = dict(discretization_scheme="collocation", degree_control=P.deg, nlpsol_opts={})
    if give:
        o.update(degree=P.deg, finite_elements=P.fe)
    return o


def make(ctx, P, R, **opts):
    """The method, with its sizes given in one of the documented places."""
    pr = P.build()
    opt = dict(tol=1e-7, max_iter=25)
    opt.update(opts)
    where = ctx.randint(0, 2)
    kw = R.kwargs()
    so = solver_options(P, give=where == 0)
    if where == 1:
        opt.update(degree=P.deg, finite_elements=P.fe)
    if where == 2:
        kw.update(degree=P.deg, finite_elements=P.fe)
    as_object = ctx.chance(0.4)
    oo = AugmentedLagrangianOptions(**opt) if as_object else opt
    fr = Frozen(ctx, solver_options=so)
    before = dict(vars(oo)) if as_object else dict(oo)
    ctx.note("sizes given in", ["solver options", "options", "arguments"][where], "options as", type(oo).__name__, kw, opt)
    al = AugmentedLagrangian(pr, DirectMethod, solver_options=so, options=oo, no_update_after_solving=False, **kw)
    fr.verify("constructor")
    for k, q in opt.items():
        # the options can be read through the method
        ctx.check(np.array_equal(v(getattr(al, k)), v(q)) if not isinstance(q, (str, bool)) else getattr(al, k) == q, "options", lambda: "option %s reads %s, given %s" % (k, getattr(al, k), q))
    after = dict(vars(oo)) if as_object else dict(oo)
    ctx.check(all(np.array_equal(v(before[k]) if isinstance(before[k], ca.DM) else before[k], v(after[k]) if isinstance(after[k], ca.DM) else after[k]) for k in before)
              and set(before) == set(after), "caller", lambda: "the options passed were changed: %r -> %r" % (before, after))
    ctx.eq((al.options.degree, al.options.finite_elements), (P.deg, P.fe), "sizes", "degree, finite elements of the method")
    ctx.eq((al.ocp_solver.degree, al.ocp_solver.finite_elements), (P.deg, P.fe), "sizes", "degree, finite elements of the inner solver")
    return pr, al


@scenario("C19", quick=120, thorough=800)
def relaxed_problem(ctx):
    """The relaxed problem is the original one with the chosen equations moved into the cost."""
    P = Prob(ctx)
    if ctx.chance():
        P.when = [ctx.choice(["default", "end", "start"]) for _ in range(P.nq)]
    R = Relax(ctx, P)
    mu0 = round(ctx.uniform(0.5, 4), 3)
    pr, al = make(ctx, P, R, mu_0=mu0)
    M = pr.model
    ctx.event("relaxed-equations", R.n)
    ctx.eq(al.n_relax, R.n, "count", "relaxed equations")
    ctx.close(v(al.mu), np.full(R.n, mu0), "mu", "initial penalties", atol=0)
    for e in range(P.fe):
        ctx.eq(al.nu[e].shape, (R.n * P.deg, 1), "nu", "initial multipliers of element %d" % e)
        ctx.close(v(al.nu[e]), np.zeros(R.n * P.deg), "nu", "initial multipliers", atol=0)
    ctx.eq(sorted(al.nu), list(range(P.fe)), "nu", "elements")
    # variables: what was relaxed became control
    ctx.eq(list(M.y_names), ["y%d" % i for i in R.keep], "variables", "algebraic variables left")
    want_u = ["u%d" % i for i in range(P.nu)] + ["y%d" % i for i in R.ai]
    ctx.eq(list(M.u_names[: len(want_u)]), want_u, "variables", "controls")
    ctx.eq(M.n_u, len(want_u) + len(R.bx), "variables", "number of controls")
    ub = P.ub + [P.yb[i] for i in R.ai] + [P.xb[i] for i in R.bx]
    ctx.close(v(pr.u_min), [b[0] for b in ub], "bounds", "u_min", atol=0)
    ctx.close(v(pr.u_max), [b[1] for b in ub], "bounds", "u_max", atol=0)
    ctx.close(v(pr.y_min), [P.yb[i][0] for i in R.keep], "bounds", "y_min", atol=0)
    ctx.close(v(pr.y_max), [P.yb[i][1] for i in R.keep], "bounds", "y_max", atol=0)
    xb = [(-np.inf, np.inf) if i in R.bx else P.xb[i] for i in range(P.nx)]
    ctx.close(v(pr.x_min)[: P.nx], [b[0] for b in xb], "bounds", "x_min", atol=0)
    ctx.close(v(pr.x_max)[: P.nx], [b[1] for b in xb], "bounds", "x_max", atol=0)
    if P.ug is not None:
        ctx.close(v(pr.u_guess), np.concatenate([P.ug, P.yg[R.ai]]), "guess", "guess of the controls", atol=0)
    # equations and cost at random points
    n_p, n_th = P.np_ + R.n, P.nth + R.n * P.deg
    ctx.eq((M.n_p, M.n_theta), (n_p, n_th), "variables", "parameters")
    keep_eq = [q for q in range(P.nq) if q not in R.eq]
    fun = ca.Function("f", [M.t, M.tau, M.x, M.y, M.u, M.p, M.theta], [M.ode, M.alg, pr.L, pr.g_eq])
    ctx.eq(len(pr.time_g_eq), len(keep_eq), "equalities", "times of the equalities left")
    ctx.eq(list(pr.time_g_eq), [P.when[q] if P.when else "default" for q in keep_eq], "equalities", "where the equalities left hold")
    tau_n = ca.collocation_points(P.deg, "radau")
    for _ in range(3):
        t, s = ctx.uniform(P.t0, P.tf), ctx.uniform(0, 1)
        x, y, u, yx = (ctx.rng.uniform(-1, 1, k) for k in (P.nx, P.ny, P.nu, len(R.bx)))
        p, th = ctx.rng.uniform(-1, 1, n_p), ctx.rng.uniform(-1, 1, n_th)
        p[P.np_:] = ctx.rng.uniform(0.1, 5, R.n)
        uu = np.concatenate([u, y[R.ai], yx])
        ode, alg, L, geq = fun(t, s, dm(x), dm(y[R.keep]), dm(uu), dm(p), dm(th))
        r = R.residual(t, x, y, u, yx)
        nu = lagrange(tau_n, th[P.nth:].reshape(P.deg, R.n).T, s)
        mu = p[P.np_:]
        ctx.close(v(ode)[: P.nx], v(P.f(dm(x), dm(y), dm(u), dm(p[: P.np_]), dm(th[: P.nth]))), "equations", "differential equations", rtol=1e-9, atol=1e-10)
        ctx.close(v(alg), v(P.alg(t, dm(x), dm(y), dm(u)))[R.keep], "equations", "algebraic equations left", rtol=1e-9, atol=1e-10)
        ctx.close(v(geq), v(P.eq(dm(x), dm(u)))[keep_eq], "equalities", "time equalities left", rtol=1e-9, atol=1e-10)
        ctx.close(v(L), [float(P.L(t, dm(x), dm(y), dm(u))) + nu @ r + 0.5 * mu @ r ** 2], "cost", "augmented cost", rtol=1e-9, atol=1e-9)


class Tap:
    """Records what the inner solver is asked and what it answers."""

    def __init__(self, al):
        self.calls = []
        inner = al.ocp_solver.solve
        tap = self

        def solve(*a, **k):
            rec = {"p": v(k["p"]), "theta": {e: v(q) for e, q in k["theta"].items()}, "x_0": k.get("x_0"), "guess": k.get("initial_guess_dict")}
            res = inner(*a, **k)
            rec["res"] = res
            tap.calls.append(rec)
            return res

        al.ocp_solver.solve = solve


def residuals(P, R, res):
    """Relaxed equations along the returned trajectory: per element n_relax x degree."""
    tau_n = np.array(ca.collocation_points(P.deg, "radau"))
    names_u, names_y, names_x = list(res.u_names), list(res.y_names), list(res.x_names)
    dt = (P.tf - P.t0) / P.fe
    out = []
    for e in range(P.fe):
        cols = []
        for j in range(P.deg):
            t = P.t0 + dt * (e + tau_n[j])
            X, U = v(res.x_data["values"][e][j + 1]), v(res.u_data["values"][e][j])
            Yk = v(res.y_data["values"][e][j]) if names_y else np.zeros(0)
            x = np.array([X[names_x.index("x%d" % i)] for i in range(P.nx)])
            u = np.array([U[names_u.index("u%d" % i)] for i in range(P.nu)])
            y = np.array([Yk[names_y.index("y%d" % i)] if "y%d" % i in names_y else U[names_u.index("y%d" % i)] for i in range(P.ny)])
            yx = U[len(names_u) - len(R.bx):] if R.bx else []
            cols.append(R.residual(t, x, y, u, yx))
        out.append(np.array(cols).T)
    return out


RULES = ["constant", "bounded-increase", "bounded-increase", "primal"]


def expected_mu(mu, rule, err, last, o):
    if rule == "constant":
        return mu
    if rule == "bounded-increase":
        return np.minimum(o["mu_max"], mu * o["beta"])
    if last is None:
        return mu
    return np.array([m if e <= o["mu_min_error_decrease"] * l else min(o["mu_max"], m * o["beta"]) for m, e, l in zip(mu, err, last)])


@scenario("C19", quick=100, thorough=600)
def outer_iterations(ctx):
    """Every outer iteration: multipliers grow by penalty times residual, penalties follow their rule, the loop stops as documented."""
    P = Prob(ctx)
    R = Relax(ctx, P)
    o = dict(mu_0=round(ctx.uniform(0.5, 3), 3), mu_max=ctx.choice([20.0, 1e3]), beta=ctx.choice([2.0, 5.0]), mu_min_error_decrease=ctx.choice([0.2, 0.5]))
    rule = ctx.choice(RULES)
    improve = ctx.chance(0.3)
    tol = ctx.choice([1e-7, 1e-2, 1e-1])
    max_iter = ctx.randint(1, 6)
    pr, al = make(ctx, P, R, mu_update_rule=rule, only_update_if_improve=improve, tol=tol, max_iter=max_iter, **o)
    ctx.note("rule", rule, o, "tol", tol, "max_iter", max_iter)
    tap = Tap(al)
    nus, last, mu = None, None, np.full(R.n, o["mu_0"])
    n_solve = ctx.randint(1, 2)
    for s in range(n_solve):
        x0 = P.x0 if s == 0 else np.round(ctx.rng.uniform(-0.9, 0.9, P.nx), 3)
        p = P.p if s == 0 else np.round(ctx.rng.uniform(-1, 1, P.np_), 3)
        pin = dm(p) if P.np_ else None
        th = {e: P.th[e] for e in ctx.perm(range(P.fe))} if P.nth else None
        fr = Frozen(ctx, p=pin, theta=th)
        tap.calls = []
        x0in = None if s == 0 else dm(np.concatenate([x0, [0]]))
        lst = lambda q: q if q is None or ctx.chance(0.7) else [float(k) for k in v(q)]
        res = al.solve(p=lst(pin), theta=th, x_0=lst(x0in))
        fr.verify("solve")
        n = len(tap.calls)
        ctx.event("outer-iterations", n)
        ctx.check(1 <= n <= max_iter, "max-iter", lambda: "%d iterations, at most %d allowed" % (n, max_iter))
        for k, c in enumerate(tap.calls):
            ctx.check(bool(c["res"].success), "solved", lambda: str(c["res"].stats.get("return_status")))
            ctx.close(c["p"], np.concatenate([p, mu]), "mu", "parameters handed to the inner solver (iteration %d)" % k, rtol=1e-12, atol=0)
            if nus is None:
                nus = [np.zeros((R.n, P.deg)) for _ in range(P.fe)]
            got = [c["theta"][e] for e in range(P.fe)]
            for e in range(P.fe):
                want = np.concatenate([v(th[e]) if P.nth else np.zeros(0), nus[e].T.ravel()])
                ctx.close(got[e], want, "multipliers", "multipliers handed to the inner solver (iteration %d, element %d)" % (k, e), rtol=1e-7, atol=1e-8)
            used = nus
            r = residuals(P, R, c["res"])
            err = np.max(np.abs(np.concatenate(r, axis=1)), axis=1)
            new = [nus[e] + mu[:, None] * r[e] for e in range(P.fe)]
            if improve and last is not None and (err > 0).any():
                better = err < last
                near = np.abs(err - last) < 1e-9
                if near.any():
                    ctx.skip("two errors too close to tell which is larger")
                nus = [np.where(better[:, None], new[e], nus[e]) for e in range(P.fe)]
            else:
                nus = new
            if rule == "primal" and last is not None and (np.abs(err - o["mu_min_error_decrease"] * last) < 1e-9).any():
                ctx.skip("decrease too close to the threshold")
            mu = expected_mu(mu, rule, err, last, o)
            last = err
            done = bool((err < tol).all())
            if (np.abs(err - tol) < 1e-9).any():
                ctx.skip("error too close to the tolerance")
            ctx.check(done == (k == n - 1) or (k == n - 1 and n == max_iter), "stop",
                      lambda: "iteration %d of %d: errors %s, tolerance %g" % (k, n, err, tol))
        # what is reported
        ctx.close(v(al.mu), mu, "mu", "penalties after solving", rtol=1e-12, atol=0)
        ctx.close(v(res.statistics["violation_error"]), last, "error", "reported violation", rtol=1e-7, atol=1e-9)
        na = len(R.ai) + len(R.bx)
        tw = [[P.t0 + (P.tf - P.t0) / P.fe * (e + q) for q in ca.collocation_points(P.deg, "radau")] for e in range(P.fe)]
        for name, rows in (("alg_violation", slice(0, na)), ("eq_violation", slice(na, None))):
            got = res.other_data[name]
            ctx.eq(len(got["values"]), P.fe, "report", name + " elements")
            for e in range(P.fe):
                w = r[e][rows]
                if w.size:
                    ctx.close(np.array([v(q) for q in got["values"][e]]).T, w, "report", name + " in element %d" % e, rtol=1e-7, atol=1e-9)
                ctx.close(got["time"][e], tw[e], "report", name + " times", atol=1e-9)
        for e in range(P.fe):
            ctx.close(np.array([v(q) for q in res.other_data["nu"]["values"][e]]).T, used[e], "report", "multipliers in element %d" % e, rtol=1e-7, atol=1e-8)
            ctx.close(res.other_data["nu"]["time"][e], tw[e], "report", "multiplier times", atol=1e-9)
        ds = res.dataset
        for name in ("nu", "alg_violation", "eq_violation"):
            # the same, as a data set (a group without rows has no entry or an empty one)
            got = res.other_data[name]
            flat = [v(q) for el in got["values"] for q in el]
            if flat and flat[0].size:
                t, val = ds.get_entry(name)
                ctx.close(v(t), np.concatenate(tw), "report", name + " times in the data set", atol=1e-9)
                ctx.close(np.array(val.full()), np.array(flat).T, "report", name + " in the data set", atol=0)


@scenario("C19", quick=60, thorough=400)
def converges_to_the_original(ctx):
    """When the tolerance is met, the answer is the solution of the problem that was not relaxed."""
    P = Prob(ctx)
    R = Relax(ctx, P)
    pr, al = make(ctx, P, R, mu_update_rule=ctx.choice(["bounded-increase", "primal"]), mu_0=ctx.choice([1.0, 10.0]), mu_max=ctx.choice([1e3, 1e4]), tol=1e-7,
                  max_iter=40)
    p = dm(P.p) if P.np_ else None
    th = dict(P.th) if P.nth else None
    ref_p = P.build("ref")
    ref = DirectMethod(ref_p, **solver_options(P)).solve(p=p, theta=th)
    if not ref.success:
        ctx.skip("reference not solved")
    res = al.solve(p=p, theta=th)
    err = v(res.statistics["violation_error"])
    ctx.check(bool((err < 1e-7).all()), "converges", lambda: "violation %s after 40 iterations" % err)
    ctx.event("converged")
    tol = dict(rtol=1e-4, atol=1e-4)
    for e in range(P.fe):
        for j in range(P.deg):
            a = {n: float(q) for n, q in zip(res.x_names, v(res.x_data["values"][e][j + 1]))}
            a.update({n: float(q) for n, q in zip(res.u_names, v(res.u_data["values"][e][j]))})
            if res.y_names:
                a.update({n: float(q) for n, q in zip(res.y_names, v(res.y_data["values"][e][j]))})
            b = {n: float(q) for n, q in zip(ref.x_names, v(ref.x_data["values"][e][j + 1]))}
            b.update({n: float(q) for n, q in zip(ref.u_names, v(ref.u_data["values"][e][j]))})
            b.update({n: float(q) for n, q in zip(ref.y_names, v(ref.y_data["values"][e][j]))})
            keys = ["x%d" % i for i in range(P.nx)] + ["y%d" % i for i in range(P.ny)] + ["u%d" % i for i in range(P.nu)]
            ctx.close([a[k] for k in keys], [b[k] for k in keys], "solution", "variables at element %d point %d" % (e, j), **tol)
    ctx.close(float(res.objective_opt_problem), float(ref.objective_opt_problem), "objective", "objective", rtol=1e-5, atol=1e-5)


@scenario("C19", quick=30, thorough=150)
def instances_are_independent(ctx):
    """Two methods made from the same options do not act on each other."""
    P1, P2 = Prob(ctx), Prob(ctx)
    R1, R2 = Relax(ctx, P1), Relax(ctx, P2)
    shared = AugmentedLagrangianOptions(max_iter=2, tol=1e-9, mu_0=2.0) if ctx.chance(0.5) else dict(max_iter=2, tol=1e-9, mu_0=2.0)

    def one(P, R):
        return AugmentedLagrangian(P.build(), DirectMethod, solver_options=solver_options(P), options=shared, no_update_after_solving=False, **R.kwargs())

    def run(al, P):
        r = al.solve(p=dm(P.p) if P.np_ else None, theta=dict(P.th) if P.nth else None)
        return np.concatenate([v(r.raw_solution_dict["x"]), v(r.statistics["violation_error"]), v(al.mu)])

    alone = run(one(P1, R1), P1)
    a = one(P1, R1)
    b = one(P2, R2)
    first = ctx.chance(0.5)
    if first:
        run(b, P2)
    got = run(a, P1)
    ctx.event("pairs")
    ctx.close(got, alone, "independent", "a method created with the same options as another", rtol=1e-9, atol=1e-10)
    ctx.eq((a.options.degree, a.options.finite_elements, b.options.degree, b.options.finite_elements), (P1.deg, P1.fe, P2.deg, P2.fe), "independent", "sizes")


@scenario("C19", quick=30, thorough=150)
def options_and_refusals(ctx):
    """Options changed through the method take effect; contradictory or meaningless ones are refused."""
    P = Prob(ctx)
    R = Relax(ctx, P)
    p, th = dm(P.p) if P.np_ else None, dict(P.th) if P.nth else None
    what = ctx.turn(["sizes", "rule", "none", "max_iter", "mu"])
    ctx.note(what)
    if what == "sizes":
        k = ctx.choice(["degree", "finite_elements"])
        with ctx.raises("refused", "two different values of %s" % k, ValueError):
            AugmentedLagrangian(P.build(), DirectMethod, solver_options=solver_options(P), options={}, **dict(R.kwargs(), **{k: {"degree": P.deg, "finite_elements": P.fe}[k] + 1}))
    elif what == "rule":
        _, al = make(ctx, P, R, mu_update_rule="sometimes", max_iter=2)
        with ctx.raises("refused", "an unknown penalty rule", ValueError):
            al.solve(p=p, theta=th)
    elif what == "none":
        _, al = make(ctx, P, R, max_iter=0)
        with ctx.raises("refused", "no iteration allowed", ValueError):
            al.solve(p=p, theta=th)
    elif what == "max_iter":
        _, al = make(ctx, P, R, max_iter=9, tol=0.0, mu_update_rule="constant")
        n = ctx.randint(1, 4)
        al.max_iter = n
        ctx.eq(al.options.max_iter, n, "options", "max_iter set through the method")
        tap = Tap(al)
        al.solve(p=p, theta=th)
        ctx.eq(len(tap.calls), n, "max-iter", "iterations with the new limit")
    else:
        _, al = make(ctx, P, R, max_iter=1, mu_update_rule="constant")
        tap = Tap(al)
        m = ctx.rng.uniform(0.5, 3, R.n) if ctx.chance() else ctx.rng.uniform(0.5, 3, 1)
        al.set_mu(dm(m))
        al.solve(p=p, theta=th)
        ctx.close(tap.calls[0]["p"], np.concatenate([P.p, np.ones(R.n) * m]), "mu", "penalties that were set", rtol=1e-12, atol=0)
        with ctx.raises("refused", "penalties of the wrong number", ValueError):
            al.set_mu(dm(np.ones(R.n + 1 if R.n > 0 else 2)))
    ctx.event("options")
