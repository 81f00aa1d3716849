import warnings

import casadi as ca
import numpy as np
from scipy.integrate import solve_ivp

from vfw.core import arr, scenario
from vfw.env import config, dm
from vfw.freeze import Frozen, snap
from yaocptool.modelling import DAESystem, OptimalControlProblem, SystemModel

RULE = (
    "Random ODE and index-1 DAE models (linear, time-varying, nonlinear; with controls, parameters and per-element "
    "parameters) are simulated on random time grids with every integrator, and each returned sample is compared with an "
    "independent reference integration (scipy, tight tolerances)."
)
ASSUMPTIONS = ["scipy.integrate.solve_ivp as reference", "integrators run with their default tolerances: relative error below 1e-3"]
TOL = dict(rtol=2e-3, atol=3e-4)


class Sys:
    """x' = A x + B u + E y + c sin(w t + x0) + D p + F theta ; y = G x + H u + k t (optional), as model and as numpy."""

    def __init__(self, ctx, dae=None, n=None, damping=0.5):
        r = ctx.rng
        self.n = n or ctx.randint(1, 3)
        self.nu, self.np, self.nth = ctx.randint(0, 2), ctx.randint(0, 2), ctx.randint(0, 2)
        self.dae = ctx.chance() if dae is None else dae
        self.ny = ctx.randint(1, 2) if self.dae else 0
        n, ny = self.n, self.ny
        self.A = r.uniform(-1, 1, (n, n)) - damping * np.eye(n)
        self.B = r.uniform(-1, 1, (n, self.nu))
        self.D = r.uniform(-1, 1, (n, self.np))
        self.F = r.uniform(-1, 1, (n, self.nth))
        self.E = r.uniform(-0.5, 0.5, (n, ny))
        self.G, self.H = r.uniform(-1, 1, (ny, n)), r.uniform(-1, 1, (ny, self.nu))
        self.k = r.uniform(-1, 1, ny)
        self.Gp = r.uniform(-1, 1, (ny, self.np))
        self.Gth = r.uniform(-1, 1, (ny, self.nth))
        self.c, self.w = r.uniform(-1, 1, n), r.uniform(0.5, 2)
        self.nl = ctx.choice([0.0, 0.3])
        m = SystemModel(name="sys")
        self.m = m
        # variables are created in an order different from the one the code stacks them in
        mk = {
            "x": lambda: m.create_state("x", n),
            "u": lambda: m.create_control("u", self.nu),
            "p": lambda: m.create_parameter("p", self.np),
            "theta": lambda: m.create_theta("th", self.nth),
            "y": lambda: m.create_algebraic_variable("y", ny),
        }
        size = {"x": n, "u": self.nu, "p": self.np, "theta": self.nth, "y": ny}
        for q in ctx.perm(list(mk)):
            if size[q]:
                mk[q]()
        x, u, p, th, y, t = m.x, m.u, m.p, m.theta, m.y, m.t
        mt = lambda M, v: ca.mtimes(dm(M), v) if M.shape[1] and M.shape[0] else 0
        ode = mt(self.A, x) + dm(self.c) * ca.sin(self.w * t) - self.nl * x ** 3
        ode += mt(self.B, u) + mt(self.D, p) + mt(self.F, th)
        kw = {}
        if ny:
            ode += mt(self.E, y)
            # g: y - (...) written with a non-unit, state dependent coefficient
            g = y - (mt(self.G, x) + mt(self.H, u) + mt(self.Gp, p) + mt(self.Gth, th) + dm(self.k) * t)
            kw["alg"] = g * (1 + 0.5 * x[0] ** 2)
        m.include_equations(ode=ode, **kw)

    def yv(self, t, x, u, p, th):
        return self.G @ x + self.H @ u + self.Gp @ p + self.Gth @ th + self.k * t

    def f(self, t, x, u, p, th):
        d = self.A @ x + self.c * np.sin(self.w * t) - self.nl * x ** 3 + self.B @ u + self.D @ p + self.F @ th
        if self.ny:
            d = d + self.E @ self.yv(t, x, u, p, th)
        return d

    def step(self, t0, t1, x, u, p, th):
        s = solve_ivp(self.f, (t0, t1), x, rtol=1e-10, atol=1e-12, args=(u, p, th))
        return s.y[:, -1]


def grid(ctx, t0):
    k = ctx.randint(11, 13) if ctx.chance(0.06) else ctx.randint(1, 5)
    return [round(float(v), 6) for v in t0 + np.cumsum(ctx.rng.uniform(0.05, 0.6, k))]


def draw(ctx, s, k):
    p = ctx.rng.uniform(-1, 1, s.np)
    th = [ctx.rng.uniform(-1, 1, s.nth) for _ in range(k)]
    us = [ctx.rng.uniform(-1, 1, s.nu) for _ in range(k)]
    return p, th, us


def reference(s, t0, tf, x0, us, p, th):
    x, t, out = np.array(x0), t0, []
    for k, t1 in enumerate(tf):
        x = s.step(t, t1, x, us[k], p, th[k])
        out.append(x)
        t = t1
    return out


def verify(ctx, s, res, t0, tf, x0, us, p, th, tol=TOL):
    ref = reference(s, t0, tf, x0, us, p, th)
    tx, vx = res.get_entry("x")
    ty, vy = res.get_entry("y")
    tu, vu = res.get_entry("u")
    ctx.close(arr(tx.T), [t0] + tf, "time-grid", "times of x")
    ctx.close(arr(ty.T), tf, "time-grid", "times of y")
    ctx.close(arr(tu.T), tf, "time-grid", "times of u")
    ctx.close(np.array(vx.full()).T, np.array([x0] + ref).reshape(len(tf) + 1, s.n), "state-trajectory", "x", **tol)
    ctx.eq(vu.shape, (s.nu, len(tf)), "shapes", "u data")
    ctx.eq(vy.shape, (s.ny, len(tf)), "shapes", "y data")
    if s.ny:
        yr = [s.yv(t, x, u, p, h) for t, x, u, h in zip(tf, ref, us, th)]
        ctx.close(np.array(vy.full()).T, np.array(yr), "algebraic-trajectory", "y", **tol)
    if s.nu:
        ctx.close(np.array(vu.full()).T, np.array(us), "control-trajectory", "u")
    fin = res.final_condition()
    ctx.close(fin["x"], ref[-1], "final-condition", "x", **tol)
    ctx.eq((res.n_x, res.n_y, res.n_u), (s.n, s.ny, s.nu), "shapes", "sizes in the result")
    ctx.eq(list(res.x_names), s.m.x_names, "names", "x names")
    ctx.eq(list(res.u_names), s.m.u_names, "names", "u names")
    ctx.close([float(res.t_0), float(res.t_f)], [t0, tf[-1]], "time-grid", "horizon of the result")
    ctx.eq(res.finite_elements, len(tf), "time-grid", "finite elements")
    ctx.event("samples", len(tf))


@scenario("C05", quick=450, thorough=1800)
def trajectories(ctx):
    s = Sys(ctx)
    t0 = ctx.choice([0.0, 0.0, 1.3, -0.7])
    tf = grid(ctx, t0)
    K = len(tf)
    p, th, us = draw(ctx, s, K)
    x0 = ctx.rng.uniform(-1, 1, s.n)
    per_el = ctx.chance(0.5)
    if not per_el:
        us = [us[0]] * K
    u_form = ctx.randint(0, 1)
    if per_el:
        u_arg = {k: dm(us[k]) for k in ctx.perm(range(K))}
    else:
        u_arg = us[0].tolist() if u_form else dm(us[0])
    kw = dict(x_0=x0.tolist() if ctx.chance() else dm(x0), t_f=tf if (K > 1 or ctx.chance()) else tf[0], t_0=t0)
    if s.nu:
        kw["u"] = u_arg
    if s.np:
        kw["p"] = p.tolist() if ctx.chance() else dm(p)
    if s.nth:
        kw["theta"] = {k: dm(th[k]) for k in ctx.perm(range(K))}
    if s.ny:
        # a consistent or a rough guess of the algebraic variables
        y0 = s.yv(t0, x0, us[0], p, th[0]) + (0 if ctx.chance() else ctx.rng.uniform(-0.5, 0.5, s.ny))
        kw["y_0"] = y0.tolist() if ctx.chance() else dm(y0)
    if ctx.chance(0.3):
        kw["integrator_options"] = {"abstol": 1e-9, "reltol": 1e-9}
    ctx.note("dae" if s.ny else "ode", "n", s.n, "nu", s.nu, "np", s.np, "nth", s.nth, "grid", t0, tf, "per element" if per_el else "constant", np.round(x0, 3).tolist())
    fr = Frozen(ctx, **kw)
    conf = snap(config.INTEGRATOR_OPTIONS)
    res = s.m.simulate(**kw)
    fr.verify("simulate")
    ctx.check(snap(config.INTEGRATOR_OPTIONS) == conf, "inputs-unchanged", "global integrator options changed")
    verify(ctx, s, res, t0, tf, x0, us, p, th)
    if "integrator_options" in kw:
        verify(ctx, s, res, t0, tf, x0, us, p, th, dict(rtol=1e-5, atol=1e-6))


@scenario("C05", quick=150, thorough=600)
def integrators(ctx):
    """Every integrator that accepts the system gives the same trajectory."""
    s = Sys(ctx)
    t0 = ctx.choice([0.0, 0.9])
    tf = grid(ctx, t0)
    K = len(tf)
    p, th, us = draw(ctx, s, K)
    x0 = ctx.rng.uniform(-1, 1, s.n)
    kinds = ["implicit", "collocation", "idas"] if s.ny else ["implicit", "cvodes", "idas", "rk", "explicit", "collocation"]
    kw = dict(x_0=dm(x0), t_f=tf, t_0=t0, u={k: dm(us[k]) for k in range(K)}, p=dm(p), theta={k: dm(th[k]) for k in range(K)})
    if s.ny:
        kw["y_0"] = dm(s.yv(t0, x0, us[0], p, th[0]))
    for kind in ctx.sample(kinds, 2):
        ctx.note("integrator", kind, "dae" if s.ny else "ode", t0, tf)
        res = s.m.simulate(integrator_type=kind, **kw)
        verify(ctx, s, res, t0, tf, x0, us, p, th)
    with ctx.raises("bad-integrator", "an unknown integrator", ValueError):
        s.m.simulate(integrator_type="no_such", **kw)


@scenario("C05", quick=150, thorough=600)
def splitting(ctx):
    """A simulation can be stopped at any sample and continued from it; appending the parts gives the whole."""
    s = Sys(ctx)
    t0 = ctx.choice([0.0, 2.0])
    tf = grid(ctx, t0) + []
    while len(tf) < 2:
        tf = grid(ctx, t0)
    K = len(tf)
    p, th, us = draw(ctx, s, K)
    x0 = ctx.rng.uniform(-1, 1, s.n)
    mk = lambda a, b: dict(
        t_f=tf[a:b], u={k: dm(us[a + k]) for k in range(b - a)}, p=dm(p), theta={k: dm(th[a + k]) for k in range(b - a)}
    )
    y0 = dm(s.yv(t0, x0, us[0], p, th[0])) if s.ny else None
    cut = ctx.randint(1, K - 1)
    ctx.note("split", t0, tf, "at", cut)
    whole = s.m.simulate(x_0=dm(x0), t_0=t0, y_0=y0, **mk(0, K))
    a = s.m.simulate(x_0=dm(x0), t_0=t0, y_0=y0, **mk(0, cut))
    fa = a.final_condition()
    b = s.m.simulate(x_0=fa["x"], t_0=tf[cut - 1], y_0=fa["y"] if s.ny else None, **mk(cut, K))
    for q in ("x", "y", "u"):
        ctx.close(np.array(b.get_entry(q)[1].full())[:, -1], np.array(whole.get_entry(q)[1].full())[:, -1], "continuation", q, **TOL)
    verify(ctx, s, whole, t0, tf, x0, us, p, th)
    a.extend(b)
    for q in ("x", "y", "u"):
        tq, vq = a.get_entry(q)
        n_rep = 1 if q == "x" else 0  # the junction is recorded by both parts
        ctx.eq(vq.shape[1], K + 1 + n_rep if q == "x" else K, "continuation", "samples of %s after appending" % q)
        ctx.check(np.all(np.diff(arr(tq.T)) >= 0), "continuation", "times out of order")
    ctx.close([float(a.t_0), float(a.t_f)], [t0, tf[-1]], "continuation", "horizon")
    ctx.eq(a.finite_elements, K, "continuation", "finite elements")


@scenario("C05", quick=100, thorough=400)
def dae_system_simulate(ctx):
    s = Sys(ctx)
    d = s.m.get_dae_system()
    t0, dt = ctx.choice([0.0, 1.1]), ctx.uniform(0.1, 1.5)
    p, th, us = draw(ctx, s, 1)
    x0 = ctx.rng.uniform(-1, 1, s.n)
    par = np.concatenate([p, th[0], us[0]])
    kw = dict(x_0=x0.tolist() if ctx.chance() else dm(x0), t_0=t0, t_f=t0 + dt)
    if par.size:
        kw["p"] = dm(par)
    if s.ny:
        kw["y_0"] = dm(s.yv(t0, x0, us[0], p, th[0]))
    opts = {"abstol": 1e-9, "reltol": 1e-9} if ctx.chance() else None
    if opts is not None:
        kw["integrator_options"] = opts
    fr = Frozen(ctx, **kw)
    ctx.note("dae system", s.n, s.ny, par.size, t0, dt, bool(opts))
    eqs = (snap(d.ode), snap(d.alg))
    r = d.simulate(**kw)
    fr.verify("DAESystem.simulate")
    ctx.check((snap(d.ode), snap(d.alg)) == eqs, "inputs-unchanged", "simulate changed the equations")
    ref = s.step(t0, t0 + dt, x0, us[0], p, th[0])
    ctx.close(r["xf"], ref, "state-trajectory", "xf", **TOL)
    if s.ny:
        ctx.close(r["zf"], s.yv(t0 + dt, ref, us[0], p, th[0]), "algebraic-trajectory", "zf", **TOL)
    with ctx.raises("zero-length", "a simulation of zero length", ValueError):
        d.simulate(x_0=dm(x0), t_f=t0, t_0=t0)
    # an equation in element time is refused until converted, and then follows (t - t_k)/(t_k+1 - t_k)
    m = SystemModel()
    x = m.create_state("x")
    c = ctx.uniform(0.5, 2)
    m.include_equations(ode=[c * m.tau])
    d2 = m.get_dae_system()
    with ctx.raises("tau-refused", "simulating an equation in element time", AttributeError):
        d2.simulate(x_0=0.0, t_f=t0 + dt, t_0=t0)
    d2.convert_from_tau_to_time(t0, t0 + dt)
    got = d2.simulate(x_0=1.0, t_f=t0 + dt, t_0=t0)["xf"]
    ctx.close(got, 1 + c * dt / 2, "state-trajectory", "integral of tau", **TOL)
    # two systems with their own symbols for both times, put together
    A, B, C, x1 = (ctx.rng.uniform(-1, 1, 2) for _ in range(4))
    A += 2 * np.sign(A)
    sy = [[ca.SX.sym(q) for q in ("x", "t", "tau", "z")] for _ in range(2)]
    has = [True, ctx.chance(0.7)]
    alg = ctx.chance()
    ds = []
    for (xs, t, tau, z), a, b, c, h in zip(sy, A, B, C, has):
        e = c * ca.sin(t) - 0.3 * xs + (a * tau if h else 0)
        ds.append(DAESystem(x=xs, ode=z if alg else e, t=t, **(dict(y=z, alg=b * (e - z)) if alg else {}), **({"tau": tau} if h else {})))
    one, two = ds if ctx.chance() or not has[1] else ds[::-1]
    order = [0, 1] if one is ds[0] else [1, 0]
    snapped = (snap(two.ode), snap(two.alg))
    one.join(two)
    ctx.check((snap(two.ode), snap(two.alg)) == snapped, "inputs-unchanged", "join changed the other system")
    one.convert_from_tau_to_time(t0, t0 + dt)
    for q in sy[0][1:3]:
        ctx.check(one.t is not None and (ca.is_equal(q, one.t, 0) or not one.depends_on(q)), "joined-times", "depends on a time of one of the systems: %s" % q)
    for q in sy[1][1:3]:
        ctx.check(ca.is_equal(q, one.t, 0) or not one.depends_on(q), "joined-times", "depends on a time of one of the systems: %s" % q)
    got = one.simulate(x_0=dm(x1[order]), t_f=t0 + dt, t_0=t0, **({"y_0": dm(np.zeros(2))} if alg else {}))["xf"]
    want = [solve_ivp(lambda t, q: C[i] * np.sin(t) - 0.3 * q + (A[i] * (t - t0) / dt if has[i] else 0), (t0, t0 + dt), [x1[i]], rtol=1e-9, atol=1e-10).y[0, -1] for i in order]
    ctx.close(got, want, "state-trajectory", "systems in element time put together", **TOL)


@scenario("C05", quick=100, thorough=500)
def changed_in_between(ctx):
    """The system is simulated, changed, and simulated again over the same times: the answer is that of the system as it is now."""
    s = Sys(ctx)
    t0 = ctx.choice([0.0, 1.3])
    tf = grid(ctx, t0)[:2]
    K = len(tf)
    p, th, us = draw(ctx, s, K)
    us = [us[0]] * K
    x0 = ctx.rng.uniform(-1, 1, s.n)
    kw = dict(x_0=dm(x0), t_f=tf, t_0=t0)
    if s.nu:
        kw["u"] = dm(us[0])
    if s.np:
        kw["p"] = dm(p)
    if s.nth:
        kw["theta"] = {k: dm(th[k]) for k in range(K)}
    for step in range(3):
        if s.ny:
            kw["y_0"] = dm(s.yv(t0, x0, us[0], p, th[0]))
        verify(ctx, s, s.m.simulate(**kw), t0, tf, x0, us, p, th)
        what = ctx.choice(["declared again", "replaced"] if s.np else ["declared again"])
        ctx.note(what)
        if what == "replaced":
            # every parameter by k times itself
            k = ctx.rng.uniform(0.5, 2, s.np)
            s.m.replace_variable(s.m.p, dm(k) * s.m.p)
            s.D, s.Gp = s.D * k, s.Gp * k
        else:
            k = ctx.choice([0.5, 1.5])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s.m.include_equations(ode=k * s.m.ode, x=s.m.x)
            for q in ("A", "B", "D", "F", "E", "c", "nl"):
                setattr(s, q, k * getattr(s, q))
    # the same for a system of equations, and two of them put together
    a, b = Sys(ctx, dae=s.dae), Sys(ctx, dae=s.dae)
    da, db = a.m.get_dae_system(), b.m.get_dae_system()
    t1 = t0 + ctx.uniform(0.2, 1.0)
    data = []
    for q, d in ((a, da), (b, db)):
        p, th, us = draw(ctx, q, 1)
        x0 = ctx.rng.uniform(-1, 1, q.n)
        data.append((x0, np.concatenate([p, th[0], us[0]]), q.yv(t0, x0, us[0], p, th[0]) if q.ny else np.zeros(0), q.step(t0, t1, x0, us[0], p, th[0])))

    def run(d, rows):
        x0, par, y0, want = [np.concatenate([r[i] for r in rows]) for i in range(4)]
        got = d.simulate(x_0=dm(x0), t_f=t1, t_0=t0, p=dm(par) if par.size else None, y_0=dm(y0) if y0.size else None)
        ctx.close(got["xf"], want, "state-trajectory", "equations put together" if len(rows) > 1 else "equations", **TOL)

    run(da, data[:1])
    run(db, data[1:])
    da.join(db)
    run(da, data)
    run(db, data[1:])


@scenario("C05", quick=120, thorough=480)
def problem_simulate(ctx):
    """A problem simulates its own model over its own horizon from its own initial condition, unless told otherwise."""
    s = Sys(ctx)
    t0, T = ctx.choice([(0.0, ctx.uniform(0.5, 2)), (1.5, ctx.uniform(0.5, 2)), (0, 2), (1, 1), (0.5, ctx.uniform(0.5, 2))])
    x0 = ctx.rng.uniform(-1, 1, s.n)
    pr = OptimalControlProblem(s.m, t_0=t0, t_f=t0 + T, x_0=x0.tolist())
    p, th, us = draw(ctx, s, 1)
    if s.nu:
        pr.u_guess = dm(us[0])
    fe = ctx.choice([None, 1, 3, 4, 11])
    kw = {}
    t0s, tfs, x0s = t0, t0 + T, x0
    if ctx.chance(0.4):
        x0s = ctx.rng.uniform(-1, 1, s.n)
        kw["x_0"] = dm(x0s)
    if ctx.chance(0.4):
        tfs = t0 + 2 * T
        kw["t_f"] = tfs
    if ctx.chance(0.4):
        t0s = t0 + 0.3 * T
        kw["t_0"] = t0s
    K = fe or 1
    tg = [t0s + (tfs - t0s) / K * (i + 1) for i in range(K)]
    us = [us[0]] * K
    if s.nu and ctx.chance(0.5):
        us = [ctx.rng.uniform(-1, 1, s.nu)] * K
        kw["u"] = dm(us[0])
    if fe:
        kw["finite_elements"] = fe
    if s.np:
        kw["p"] = dm(p)
    th = draw(ctx, s, K)[1] if ctx.chance() else [th[0]] * K
    if s.nth:
        kw["theta"] = {k: dm(th[k]) for k in ctx.perm(range(K))}
    if s.ny:
        y0 = dm(s.yv(t0s, x0s, us[0], p, th[0]))
        if ctx.chance():
            kw["y_0"] = y0
        else:
            pr.y_guess = y0
    ctx.note("problem.simulate", sorted(kw), t0s, tfs, fe)
    res = pr.simulate(**kw)
    verify(ctx, s, res, t0s, tg, x0s, us, p, th)
    ctx.close([pr.t_0, pr.t_f], [t0, t0 + T], "inputs-unchanged", "horizon of the problem")
    ctx.close(pr.x_0, x0, "inputs-unchanged", "initial condition of the problem")


@scenario("C05", quick=60, thorough=240)
def rejected_inputs(ctx):
    s = Sys(ctx)
    t0 = 0.0
    tf = [0.3, 0.6, 0.9]
    p, th, us = draw(ctx, s, 3)
    s.m.n_u or ctx.skip("no control")
    with ctx.raises("control-count", "fewer per-element controls than elements", ValueError):
        s.m.simulate(x_0=[0.1] * s.n, t_f=tf, u={0: dm(us[0]), 1: dm(us[1])}, p=dm(p), theta={k: dm(th[k]) for k in range(3)})
    with ctx.raises("zero-length", "a first element of zero length", ValueError):
        s.m.simulate(x_0=[0.1] * s.n, t_0=0.3, t_f=tf, u=dm(us[0]), p=dm(p), theta={k: dm(th[k]) for k in range(3)})
    ctx.note("rejections", s.n, s.nu)


@scenario("C05", quick=100, thorough=800)
def closed_loop(ctx):
    """Controls that follow a law (of time, states, parameters, element parameters and free coefficients) are applied and
    reported as that law at the reported time; the free ones as given."""
    s = Sys(ctx, dae=False)
    s.nu or ctx.skip("no control")
    t0 = ctx.choice([0.0, 0.8])
    tf = grid(ctx, t0)
    K = len(tf)
    p, th, us = draw(ctx, s, K)
    x0 = ctx.rng.uniform(-1, 1, s.n)
    m = s.m
    which = ctx.sample(list(range(s.nu)), ctx.randint(1, s.nu))
    law = {}
    extra = []
    for i in which:
        c = {k: ctx.uniform(-0.6, 0.6) * ctx.chance(0.7) for k in ("x", "t", "p", "th")}
        e = c["x"] * m.x[s.n - 1] + c["t"] * m.t + 0.3 * ca.sin(m.t)
        if s.np:
            e += c["p"] * m.p[0]
        if s.nth:
            e += c["th"] * m.theta[s.nth - 1]
        q = None
        if ctx.chance():
            q = ca.SX.sym("q%d" % i)
            e += q * (1 + m.t)
            extra.append(i)
        m.parametrize_control(m.u[i], e, *([] if q is None else [q]))
        law[i] = (c, q is not None)
    free = [i for i in range(s.nu) if i not in law]
    par = [ctx.rng.uniform(-1, 1, len(free) + len(extra)) for _ in range(K)]

    def control(k, t, x):
        u = np.zeros(s.nu)
        for j, i in enumerate(free):
            u[i] = par[k][j]
        for i, (c, has) in law.items():
            u[i] = c["x"] * x[s.n - 1] + c["t"] * t + 0.3 * np.sin(t)
            if s.np:
                u[i] += c["p"] * p[0]
            if s.nth:
                u[i] += c["th"] * th[k][s.nth - 1]
            if has:
                u[i] += par[k][len(free) + extra.index(i)] * (1 + t)
        return u

    ctx.note("law", {i: ({k: round(w, 2) for k, w in c.items()}, h) for i, (c, h) in law.items()}, "free", free, t0, tf)
    kw = dict(x_0=dm(x0), t_f=tf, t_0=t0)
    if par[0].size:
        kw["u"] = {k: dm(par[k]) for k in ctx.perm(range(K))}
    if s.np:
        kw["p"] = dm(p)
    if s.nth:
        kw["theta"] = {k: dm(th[k]) for k in ctx.perm(range(K))}
    res = m.simulate(**kw)
    x, t, xs, ul = x0, t0, [x0], []
    for k, t1 in enumerate(tf):
        x = solve_ivp(lambda tt, xx: s.f(tt, xx, control(k, tt, xx), p, th[k]), (t, t1), x, rtol=1e-10, atol=1e-12).y[:, -1]
        xs.append(x)
        ul.append(control(k, t1, x))
        t = t1
    ctx.close(np.array(res.get_entry("x")[1].full()).T, np.array(xs), "state-trajectory", "x in closed loop", **TOL)
    ctx.close(np.array(res.get_entry("u")[1].full()).T, np.array(ul), "control-trajectory", "u in closed loop", **TOL)
    ctx.close(arr(res.get_entry("u")[0].T), tf, "time-grid", "times of u")
    ctx.event("closed-loop")
