import casadi as ca
import numpy as np

from checks.c05 import Sys
from vfw.core import arr, scenario
from vfw.env import dm
from vfw.freeze import Frozen
from yaocptool.methods import DirectMethod
from yaocptool.modelling import OptimalControlProblem, SystemModel
from yaocptool.mpc import MPC, PlantSimulation

RULE = (
    "Random plants (differential-algebraic, time-varying, with parameters, measurement and feed-through matrices, sub-sampling, "
    "noise) receive random sequences of controls, control functions and unacceptable controls; every recorded interval is "
    "compared with an independent integration from the recorded state, every measurement with the measurement equation.  "
    "Closed loops are run with the events of plant, estimator and solution method recorded: order, data handed on, number of "
    "iterations, and the control sent against an independent solution of the problem from the measured state."
)
ASSUMPTIONS = ["scipy.integrate.solve_ivp as reference", "integrators run with their default tolerances: relative error below 2e-3"]
TOL = dict(rtol=2e-3, atol=4e-4)


def v(d):
    return np.array(ca.DM(d).full(), float).ravel()


def col(entry, name):
    e = entry.data[name]
    return v(e.time), np.array(ca.DM(e.values).full(), float).T


class Plant:
    """A PlantSimulation and the recomputation of all it should have done."""

    def __init__(self, ctx, noise=False, **over):
        self.ctx = ctx
        damping = 4.0 if noise else 0.5  # (long runs: the system has to be stable)
        s = Sys(ctx, damping=damping)
        while s.nu == 0:
            s = Sys(ctx, damping=damping)
        self.s = s
        r = ctx.rng
        self.x0, self.u0 = r.uniform(-1, 1, s.n), r.uniform(-1, 1, s.nu)
        self.y0 = r.uniform(-1, 1, s.ny)
        self.p, self.th = r.uniform(-1, 1, s.np), r.uniform(-1, 1, s.nth)
        self.t0 = ctx.choice([0.0, 0.0, 2.0, -0.5])
        self.ts = ctx.choice([0.1, 0.25, 0.5, 1.0])
        kw = {}
        self.C, self.D = np.eye(s.n + s.ny), None
        if ctx.chance(0.6):
            k = ctx.choice([1, 2, s.n + s.ny, s.n + s.ny + 1])
            self.C = r.uniform(-1, 1, (k, s.n + s.ny))
            kw["c_matrix"] = dm(self.C)
        if ctx.chance(0.4):
            self.D = r.uniform(-1, 1, (self.C.shape[0], s.nu))
            kw["d_matrix"] = dm(self.D)
        self.sub = [1.0]
        c = ctx.randint(0, 3)
        if c == 1:
            k = ctx.choice([1, 2, 3, 3, 7, 11])
            kw["super_samling"] = k
            self.sub = [(i + 1) / k for i in range(k)]
        elif c == 2:
            self.sub = sorted(round(float(q), 3) for q in r.uniform(0.1, 0.9, ctx.randint(0, 2))) + [1.0]
            kw["super_samling"] = list(self.sub)
        if self.t0 or ctx.chance():
            kw["t_0"] = self.t0
        if self.ts != 1.0 or ctx.chance():
            kw["t_s"] = self.ts
        if ctx.chance(0.3):
            self.u0 = np.zeros(s.nu)
        else:
            kw["u_0"] = dm(self.u0)
        if s.ny:
            kw["y_guess"] = dm(self.y0)
        kw.update(over)
        self.kw = kw
        args = dict(model=s.m, x_0=dm(self.x0), verbosity=0, **kw)
        fr = Frozen(ctx, x_0=args["x_0"], **{k: q for k, q in kw.items() if isinstance(q, ca.DM)})
        self.pl = PlantSimulation(**args)
        if s.np:
            self.pl.p = dm(self.p)
        if s.nth:
            self.pl.theta = {0: dm(self.th)}
        self.frozen = fr
        self.log = []  # (t, u) of every recorded interval
        self.t = self.t0
        self.iv = []  # intervals: (t start, t end, u)
        self.u = self.u0

    def meas(self, x, y, u):
        m = self.C @ np.concatenate([x, y])
        return m if self.D is None else m + self.D @ u

    def advance(self, ufun):
        a = self.t
        for q in self.sub:
            b = a + q * self.ts
            self.u = np.array(ufun(self.t), float).ravel()
            self.iv.append((self.t, b, self.u))
            self.t = b

    def observe(self, what, noise=False):
        ctx, s, pl = self.ctx, self.s, self.pl
        t, m, u = pl.get_measurement()
        ctx.close(float(t), self.t, "plant-time", what)
        ctx.close(v(u), self.u, "plant-control", what)
        tx, X = col(pl.dataset, "x")
        ty, Y = col(pl.dataset, "y")
        tu, U = col(pl.dataset, "u")
        times = [self.t0] + [b for _, b, _ in self.iv]
        for q, w in ((tx, "x"), (tu, "u")):
            ctx.close(q, times, "plant-record-times", "%s: times of %s" % (what, w))
        ctx.eq(X.shape, (len(times), s.n), "plant-record", "%s: states" % what)
        ctx.close(X[0], self.x0, "plant-record", "%s: initial state" % what)
        ctx.close(U, np.array([self.u0] + [q for _, _, q in self.iv]).reshape(-1, s.nu), "plant-record", "%s: controls" % what)
        for k, (a, b, uk) in enumerate(self.iv):
            x = s.step(a, b, X[k], uk, self.p, self.th)
            if not noise:
                ctx.close(X[k + 1], x, "plant-trajectory", "%s: x at t=%g" % (what, b), **TOL)
            if s.ny and not noise:
                ctx.close(Y[k + 1], s.yv(b, x, uk, self.p, self.th), "plant-trajectory", "%s: y at t=%g" % (what, b), **TOL)
        tm, Mw = col(pl.dataset, "meas_wo_noise")
        tm2, Mn = col(pl.dataset, "meas")
        idx = [0] + [len(self.sub) * (i + 1) for i in range(len(self.iv) // len(self.sub))]
        ctx.close(tm, [times[i] for i in idx], "plant-record-times", "%s: times of the measurements" % what)
        ctx.close(tm2, tm, "plant-record-times", "%s: times of the noisy measurements" % what)
        us = [self.u0] + [q for _, _, q in self.iv]
        want = np.array([self.meas(X[i], Y[i] if s.ny else np.zeros(0), us[i]) for i in idx])
        ctx.close(Mw, want, "measurement-equation", what)
        if not noise:
            ctx.close(Mn, Mw, "measurement-equation", "%s: without noise both are the same" % what)
        ctx.close(v(m), Mn[-1], "last-measurement", what)
        ctx.close(v(pl.x), X[-1], "plant-state", what)
        self.frozen.verify(what)
        ctx.event("intervals", len(self.iv))
        return X, Mn, Mw


def forms(ctx, u):
    k = ctx.randint(0, 2)
    if k == 0 and len(u) == 1:
        return ctx.choice([float(u[0]), [float(u[0])]])
    if k == 1:
        return [float(q) for q in u]
    return dm(u)


@scenario("C21", quick=60, thorough=600)
def plants(ctx):
    P = Plant(ctx)
    s = P.s
    ctx.note("n=%d ny=%d nu=%d sub=%s kw=%s" % (s.n, s.ny, s.nu, P.sub, sorted(P.kw)))
    P.observe("new plant")
    for i in range(ctx.randint(1, 4)):
        op = ctx.choice(["control", "control", "function", "refused", "look"])
        ctx.note(op)
        ctx.event(op)
        if op == "control":
            u = ctx.rng.uniform(-1, 1, s.nu)
            arg = forms(ctx, u)
            f = Frozen(ctx, u=arg)
            P.pl.set_control(arg)
            f.verify("set_control")
            P.advance(lambda t, u=u: u)
        elif op == "function":
            a, b = ctx.rng.uniform(-1, 1, s.nu), ctx.rng.uniform(-1, 1, s.nu)
            t = ca.SX.sym("t")
            fn = ca.Function("u", [t], [dm(a) + dm(b) * t])
            P.pl.set_control_function(fn if ctx.chance() else (lambda t, fn=fn: fn(t)))
            P.advance(lambda t, a=a, b=b: a + b * t)
        elif op == "refused":
            bad = dm(ctx.rng.uniform(-1, 1, ctx.choice([k for k in (0, s.nu + 1, s.nu + 2) if k != s.nu])))
            with ctx.raises("unacceptable-control-refused", "control of size %d for %d controls" % (bad.numel(), s.nu), ValueError):
                P.pl.set_control(bad)
        else:
            P.pl.get_measurement()
        P.observe("after %s" % op)


def cov(ctx, n):
    L = np.tril(ctx.rng.uniform(-1, 1, (n, n)))
    for i in range(n):
        L[i, i] = ctx.uniform(0.5, 1.0)
    return 0.05 * L @ L.T


@scenario("C21", quick=10, thorough=60)
def noise(ctx):
    state = ctx.rng.bit_generator.state
    runs = []
    N = 60
    for rep in range(2):
        ctx.rng.bit_generator.state = state
        seed = ctx.randint(0, 10 ** 6)
        P0 = Plant(ctx, noise=True)
        # the same plant with noise
        ctx.rng.bit_generator.state = state
        ctx.randint(0, 10 ** 6)
        C = P0.C
        rn, rv = cov(np_ctx(ctx), C.shape[0]), cov(np_ctx(ctx), P0.s.n)
        which = ["n", "v", "both"][seed % 3]
        ctx.rng.bit_generator.state = state
        ctx.randint(0, 10 ** 6)
        over = dict(has_noise=True, noise_seed=seed)
        over["r_n"] = dm(rn if which != "v" else 0 * rn)
        over["r_v"] = dm(rv if which != "n" else 0 * rv)
        P = Plant(ctx, noise=True, **over)
        us = ctx.rng.uniform(-1, 1, (N, P.s.nu))
        for k in range(N):
            P.pl.set_control(dm(us[k]))
            P.advance(lambda t: us[k])
        X, Mn, Mw = P.observe("noisy plant", noise=True)
        runs.append((X, Mn))
    ctx.close(runs[0][0], runs[1][0], "noise-repeatable", "states with the same seed")
    ctx.close(runs[0][1], runs[1][1], "noise-repeatable", "measurements with the same seed")
    e = (Mn - Mw)[1:]
    spread(ctx, e, rn if which != "v" else 0 * rn, "measurement-noise")
    w = np.array([X[k + 1] - P.s.step(a, b, X[k], u, P.p, P.th) for k, (a, b, u) in enumerate(P.iv)])
    spread(ctx, w, rv if which != "n" else 0 * rv, "process-noise", tol=2e-3 * (1 + np.abs(X).max()))
    ctx.event("noise samples", len(e) + len(w))


class np_ctx:
    """The draws of the covariances are the same in both runs whatever the plant drew."""

    def __init__(self, ctx):
        self.rng = np.random.default_rng(ctx.randint(0, 10 ** 9))

    def uniform(self, a, b):
        return self.rng.uniform(a, b)


def spread(ctx, e, R, mech, tol=1e-9):
    """Sample second moments of the noise against its covariance (very wide bounds: five standard errors and more)."""
    n = len(e)
    if not R.any():
        # (an integration error may be left in the process noise)
        ctx.check(np.abs(e).max() <= tol, mech, "no noise was asked for, %g observed" % np.abs(e).max())
        return
    S = e.T @ e / n
    d = np.sqrt(np.diag(R))
    dev = np.abs(S - R) / np.outer(d, d)
    ctx.check(dev.max() <= 9 / np.sqrt(n) + 0.02, mech, "covariance of %d samples %s, asked for %s" % (n, S.tolist(), R.tolist()))


# --------------------------------------------------------------------------- closed loops
class Loop:
    def __init__(self, ctx, dc=None):
        self.ctx = ctx
        r = ctx.rng
        self.n, self.nu = ctx.randint(1, 3), ctx.randint(1, 2)
        self.np_, self.nth = ctx.choice([0, 2, 3]), ctx.choice([0, 0, 2])
        n, nu = self.n, self.nu
        self.A = r.uniform(-0.7, 0.7, (n, n)) - 0.5 * np.eye(n)
        self.B = r.uniform(0.4, 1, (n, nu)) * r.choice([-1, 1], (n, nu))
        self.D = r.uniform(-0.3, 0.3, (n, self.np_))
        self.F = r.uniform(-0.3, 0.3, (n, self.nth))
        self.Q, self.R = r.uniform(0.5, 2, n), r.uniform(0.3, 1, nu)
        self.ub = ctx.choice([0.2, 0.5, 2.0, 20.0])
        self.fe = ctx.choice([1, 2, 3, 4, 5, 3, 4, 5])
        self.ts = ctx.choice([0.2, 0.3, 0.5])
        self.deg = ctx.choice([2, 3])
        self.scheme = ctx.choice(["collocation", "collocation", "multiple-shooting"])
        self.dc = dc or ctx.choice([1, 1, 1, 2])
        if self.dc > self.deg:
            self.dc = 1
        self.p = r.uniform(-1, 1, self.np_)
        self.th = [r.uniform(-1, 1, self.nth) for _ in range(self.fe)]
        self.x0 = r.uniform(-1, 1, n)
        self.u0 = r.uniform(-0.2, 0.2, nu)

    def model(self):
        m = SystemModel(name="sys")
        m.create_state("x", self.n)
        m.create_control("u", self.nu)
        if self.np_:
            m.create_parameter("p", self.np_)
        if self.nth:
            m.create_theta("th", self.nth)
        ode = ca.mtimes(dm(self.A), m.x) + ca.mtimes(dm(self.B), m.u)
        if self.np_:
            ode += ca.mtimes(dm(self.D), m.p)
        if self.nth:
            ode += ca.mtimes(dm(self.F), m.theta)
        m.include_equations(ode=ode)
        return m

    def method(self):
        pr = OptimalControlProblem(self.model(), x_0=dm(np.zeros(self.n)), t_f=self.fe * self.ts)
        M = pr.model
        pr.L = ca.dot(dm(self.Q), M.x ** 2) + ca.dot(dm(self.R), M.u ** 2)
        pr.u_min, pr.u_max = dm([-self.ub] * self.nu), dm([self.ub] * self.nu)
        kw = dict(integrator_type="rk") if self.scheme != "collocation" else {}
        return DirectMethod(
            pr, discretization_scheme=self.scheme, finite_elements=self.fe, degree=self.deg, degree_control=self.dc,
            initial_condition_as_parameter=True, nlpsol_opts={}, **kw
        )

    def reference(self, x, p, th):
        """First control polynomial of an independent solution from x."""
        a = {}
        if self.np_:
            a["p"] = dm(p)
        if self.nth:
            a["theta"] = {e: dm(th[e]) for e in range(self.fe)}
        res = self.method().solve(x_0=dm(np.append(x, 0.0)), **a)
        return [v(q) for q in res.u_data["values"][0]]


class Recorder:
    """A plant known only through the plant interface; every call is an event."""

    name = "recorder"

    def __init__(self, loop, log, model):
        self.loop, self.log, self.model = loop, log, model
        self.t_0 = self.t = 0.0
        self.t_s = loop.ts
        self.x, self.u = loop.x0.copy(), loop.u0.copy()
        self.stop_after = None
        self.sent = 0

    def get_measurement(self):
        if self.stop_after is not None and self.sent >= self.stop_after:
            raise KeyboardInterrupt
        self.log.append(("measure", self.t, self.x.copy(), self.u.copy()))
        return self.t, dm(self.x), dm(self.u)

    def set_control(self, u):
        self.u = v(ca.DM(u))
        self.log.append(("control", self.u.copy()))
        h = self.t_s / 4
        L = self.loop
        for _ in range(4):
            self.x = self.x + h * (L.A @ self.x + L.B @ self.u[: L.nu])
        self.t += self.t_s
        self.sent += 1


class Estimator:
    def __init__(self, ctx, n, log):
        self.ctx, self.n, self.log = ctx, n, log
        self.b = ctx.rng.uniform(-0.1, 0.1, n)
        self.k = 0

    def estimate(self, t_k, y_k, u_k):
        self.k += 1
        P = np.outer(self.b, self.b) + (0.01 + 0.003 * self.k) * np.eye(self.n)
        x = v(y_k) + self.b / self.k
        self.log.append(("estimate", float(t_k), v(y_k), v(u_k), x, P))
        return dm(x), dm(P)


def guess_of_iteration(ctx, sm, L, last, guess):
    """The first problem starts from its own guess, the others from the last solution moved on by one element."""
    if last is None:
        ctx.check(guess is None, "guess-of-an-iteration", "first problem")
        return
    if L.scheme != "collocation":
        ctx.close(v(guess), last, "guess-of-an-iteration", "last solution")
        return
    a, b = (sm.discretizer.unpack_decision_variables(dm(q)) for q in (last, v(guess)))
    flat = lambda el: np.concatenate([v(q) for q in el])
    for e in range(L.fe):
        o = min(e + 1, L.fe - 1)
        ctx.close(flat(b[0][e]), flat(a[0][o]), "guess-of-an-iteration", "states of element %d" % e)
        ctx.close(flat(b[2][e]), flat(a[2][o]), "guess-of-an-iteration", "controls of element %d" % e)
    ctx.close(flat(b[0][L.fe]), flat(a[0][L.fe]), "guess-of-an-iteration", "final state")


@scenario("C21", quick=30, thorough=250)
def closed_loops(ctx):
    L = Loop(ctx, dc=1)
    log = []
    sm = L.method()
    real = sm.solve

    def solve(*a, **k):
        names = ["initial_guess", "p", "theta", "x_0", "last_u", "initial_guess_dict"]
        k.update(dict(zip(names, a)))
        res = real(**k)
        log.append(("solve", dict(k), [v(q) for q in res.u_data["values"][0]], np.array(v(res.raw_decision_variables))))
        log[-1] += (res,)
        return res

    sm.solve = solve
    plant = Recorder(L, log, L.model())
    kw = dict(include_cost_in_state_vector=True, verbosity=ctx.choice([0, 0, 1]))
    est = None
    if ctx.chance(0.6):
        est = kw["estimator"] = Estimator(ctx, L.n, log)
    p_user = dm(L.p) if L.np_ else None
    if L.np_:
        kw["p"] = p_user
    th_user = {e: dm(L.th[e]) for e in range(L.fe)}
    if L.nth:
        kw["theta"] = th_user
    mean_idx, cov_idx = [], []
    if L.np_ and ctx.chance(0.6):
        mean_idx = [(ctx.randint(0, L.n - 1), ctx.randint(0, L.np_ - 1))]
        kw.update(mean_as_parameter=True, mean_p_indices=mean_idx)
    if L.np_ and ctx.chance(0.6):
        cov_idx = [(ctx.randint(0, L.n * L.n - 1), q) for q in ctx.sample([i for i in range(L.np_) if i not in [b for _, b in mean_idx]], 1)]
        kw.update(covariance_as_parameter=True, cov_p_indices=cov_idx)
    perm = None
    if ctx.chance(0.3):
        perm = ctx.perm(range(L.n))
        kw["state_rearrangement_function"] = lambda x: ca.vertcat(*[x[i] for i in perm], 0)
    cls, hook = MPC, ctx.choice([None, None, "control", "states", "measurement"])
    if hook:

        class Sub(MPC):
            if hook == "control":

                def post_process_get_new_control(self, u):
                    return [ca.DM(q) * 0.5 for q in u]

            if hook == "states":

                def post_process_states(self, x_k, cov):
                    return x_k * 0.9, cov * 2

            if hook == "measurement":

                def post_process_measurement(self, t, m, u):
                    return t, m + 0.1, u

        cls = Sub
    fr = Frozen(ctx, p=p_user, theta=th_user) if L.np_ else Frozen(ctx, theta=th_user)
    mpc = cls(plant, sm, **kw)
    expect, its = [], 0
    ctx.note("scheme=%s n=%d nu=%d np=%d nth=%d est=%s hook=%s mean=%s cov=%s perm=%s" % (L.scheme, L.n, L.nu, L.np_, L.nth, est is not None, hook, mean_idx, cov_idx, perm))
    for _ in range(ctx.randint(1, 3)):
        op = ctx.choice(["run", "run", "forever", "fixed", "fixed+est"])
        n = ctx.randint(1, 3)
        ctx.note(op, n)
        ctx.event(op)
        if op == "run":
            mpc.run(n)
        elif op == "forever":
            plant.stop_after = plant.sent + n
            try:
                mpc.run(0) if ctx.chance() else mpc.run()
                ctx.check(False, "runs-indefinitely", "run(0) came back")
            except KeyboardInterrupt:
                pass
            plant.stop_after = None
        else:
            u = ctx.rng.uniform(-1, 1, L.nu)
            (mpc.run_fixed_control if op == "fixed" else mpc.run_fixed_control_with_estimator)(forms(ctx, u), n)
        expect += [(op, u if op.startswith("fixed") else None)] * n
        its += n
    # the events, iteration by iteration
    k, nsolve, solved, last = 0, 0, [], None
    for op, u in expect:
        want = ["measure"]
        if op != "fixed" and est is not None:
            want.append("estimate")
        if not op.startswith("fixed"):
            want.append("solve")
        want.append("control")
        got = log[k : k + len(want)]
        k += len(want)
        ctx.eq([q[0] for q in got], want, "order-of-an-iteration", op)
        _, t, x, ulast = got[0]
        meas = x + 0.1 if hook == "measurement" else x
        xe, P = meas, np.zeros((L.n, L.n))
        if "estimate" in want:
            e = got[want.index("estimate")]
            ctx.close(e[1], t, "estimator-input", "time")
            ctx.close(e[2], meas, "estimator-input", "measurement")
            ctx.close(e[3], ulast, "estimator-input", "control")
            xe, P = e[4], e[5]
        if hook == "states":
            xe, P = 0.9 * xe, 2 * P
        sent = got[-1][1]
        if op.startswith("fixed"):
            ctx.close(sent, u, "fixed-control-sent", op)
            continue
        args, first = got[want.index("solve")][1:3]
        nsolve += 1
        guess_of_iteration(ctx, sm, L, last, args.get("initial_guess"))
        last = got[want.index("solve")][3]
        xo = xe if perm is None else xe[perm]
        ctx.close(v(args["x_0"]), np.append(xo, 0.0), "problem-solved-from-the-estimate", "x_0")
        if L.np_:
            p = L.p.copy()
            for a, b in mean_idx:
                p[b] = xe[a]
            for a, b in cov_idx:
                p[b] = P.ravel()[a]
            ctx.close(v(args["p"]), p, "parameters-of-the-problem", "p")
        if L.nth:
            for e in range(L.fe):
                ctx.close(v(args["theta"][e]), L.th[e], "parameters-of-the-problem", "theta of element %d" % e)
        if args.get("last_u") is not None:
            ctx.close(v(args["last_u"]), ulast, "parameters-of-the-problem", "last control")
        scale = 0.5 if hook == "control" else 1.0
        ctx.close(sent, scale * first[0], "control-of-the-solution-sent", "iteration at t=%g" % t)
        solved.append((xo, p if L.np_ else None, first))
    ctx.eq(len(log), k, "order-of-an-iteration", "events after the last iteration")
    ctx.eq(len(mpc.statistics["iteration_time"]), nsolve, "statistics", "one time per solution")
    for q in log:
        if q[0] == "solve":
            ctx.close(v(q[4].raw_decision_variables), q[3], "solution-left-alone", "decision variables of a past solution")
    if solved:
        x, p, first = solved[ctx.randint(0, len(solved) - 1)]
        ref = L.reference(x, p, L.th)
        ctx.close(first[0], ref[0], "control-is-optimal", "first control from x=%s" % x, rtol=5e-3, atol=5e-3)
    fr.verify("MPC")
    ctx.event("iterations", its)


@scenario("C21", quick=10, thorough=100)
def polynomial_control(ctx):
    """A polynomial control is sent as a function of time: the plant applies it at every sampling point."""
    L = Loop(ctx, dc=2)
    if L.dc != 2:
        ctx.skip("degree")
    from vfw.ocpgen import lagrange, radau

    k = ctx.randint(2, 5)
    sm = L.method()
    plant = PlantSimulation(L.model(), dm(L.x0), dm(L.u0), t_s=L.ts, super_samling=k, verbosity=0, t_0=ctx.choice([0.0, 1.5]))
    kw = {}
    if L.np_:
        kw["p"] = dm(L.p)
    if L.nth:
        kw["theta"] = {e: dm(L.th[e]) for e in range(L.fe)}
    plant.p = dm(L.p) if L.np_ else None
    plant.theta = {0: dm(L.th[0])} if L.nth else None
    before = ctx.randint(0, 2)  # the plant was running before
    for _ in range(before):
        plant.set_control(dm(L.u0))
    mpc = MPC(plant, sm, include_cost_in_state_vector=True, verbosity=0, **kw)
    n = ctx.randint(1, 3)
    if n > 1 and ctx.chance():
        mpc.run(1)
        mpc.run(n - 1)
    else:
        mpc.run(n)
    _, U = col(plant.dataset, "u")
    _, X = col(plant.dataset, "x")
    lag = lagrange(radau(2))
    for i in range(n):
        ref = L.reference(X[(before + i) * k], L.p if L.np_ else None, L.th if L.nth else None)
        for j in range(k):
            want = sum(np.polyval(c, j / k) * ref[q] for q, c in enumerate(lag))
            ctx.close(U[1 + (before + i) * k + j], want, "control-polynomial-applied", "iteration %d, point %d" % (i, j), rtol=1e-2, atol=1e-2)
    ctx.event("iterations", n)
