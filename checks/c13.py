import casadi as ca
import numpy as np

from vfw.core import arr, scenario
from vfw.env import dm
from vfw.freeze import Frozen
from vfw.ocpgen import Plan

RULE = (
    "Random optimal control problems that are feasible by construction (ODE/DAE, time-varying, parameters, decision "
    "parameters, bounds on states, algebraics, controls and control moves, path, final and parameter constraints, both "
    "discretizations, several degrees) are solved; every returned point is compared with an independent simulation of the "
    "returned control and every declared constraint is evaluated in plain numpy at the points the documentation names."
)
ASSUMPTIONS = ["IPOPT converges on small feasible problems", "multiple shooting is accurate to 1e-3 (default integrator tolerances)"]


def v(d):
    return np.array(ca.DM(d).full(), float).ravel()


def judge(ctx, pl, res, tag="", cost_state=True):
    ms = pl.scheme == "multiple-shooting"
    tol = dict(rtol=2e-3, atol=1e-3) if ms else dict(rtol=1e-5, atol=2e-6)
    ctx.event("solutions")
    if ms and pl.integrator == "implicit" and not res.success:
        # noise of the adaptive integrator in the derivatives: IPOPT may stop early; nothing is claimed then
        ctx.event("not-converged")
        return False
    if not ctx.check(bool(res.success), "solved", lambda: "%s%s" % (tag, res.stats.get("return_status"))):
        return False
    u, p, th, x0 = pl.read(res)
    ctx.eq(u.shape, (pl.fe, pl.dc, pl.nu), "layout", tag + "controls")
    X, cost, J = pl.simulate(u, p, th, x0)
    ix = [list(res.x_names).index(q) for q in pl.m.x_names]
    xv = res.x_data["values"]
    ctx.eq(len(xv), pl.fe + 1, "layout", tag + "x elements")
    for e in range(pl.fe):
        got = np.array([v(q)[ix] for q in xv[e]])
        want = X[e][:1] if ms else X[e]
        ctx.close(got, want, "dynamics", "%sx in element %d against the simulation of the returned control" % (tag, e), **tol)
        tw = [pl.tb[e]] if ms else list(pl.tb[e] + pl.dt * np.concatenate([[0], pl.tau]))
        ctx.close(res.x_data["time"][e], tw, "times", tag + "x times", atol=1e-9)
        if pl.ny:
            yg = np.array([v(q) for q in res.y_data["values"][e]])
            ss = [1.0] if ms else pl.tau
            yw = np.array([pl.yv(pl.tb[e] + s * pl.dt, X[e][j + 1], pl.u_at(u[e], s), p, th[e]) for j, s in enumerate(ss)])
            ctx.close(yg, yw, "algebraic", "%sy in element %d" % (tag, e), **tol)
            ctx.close(res.y_data["time"][e], [pl.tb[e] + s * pl.dt for s in ss], "times", tag + "y times", atol=1e-9)
        uw = pl.tb[e] + pl.dt * pl.tau_u
        ctx.close(res.u_data["time"][e], list(uw), "times", tag + "u times", atol=1e-9)
    ctx.close(v(xv[-1][-1])[ix], X[-1][-1], "dynamics", tag + "final x", **tol)
    # bounds on what is returned
    b = 1e-5
    for e in range(pl.fe):
        for q in xv[e]:
            x = v(q)[ix]
            ctx.le(pl.xlb, x, "state-bounds", tag + "x_min", b)
            ctx.le(x, pl.xub, "state-bounds", tag + "x_max", b)
        for q in res.y_data["values"][e]:
            ctx.le(pl.ylb, v(q), "algebraic-bounds", tag + "y_min", b)
            ctx.le(v(q), pl.yub, "algebraic-bounds", tag + "y_max", b)
        for q in u[e]:
            ctx.le(pl.ulb, q, "control-bounds", tag + "u_min", b)
            ctx.le(q, pl.uub, "control-bounds", tag + "u_max", b)
        if pl.dlb is not None:
            d = u[e][0] - u[e - 1][0] if e else (u[0][0] - pl.last_u if pl.last_u is not None else None)
            if d is not None:
                ctx.le(pl.dlb, d, "move-bounds", "%sdelta_u_min, element %d" % (tag, e), b)
                ctx.le(d, pl.dub, "move-bounds", "%sdelta_u_max, element %d" % (tag, e), b)
        if pl.to:
            ctx.le(pl.tlb, th[e][pl.to], "parameter-bounds", tag + "theta_opt_min", b)
            ctx.le(th[e][pl.to], pl.tub, "parameter-bounds", tag + "theta_opt_max", b)
    if pl.po:
        ctx.le(pl.plb, p[pl.po], "parameter-bounds", tag + "p_opt_min", b)
        ctx.le(p[pl.po], pl.pub, "parameter-bounds", tag + "p_opt_max", b)
    fixed = [i for i in range(pl.n) if i not in pl.free0]
    ctx.close(v(xv[0][0])[ix][fixed], pl.x0[fixed], "initial-condition", tag + "x(t_0)", atol=1e-6)
    ct = 2e-3 if ms else 1e-4
    for row in pl.path:
        for t, x, y, uu, h in pl.points(row["when"], X, u, th, p):
            val = pl.path_value(row, t, x, y, uu, p, h)
            if row["eq"]:
                ctx.check(abs(val) < ct, "path-equality", lambda: "%s%g at t=%g (%s)" % (tag, val, t, row["when"]))
            else:
                ctx.check(val < ct, "path-inequality", lambda: "%s%g at t=%g (%s)" % (tag, val, t, row["when"]))
    if pl.hf is not None:
        val = pl.hf[0] @ X[-1][-1] - pl.hf[1]
        ctx.check(abs(val) < ct, "final-equality", lambda: "%s%g" % (tag, val))
    if pl.hp is not None:
        val = pl.hp[0] @ p[pl.po] - pl.hp[1]
        ctx.check(abs(val) < 1e-5, "parameter-equality", lambda: "%s%g" % (tag, val))
    # the cost reported is the cost of the trajectory
    ctx.close(v(res.objective_opt_problem), [J], "objective", tag + "objective", rtol=tol["rtol"], atol=max(1e-5, tol["atol"]))
    if cost_state:
        ctx.close(v(res.x_c_final), [cost], "running-cost", tag + "integral of the running cost", rtol=tol["rtol"], atol=max(1e-5, tol["atol"]))
    ctx.close(v(res.p), p, "parameters-reported", tag + "p", atol=1e-9)
    for e in range(pl.fe):
        ctx.close(v(res.theta[e]), th[e], "parameters-reported", tag + "theta", atol=1e-9)
    return True


@scenario("C13", quick=220, thorough=1500)
def feasible(ctx):
    pl = Plan(ctx, scheme="collocation")
    ctx.note(pl.describe())
    kw = {}
    if ctx.chance(0.2):
        kw["initial_guess_heuristic"] = "problem_info"
    if ctx.chance(0.2) and not pl.free0:
        kw["initial_condition_as_parameter"] = False
    mt = pl.method(**kw)
    a = pl.solve_args()
    fr = Frozen(ctx, **a)
    res = pl.solve(mt, a)
    fr.verify("solve")
    judge(ctx, pl, res)


@scenario("C13", quick=80, thorough=500)
def feasible_shooting(ctx):
    # now and then with more elements, or more constraints, than one digit counts
    big = ctx.choice([{}] * 8 + [dict(fe=11, n=1, nu=1, ny=0), dict(fe=2, rows=11, margin=1.0)])
    pl = Plan(ctx, scheme="multiple-shooting", **(big if "fe" in big else dict(fe=ctx.randint(2, 4))))
    ctx.note(pl.describe())
    kw = {}
    if ctx.chance(0.2):
        kw["initial_guess_heuristic"] = "problem_info"
    if ctx.chance(0.2) and not pl.free0:
        kw["initial_condition_as_parameter"] = False
    sumc = ctx.chance(0.6 if big else 0.25)
    if sumc:
        kw["cost_as_a_sum"] = True
    a = pl.solve_args()
    fr = Frozen(ctx, **a)
    res = pl.solve(pl.method(**kw), a)
    fr.verify("solve")
    judge(ctx, pl, res, cost_state=not sumc)


@scenario("C13", quick=70, thorough=400)
def moves(ctx):
    """Limits on how fast the control moves, from the last control applied before the horizon on."""
    ms = ctx.chance(0.4)
    pl = Plan(ctx, scheme="multiple-shooting" if ms else "collocation", fe=ctx.randint(1, 3), dc=1, n=ctx.randint(1, 2), nu=ctx.choice([1, 2, 3]), ny=0,
              np=0, nth=0, nl=0.0, du=True, last_u=True, margin=ctx.choice([0.2, 1.0]), ubox=False, free0=False, diagR=True)
    ctx.note(pl.describe())
    res = pl.solve(pl.method(), pl.solve_args())
    if judge(ctx, pl, res):
        u = pl.read(res)[0]
        d = np.diff(np.vstack([pl.last_u[None, :], u[:, 0]]), axis=0)
        ctx.event("moves-at-their-limit", int((np.minimum(np.abs(d - pl.dlb), np.abs(d - pl.dub)) < 1e-4).sum()))


@scenario("C13", quick=24, thorough=100)
def refusals(ctx):
    """Requests that mean nothing are refused before anything is solved."""
    what = ctx.turn(["x_0", "scheme", "heuristic", "rate of a polynomial control"])
    ctx.note(what)
    if what == "x_0":
        pl = Plan(ctx, free0=False)
        mt = pl.method()
        a = pl.solve_args()
        mt.create_optimization_problem()
        n = mt.problem.model.n_x
        a["x_0"] = ca.DM.ones(ctx.choice([n + 1, n + 2] + ([n - 1] if n > 1 else [])))
        with ctx.raises("refused", "an initial condition of the wrong size"):
            mt.solve(**a)
    elif what == "scheme":
        pl = Plan(ctx)
        with ctx.raises("refused", "an unknown discretization"):
            pl.method(discretization_scheme="shooting").solve(**pl.solve_args())
    elif what == "heuristic":
        pl = Plan(ctx)
        with ctx.raises("refused", "an unknown way to guess"):
            pl.method(initial_guess_heuristic="wish").solve(**pl.solve_args())
    else:
        pl = Plan(ctx, deg=ctx.choice([3, 4]), dc=ctx.choice([2, 3]))
        side, b = ctx.choice([("min", -1.0), ("max", 1.0)])
        d = np.full(pl.nu, b * np.inf)
        d[ctx.randint(0, pl.nu - 1)] = b
        setattr(pl.pr, "delta_u_" + side, dm(d))
        with ctx.raises("refused", "a rate bound on a control that is not piecewise constant"):
            pl.method().solve(**pl.solve_args())
    ctx.event("refused")
