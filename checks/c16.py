import casadi as ca
import numpy as np

from vfw.core import scenario
from vfw.env import dm
from vfw.freeze import Frozen
from vfw.ocpgen import Plan
from checks.c13 import judge, v

RULE = (
    "One solution method is solved again and again with changing initial conditions, parameters, per-element parameters, "
    "last controls, guesses and warm starts (as a receding-horizon controller does), interleaved with other methods; every "
    "answer is judged against the data of its own call by an independent simulation and an optimality certificate, and "
    "earlier results and the arguments must stay as they were."
)
ASSUMPTIONS = ["IPOPT converges on small feasible problems"]


def draw(ctx, pl, first):
    """New data for the next call; None: leave out (the problem's own value applies)."""
    r = ctx.rng
    if not first:
        if not pl.free0 and ctx.chance(0.7):
            pl.x0 = r.uniform(-1, 1, pl.n)
            pl.x0_given = True
        if ctx.chance(0.7):
            p = r.uniform(-1, 1, pl.np)
            p[pl.po] = pl.p[pl.po]
            pl.p = p
        if ctx.chance(0.7):
            th = [r.uniform(-1, 1, pl.nth) for _ in range(pl.fe)]
            for e in range(pl.fe):
                th[e][pl.to] = pl.th[e][pl.to]
            pl.th = th
        if pl.last_u is not None and ctx.chance(0.7):
            pl.last_u = pl.last_u + r.uniform(-0.3, 0.3, pl.nu)
            pl.last_given = True


def call(ctx, pl, mt, hist):
    a = pl.solve_args()
    if getattr(pl, "last_given", False):
        a["last_u"] = dm(pl.last_u)
    if pl.x0_given:
        M = mt.problem.model
        x0 = ca.vertcat(dm(pl.x0), ca.DM.zeros(M.n_x - pl.n))
        how = ctx.choice(["argument", "argument", "problem"])
        if how == "problem":
            mt.problem.x_0 = x0
            pl.x0_given = False
        else:
            a["x_0"] = x0
        ctx.event("x_0-by-" + how)
    if hist and ctx.chance(0.4):
        prev = ctx.choice(hist)[0]
        if ctx.chance():
            a["initial_guess"] = prev.raw_decision_variables
        else:
            a["initial_guess_dict"] = prev.raw_solution_dict
        ctx.event("warm-start")
    fr = Frozen(ctx, **a)
    if mt.opt_problem is None:
        mt.create_optimization_problem()
    before = snapshot(mt.problem)
    res = mt.solve(**a)
    fr.verify("solve")
    after = snapshot(mt.problem)
    for k in before:
        ctx.check((before[k] is None) == (after[k] is None) and (before[k] is None or np.array_equal(before[k], after[k])), "problem-kept",
                  lambda: "%s of the problem: %s before, %s after the call" % (k, before[k], after[k]))
    ctx.event("solves")
    return res


def snapshot(pr):
    """The data of the problem that a call could leave behind."""
    out = {}
    for k in ("x_0", "last_u", "y_guess", "u_guess", "x_min", "x_max", "y_min", "y_max", "u_min", "u_max", "delta_u_min", "delta_u_max", "p_opt_min", "p_opt_max",
              "theta_opt_min", "theta_opt_max", "t_0", "t_f"):
        q = getattr(pr, k)
        out[k] = None if q is None else v(ca.vertcat(q))
    return out


def photo(res):
    return [np.concatenate([v(q) for row in d["values"] for q in row]) if d["values"] and d["values"][0] else np.zeros(0) for d in (res.x_data, res.u_data)] + [v(res.p)] + [v(res.theta[e]) for e in res.theta] + [v(res.raw_decision_variables)]


@scenario("C16", quick=58, thorough=500)
def again_and_again(ctx):
    plans = []
    for k in range(ctx.choice([1, 1, 2])):
        du = ctx.chance(0.4)
        sch = ctx.choice(["collocation", "collocation", "multiple-shooting"])
        o = dict(con=False, ubox=not du and ctx.chance(), du=du, scheme=sch, fe=11 if ctx.chance(0.08) else ctx.randint(2, 4), last_u=du or ctx.chance(0.1))
        if o["fe"] == 11:
            o.update(n=1, deg=2)
        if du:
            o["dc"] = 1
        pl = Plan(ctx, **o)
        pl.x0_given = False
        ctx.note(pl.describe())
        mt = pl.method(integrator_type=ctx.choice(["collocation"] if pl.ny else ["rk", "explicit", "collocation"])) if sch == "multiple-shooting" else pl.method()
        plans.append([pl, mt, []])
    for step in range(ctx.randint(3, 5) * len(plans)):
        pl, mt, hist = plans[ctx.randint(0, len(plans) - 1)]
        draw(ctx, pl, not hist)
        res = call(ctx, pl, mt, hist)
        tag = "solve %d: " % len(hist)
        ok = judge(ctx, pl, res, tag)
        if ok and pl.fe * pl.dc * pl.nu < 14:
            r, g, na, ne = pl.kkt(pl.pack(*pl.read(res)))
            ctx.check(r < 2e-4 * (1 + g), "stationarity", lambda: "%sresidual %g with gradient %g" % (tag, r, g))
        hist.append((res, photo(res)))
        for _, _, h in plans:
            for k, (old, ph) in enumerate(h):
                now = photo(old)
                ctx.check(all(np.array_equal(a, b) for a, b in zip(now, ph)), "earlier-results-kept", lambda: "result %d changed by a later solve" % k)


@scenario("C16", quick=19, thorough=200)
def required_arguments(ctx):
    pl = Plan(ctx, con=False, ubox=False, opt=False, np=ctx.randint(1, 2), nth=ctx.randint(0, 1), last_u=False, free0=False, scheme="collocation", fe=2)
    ctx.note(pl.describe())
    mt = pl.method(last_control_as_parameter=True)
    a = pl.solve_args()
    a["last_u"] = dm(np.zeros(pl.nu))
    for q in list(a):
        b = {k: w for k, w in a.items() if k != q}
        with ctx.raises("missing-data", "%s left out" % q):
            mt.solve(**b)
    with ctx.raises("wrong-size", "p with too many values"):
        mt.solve(**dict(a, p=dm(np.zeros(pl.np + 1))))
    with ctx.raises("wrong-size", "x_0 with too many values"):
        mt.solve(**dict(a, x_0=dm(np.zeros(pl.n + 5))))
    with ctx.raises("wrong-size", "last_u with too many values"):
        mt.solve(**dict(a, last_u=dm(np.zeros(pl.nu + 1))))
    res = mt.solve(**a)
    judge(ctx, pl, res, "after the rejected calls: ")
    guess = res.raw_solution_dict["x"] if ctx.turn([1, 0]) else None
    if pl.nu > 1 or pl.np > 1:
        # wrong sizes that add up to the right total
        k = 1 if pl.np > 1 and (pl.nu == 1 or ctx.chance()) else -1
        with ctx.raises("wrong-size", "p and last_u with one value too many and too few"):
            mt.solve(**dict(a, initial_guess=guess, p=dm(np.zeros(pl.np - k)), last_u=dm(np.zeros(pl.nu + k))))
    if pl.nth:
        th = dict(a["theta"])
        i, j = ctx.sample(range(pl.fe), 2)
        th[i], th[j] = ca.vertcat(th[i], th[j]), ca.DM()
        with ctx.raises("wrong-size", "all theta values, but one element has those of another"):
            mt.solve(**dict(a, initial_guess=guess, theta=th))
    # the data of one call is not the data of the next
    for q in list(a):
        with ctx.raises("missing-data", "%s left out after a call that had it" % q):
            mt.solve(**{k: w for k, w in a.items() if k != q})
