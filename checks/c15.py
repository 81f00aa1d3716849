import casadi as ca
import numpy as np
from scipy.integrate import solve_ivp

from vfw.core import scenario
from vfw.env import dm
from vfw.freeze import Frozen
from vfw.ocpgen import Plan
from checks.c13 import v
from yaocptool.methods import IndirectMethod

RULE = (
    "For random problems and discretizations the decision vector handed to the solver is unpacked with the library's own "
    "function and every position is compared with the declared bounds and with the documented initial guess (problem data, "
    "or a reference simulation); random vectors are unpacked and packed back; and every view of a result (by index, by "
    "name, data set, first control, parameters) is compared with the raw solution read independently."
)
ASSUMPTIONS = ["simulated guesses are accurate to 1e-3 (default integrator tolerances)"]


def unpack(pl, vec, nx, ny, eta=0):
    """Independent reading of the decision vector."""
    ms = pl.scheme == "multiple-shooting"
    i = [0]

    def take(k):
        i[0] += k
        return vec[i[0] - k : i[0]]

    x = [[take(nx) for _ in range(1 if ms else pl.deg + 1)] for _ in range(pl.fe + (1 if ms else 0))]
    if not ms:
        x.append([x[-1][-1]])
    y = [[take(ny) for _ in range(1 if ms else pl.deg)] for _ in range(pl.fe)]
    u = [[take(pl.nu) for _ in range(pl.dc)] for _ in range(pl.fe)]
    e = take(eta)
    p = take(len(pl.po))
    th = [take(len(pl.to)) for _ in range(pl.fe)]
    assert i[0] == vec.size, (i[0], vec.size)
    return x, y, u, e, p, th


def same(ctx, got, want, mech, what):
    """Nested lists of vectors."""
    if isinstance(want, list):
        if not ctx.eq(len(got), len(want), mech, what + " (length)"):
            return
        for k, (g, w) in enumerate(zip(got, want)):
            same(ctx, g, w, mech, "%s[%d]" % (what, k))
    else:
        ctx.close(v(got), want, mech, what, atol=1e-12)


def opened(ctx, **o):
    pl = Plan(ctx, **o)
    ctx.note(pl.describe())
    mt = pl.method()
    mt.create_optimization_problem()
    return pl, mt


@scenario("C15", quick=175, thorough=800)
def positions(ctx):
    """What each position of the decision vector means, and its bounds."""
    pl, mt = opened(ctx)
    M, d, op = mt.problem.model, mt.discretizer, mt.opt_problem
    nx = M.n_x
    N = op.x.numel()
    rv = ctx.rng.uniform(-1, 1, N)
    want = unpack(pl, rv, nx, pl.ny)
    got = d.unpack_decision_variables(dm(rv))
    ctx.event("positions", N)
    for name, g, w in zip(["x", "y", "u", "eta", "p_opt", "theta_opt"], got, want):
        same(ctx, g, w, "unpack", name)
    if pl.scheme == "collocation":
        back = d.repack_decision_variables(*got)
        ctx.close(v(back), rv, "repack", "packing what was unpacked", atol=0)
    call = op.get_default_call_dict()
    ix = [list(M.x_names).index(q) for q in pl.m.x_names]
    rest = [i for i in range(nx) if i not in ix]
    for key, xb, yb, ub, pb, tb, s in (("lbx", pl.xlb, pl.ylb, pl.ulb, pl.plb, pl.tlb, -1), ("ubx", pl.xub, pl.yub, pl.uub, pl.pub, pl.tub, 1)):
        b = v(call[key])
        if not ctx.eq(b.size, N, "bounds", key + " size"):
            continue
        X, Y, U, _, P, TH = unpack(pl, b, nx, pl.ny)
        for row in X:
            for q in row:
                ctx.close(q[ix], xb, "bounds", key + " of x", atol=0)
                ctx.close(q[rest], s * np.inf * np.ones(len(rest)), "bounds", key + " of the cost state", atol=0)
        for row in Y:
            for q in row:
                ctx.close(q, yb, "bounds", key + " of y", atol=0)
        for row in U:
            for q in row:
                ctx.close(q, ub, "bounds", key + " of u", atol=0)
        if pl.po:
            ctx.close(P, pb, "bounds", key + " of p_opt", atol=0)
        if pl.to:
            for q in TH:
                ctx.close(q, tb, "bounds", key + " of theta_opt", atol=0)


@scenario("C15", quick=150, thorough=800)
def guesses(ctx):
    pl, mt = opened(ctx)
    M, d = mt.problem.model, mt.discretizer
    pr = mt.problem
    ms = pl.scheme == "multiple-shooting"
    nx = M.n_x
    ix = [list(M.x_names).index(q) for q in pl.m.x_names]
    rest = [i for i in range(nx) if i not in ix]
    theta = {e: dm(pl.th[e]) for e in range(pl.fe)}
    p = dm(pl.p)
    po, to = np.array(pl.po, int), np.array(pl.to, int)
    fr = Frozen(ctx, p=p, theta=theta, x_0=pr.x_0, u_guess=pr.u_guess, y_guess=pr.y_guess)
    given = ctx.chance(0.7)
    g = d.create_initial_guess(p, theta) if given else d.create_initial_guess()
    ctx.eq(g.numel(), mt.opt_problem.x.numel(), "guess-size", "problem_info")
    x, y, u, _, P, TH = unpack(pl, v(g), nx, pl.ny)
    yg = v(pr.y_guess) if pr.y_guess is not None else np.zeros(pl.ny)
    ug = v(pr.u_guess) if pr.u_guess is not None else np.zeros(pl.nu)
    for row in x:
        for q in row:
            ctx.close(q[ix], pl.x0, "guess-problem-info", "x", atol=0)
            ctx.close(q[rest], np.zeros(len(rest)), "guess-problem-info", "cost state", atol=0)
    for row in y:
        for q in row:
            ctx.close(q, yg, "guess-problem-info", "y", atol=0)
    for row in u:
        for q in row:
            ctx.close(q, ug, "guess-problem-info", "u", atol=0)
    ctx.close(P, pl.p[po] if given else 0 * pl.p[po], "guess-problem-info", "p_opt", atol=0)
    for e in range(pl.fe):
        ctx.close(TH[e], pl.th[e][to] if given else 0 * pl.th[e][to], "guess-problem-info", "theta_opt", atol=0)
    # by simulation
    own = ctx.chance(0.3)
    if own:
        ug = ctx.rng.uniform(-0.5, 0.5, pl.nu)
        g = d.create_initial_guess_with_simulation(u=dm(ug), p=p, theta=theta)
    else:
        if pr.u_guess is None and pr.last_u is not None:
            ug = v(pr.last_u)
        g = d.create_initial_guess_with_simulation(p=p, theta=theta)
    left = [q for q in ("p", "theta") if ctx.chance()]
    if left:
        zero = {"p": ca.DM.zeros(pl.np), "theta": {e: ca.DM.zeros(pl.nth) for e in range(pl.fe)}}
        full = {"p": p, "theta": theta}
        ku = {"u": dm(ug)} if own else {}
        a = d.create_initial_guess_with_simulation(**ku, **{q: full[q] for q in full if q not in left})
        b = d.create_initial_guess_with_simulation(**ku, **{q: (zero if q in left else full)[q] for q in full})
        ctx.close(v(a), v(b), "guess-defaults", "%s left out means zero" % left, atol=1e-9)
    ctx.eq(g.numel(), mt.opt_problem.x.numel(), "guess-size", "simulation")
    ctx.event("guesses", 2)
    x, y, u, _, P, TH = unpack(pl, v(g), nx, pl.ny)
    z = np.append(pl.x0, 0.0)
    tol = dict(rtol=2e-3, atol=1e-3)
    taus = [1.0] if ms else list(pl.tau)
    for e in range(pl.fe):
        for q in u[e]:
            ctx.close(q, ug, "guess-simulation", "u", atol=1e-12)
        rhs = lambda t, z: np.append(pl.f(t, z[:-1], ug, pl.p, pl.th[e]), pl.L(t, z[:-1], ug, pl.p, pl.th[e]))
        ts = pl.tb[e] + pl.dt * np.array(taus)
        ctx.close(x[e][0][ix], z[:-1], "guess-simulation", "x at the start of element %d" % e, **tol)
        s = solve_ivp(rhs, (pl.tb[e], pl.tb[e + 1]), z, t_eval=np.minimum(ts, pl.tb[e + 1]), rtol=1e-8, atol=1e-10)
        for j, t in enumerate(ts):
            q = x[e + 1][0] if ms else x[e][j + 1]
            ctx.close(q[ix], s.y[:-1, j], "guess-simulation", "x at t=%g" % t, **tol)
            if rest:
                ctx.close(q[rest], s.y[-1:, j], "guess-simulation", "cost state at t=%g" % t, rtol=5e-3, atol=3e-3)
            if pl.ny:
                ctx.close(y[e][j], pl.yv(t, s.y[:-1, j], ug, pl.p, pl.th[e]), "guess-simulation", "y at t=%g" % t, **tol)
        z = s.y[:, -1]
    ctx.close(P, pl.p[po], "guess-simulation", "p_opt", atol=0)
    for e in range(pl.fe):
        ctx.close(TH[e], pl.th[e][to], "guess-simulation", "theta_opt", atol=0)
    fr.verify("initial guess")


@scenario("C15", quick=75, thorough=400)
def guess_reaches_solver(ctx):
    """With no iterations allowed and nothing bounded the solver hands the guess back."""
    pl = Plan(ctx, con=False, ubox=False, opt=False, last_u=False, free0=False)
    ctx.note(pl.describe())
    mt = pl.method(nlpsol_opts={"ipopt.max_iter": 0})
    mt.create_optimization_problem()
    N = mt.opt_problem.x.numel()
    g = ctx.rng.uniform(-1, 1, N)
    a = pl.solve_args()
    if ctx.chance():
        G = dm(g)
        fr = Frozen(ctx, guess=G)
        res = mt.solve(initial_guess=G, **a)
    else:
        call = mt.opt_problem.get_default_call_dict()
        G = {"x": dm(g), "lam_x": dm(np.zeros(N)), "lam_g": dm(np.zeros(mt.opt_problem.g.numel()))}
        fr = Frozen(ctx, guess=G)
        res = mt.solve(initial_guess_dict=G, **a)
    fr.verify("solve")
    ctx.close(v(res.raw_decision_variables), g, "guess-used", "starting point", atol=1e-9)
    ctx.check(not res.success, "not-success", "a solver that stopped at its starting point is not a success")
    views(ctx, pl, res, g)


@scenario("C15", quick=60, thorough=400)
def default_guesses(ctx):
    """Without a guess in the call, the solver starts from the guess of the chosen strategy, simulated with the chosen model."""
    pl = Plan(ctx, con=False, ubox=False, opt=False, last_u=False, free0=False)
    ctx.note(pl.describe())
    how = ctx.turn(["simulation", "problem_info", "model", None])
    kw = dict(nlpsol_opts={"ipopt.max_iter": 0})
    if pl.scheme == "multiple-shooting":
        kw["integrator_type"] = "collocation" if pl.ny else "rk"
    if how in ("simulation", "problem_info"):
        kw["initial_guess_heuristic"] = how
    mt = pl.method(**kw)
    mt.create_optimization_problem()
    d = mt.discretizer
    p, theta = dm(pl.p), {e: dm(pl.th[e]) for e in range(pl.fe)}
    want = d.create_initial_guess(p, theta) if how == "problem_info" else d.create_initial_guess_with_simulation(p=p, theta=theta)
    seen = {"in": [], "out": 0}
    if how == "model":
        # the same system in the states z = k*x
        M2 = mt.problem.model.get_deepcopy()
        k = dm(ctx.rng.uniform(0.5, 2, M2.n_x))
        M2.replace_variable(M2.x, M2.x / k)
        M2.include_equations(ode=k * M2.ode, x=M2.x)

        def inward(x_0, t_0, t_f, p, y_0):
            seen["in"].append((float(t_0), float(t_f)))
            return dict(x_0=k * x_0, t_0=t_0, t_f=t_f, p=p, y_0=y_0)

        def outward(res):
            seen["out"] += 1
            return dict(res, xf=res["xf"] / k)

        mt.initial_guess_model, mt.initial_guess_in_transform, mt.initial_guess_out_transform = M2, inward, outward
    a = pl.solve_args()
    if ctx.chance(0.6):
        # another call before it, from somewhere else or for other data
        if ctx.chance():
            mt.solve(initial_guess=dm(ctx.rng.uniform(-1, 1, mt.opt_problem.x.numel())), **a)
        else:
            mt.solve(**dict(a, **({"p": 1.5 * dm(pl.p)} if "p" in a else {})))
        seen["in"], seen["out"] = [], 0
    res = mt.solve(**a)
    ctx.close(v(res.raw_decision_variables), v(want), "default-guess", str(how), rtol=1e-3 if how == "model" else 1e-9, atol=1e-3 if how == "model" else 1e-9)
    if how == "model":
        ms = pl.scheme == "multiple-shooting"
        grid = [[pl.tb[e], pl.tb[e + 1]] if ms else [pl.tb[e]] + list(pl.tb[e] + pl.dt * pl.tau) for e in range(pl.fe)]
        ctx.close(np.array(seen["in"]), np.array([[g[i], g[i + 1]] for g in grid for i in range(len(g) - 1)]), "guess-transforms", "intervals", atol=1e-9)
        ctx.eq(seen["out"], len(seen["in"]), "guess-transforms", "one result per interval")
    ctx.event("guesses")


def views(ctx, pl, res, raw):
    ms = pl.scheme == "multiple-shooting"
    ny = len(res.y_names)
    nx = len(res.x_names)
    X, Y, U, _, P, TH = unpack(pl, raw, nx, ny)
    ctx.event("results")
    same(ctx, res.x_data["values"], X, "result-data", "x_data")
    same(ctx, res.y_data["values"], Y, "result-data", "y_data")
    same(ctx, res.u_data["values"], U, "result-data", "u_data")
    same(ctx, res.p_opt, P, "result-data", "p_opt")
    same(ctx, res.theta_opt, TH, "result-data", "theta_opt")
    # all parameters of the problem: the given ones, the decisions in their places
    p = pl.p.copy()
    p[pl.po] = P
    ctx.close(v(res.p), p, "result-data", "p", atol=0)
    for e in range(pl.fe):
        th = pl.th[e].copy()
        th[pl.to] = TH[e]
        ctx.close(v(res.theta[e]), th, "result-data", "theta of element %d" % e, atol=0)
    for kind, names, data in (("x", res.x_names, X), ("y", res.y_names, Y), ("u", res.u_names, U)):
        for i, nm in enumerate(names):
            w = [[q[i : i + 1] for q in row] for row in data]
            same(ctx, res.get_variable_by_name(nm), w, "by-name", nm)
            same(ctx, res.get_variable(kind, i), w, "by-index", "%s[%d]" % (kind, i))
        if len(names) > 1:
            sel = ctx.perm(range(len(names)))[: ctx.randint(1, len(names))]
            same(ctx, res.get_variable(kind, list(sel)), [[q[list(sel)] for q in row] for row in data], "by-index", "%s%s" % (kind, sel))
    with ctx.raises("unknown-name", "get_variable_by_name"):
        res.get_variable_by_name("no such name")
    ctx.close(v(res.first_control()), U[0][0], "first-control", "first_control", atol=0)
    same(ctx, res.first_control_parameters(), U[0], "first-control", "first_control_parameters")
    for key, want in (("finite_elements", pl.fe), ("degree", pl.deg), ("degree_control", pl.dc), ("discretization_scheme", pl.scheme)):
        ctx.eq(getattr(res, key), want, "attributes", key)
    ctx.close([res.t_0, res.t_f], [pl.t0, pl.tf], "attributes", "horizon", atol=1e-12)
    ctx.close(res.time_breakpoints, list(pl.tb), "attributes", "time_breakpoints", atol=1e-9)
    # data set
    ds = res.to_dataset() if ctx.chance() else res.dataset
    tx = [[t] for t in pl.tb] if ms else [list(pl.tb[e] + pl.dt * np.append(0, pl.tau)) for e in range(pl.fe)] + [[pl.tf]]
    ty = [[t] for t in pl.tb[1:]] if ms else [list(pl.tb[e] + pl.dt * pl.tau) for e in range(pl.fe)]
    tu = [list(pl.tb[e] + pl.dt * pl.tau_u) for e in range(pl.fe)]
    for kind, names, data, times in (("x", res.x_names, X, tx), ("y", res.y_names, Y, ty), ("u", res.u_names, U, tu)):
        if not names:
            continue
        t, val = ds.get_entry(kind)
        ctx.eq(list(ds.get_entry_names(kind)), list(names), "dataset", kind + " names")
        ctx.eq(ds.get_entry_size(kind), len(names), "dataset", kind + " size")
        ctx.close(v(t), [a for row in times for a in row], "dataset", kind + " times", atol=1e-9)
        ctx.close(np.array(val.full()), np.array([q for row in data for q in row]).T, "dataset", kind + " values", atol=0)
    if pl.to:
        t, val = ds.get_entry("theta_opt")
        ctx.close(v(t), pl.tb[:-1], "dataset", "theta_opt times", atol=1e-9)
        ctx.close(np.array(val.full()), np.array(TH).T, "dataset", "theta_opt values", atol=0)
        ctx.eq(ds.data["theta_opt"].plot_style, "step", "dataset", "theta_opt is piecewise constant")
    ctx.eq(ds.data["u"].plot_style, "plot" if pl.dc > 1 else "step", "dataset", "plot style of u")


@scenario("C15", quick=100, thorough=500)
def result_views(ctx):
    pl = Plan(ctx)
    ctx.note(pl.describe())
    # what is returned is read the same way whether or not the solver had time to converge
    mt = pl.method(nlpsol_opts={"ipopt.max_iter": ctx.choice([2, 5, 30])})
    a = pl.solve_args()
    x0 = dm(pl.x0)
    if ctx.chance(0.4) and not pl.free0:
        mt.create_optimization_problem()
        a["x_0"] = ca.vertcat(x0, ca.DM.zeros(mt.problem.model.n_x - pl.n))
    fr = Frozen(ctx, **a)
    res = mt.solve(**a)
    fr.verify("solve")
    M = mt.problem.model
    ctx.eq(list(res.x_names), [M.x[i].name() for i in range(M.n_x)], "names", "x_names")
    ctx.eq(list(res.u_names), list(pl.m.u_names), "names", "u_names")
    ctx.eq(list(res.y_names), list(pl.m.y_names), "names", "y_names")
    ctx.eq(list(res.theta_opt_names), [pl.m.theta_names[i] for i in pl.to], "names", "theta_opt_names")
    views(ctx, pl, res, v(res.raw_solution_dict["x"]))
    ctx.close(v(res.constraint_values), v(res.raw_solution_dict["g"]), "result-data", "constraint_values", atol=0)
    ctx.close(v(res.objective_opt_problem), v(res.raw_solution_dict["f"]), "result-data", "objective", atol=0)
    ctx.check(bool(res.is_valid), "is-valid", "a result of a solver is valid") if pl.t0 >= 0 else None


@scenario("C15", quick=37, thorough=150)
def indirect_views(ctx):
    n = ctx.randint(1, 3)
    scheme = ctx.choice(["collocation", "multiple-shooting"])
    pl = Plan(ctx, scheme=scheme, fe=ctx.randint(2, 4), deg=ctx.choice([2, 3]), dc=1, n=n, diagR=True, opt=False, con=False, last_u=False,
              Sx=np.zeros(n), ts=1.0, free0=False, ubox=False, T=ctx.uniform(0.4, 1.0))
    ms = scheme == "multiple-shooting"
    neta = ctx.choice([0, 1, 2]) if n > 1 else ctx.choice([0, 0, 1])
    if neta:
        a = ctx.rng.uniform(-1, 1, (neta, n))
        pl.pr.include_final_time_equality(ca.mtimes(dm(a), pl.pr.model.x) - dm(a @ pl.nominal[1][-1][-1]))
    ctx.note("indirect eta=%d %s" % (neta, pl.describe()))
    kw = {"integrator_type": "collocation"} if ms else {}
    mt = IndirectMethod(pl.pr, discretization_scheme=scheme, finite_elements=pl.fe, degree=pl.deg, nlpsol_opts={}, **kw)
    a = {}
    if pl.np:
        a["p"] = dm(pl.p)
    if pl.nth:
        a["theta"] = {e: dm(pl.th[e]) for e in range(pl.fe)}
    res = mt.solve(**a)
    a_ = {"p": dm(pl.p), "theta": {e: dm(pl.th[e]) for e in range(pl.fe)}}
    ctx.event("results")
    raw = v(res.raw_decision_variables)
    keep = pl.nu
    pl.nu = 0
    X, Y, _, eta, _, _ = unpack(pl, raw, 2 * n, 2 * pl.ny, neta)
    pl.nu = keep
    ctx.close(v(res.eta), eta, "result-data", "eta", atol=0)
    d, rv = mt.discretizer, ctx.rng.uniform(-1, 1, raw.size)
    pl.nu = 0
    want = unpack(pl, rv, 2 * n, 2 * pl.ny, neta)
    pl.nu = keep
    for name, q, w in zip(["x", "y", "u", "eta", "p_opt", "theta_opt"], d.unpack_decision_variables(dm(rv)), want):
        if name != "u":
            same(ctx, q, w, "unpack", name)
    for g in (d.create_initial_guess(a_["p"], a_["theta"]), d.create_initial_guess_with_simulation(p=a_["p"], theta=a_["theta"])):
        ctx.eq(g.numel(), raw.size, "guess-size", "indirect")
    same(ctx, res.x_data["values"], X, "result-data", "x_data")
    same(ctx, res.y_data["values"], Y, "result-data", "y_data")
    ctx.eq([len(q) for q in res.u_data["values"]], [pl.deg] * pl.fe, "result-data", "u_data layout")
    ctx.eq(len(res.x_names), 2 * n, "names", "x_names")
    ctx.eq(len(res.y_names), 2 * pl.ny, "names", "y_names")
    ds = res.dataset
    t, val = ds.get_entry("u")
    ctx.close(v(t), [pl.tb[e] + pl.dt * s for e in range(pl.fe) for s in pl.tau], "dataset", "u times", atol=1e-9)
    ctx.close(np.array(val.full()).T, np.array([v(q) for row in res.u_data["values"] for q in row]), "dataset", "u values", atol=0)
    for i, nm in enumerate(res.x_names):
        same(ctx, res.get_variable_by_name(nm), [[q[i : i + 1] for q in row] for row in X], "by-name", nm)


@scenario("C15", quick=60, thorough=300)
def values_between_the_points(ctx):
    """The system at times of the caller's choice, from the variables of a solution."""
    pl = Plan(ctx)
    ms = pl.scheme == "multiple-shooting"
    ctx.note(pl.describe())
    it = {"integrator_type": ctx.choice(["collocation"] if pl.ny else ["rk", "explicit", "collocation"])} if ms else {}
    mt = pl.method(nlpsol_opts={"ipopt.max_iter": ctx.choice([2, 10])}, **it)
    res = mt.solve(**pl.solve_args())
    X, Y, U = [[ca.DM(q) for q in row] for row in res.x_data["values"]], [[ca.DM(q) for q in row] for row in res.y_data["values"]], [[ca.DM(q) for q in row] for row in res.u_data["values"]]
    p, th = pl.read(res)[1:3]
    td = {}
    for e in sorted(ctx.sample(range(pl.fe), ctx.randint(1, pl.fe))):
        s = [round(q, 3) for q in ctx.rng.uniform(0.05, 0.95, ctx.randint(1, 3))]
        if ctx.chance():
            s.append(1.0)
        td[e] = {"t_0": pl.tb[e], "t_f": pl.tb[e + 1]}
        for kind in ctx.sample(["x", "u"] + (["y"] if pl.ny else []), ctx.randint(1, 2)):
            q = sorted(set(ctx.sample(s, ctx.randint(1, len(s)))))
            if ctx.chance(0.4) and kind != "y":
                q = [0.0] + q
            td[e][kind] = [pl.tb[e] + w * pl.dt if w else pl.tb[e] for w in q]
    fr = Frozen(ctx, td=td, X=X, Y=Y, U=U)
    out = mt.discretizer.get_system_at_given_times(X, Y, U, td, p=dm(p) if pl.np else None, theta={e: dm(th[e]) for e in range(pl.fe)}, **({"start_at_t_0": ctx.chance()} if ctx.chance() else {}))
    fr.verify("get_system_at_given_times")
    nodes = np.concatenate([[0.0], pl.tau])
    lag = lambda pts, vals, s: sum(np.prod([(s - pts[k]) / (pts[j] - pts[k]) for k in range(len(pts)) if k != j]) * v(vals[j]) for j in range(len(pts)))
    tol = dict(rtol=2e-3, atol=2e-3) if it.get("integrator_type") == "explicit" else dict(rtol=1e-5, atol=1e-6)
    for e, d in td.items():
        for kind in ("x", "y", "u"):
            if kind not in d:
                ctx.check(kind not in out[e] or not len(out[e][kind]), "in-between", "%s was not asked for" % kind)
                continue
            if not ctx.eq(len(out[e][kind]), len(d[kind]), "in-between", "number of values of %s" % kind):
                continue
            for t, got in zip(d[kind], out[e][kind]):
                s = (t - pl.tb[e]) / pl.dt
                u = pl.u_at(np.array([v(q) for q in U[e]]), s)
                if kind == "u":
                    want = u
                elif not ms:
                    want = lag(nodes, X[e], s) if kind == "x" else lag(pl.tau, Y[e], s)
                else:
                    x, N = v(X[e][0])[: pl.n], 60
                    h = s * pl.dt / N
                    g = lambda w, z: pl.f(pl.tb[e] + w, z, pl.u_at(np.array([v(q) for q in U[e]]), w / pl.dt), p, th[e])
                    for i in range(N):
                        w = i * h
                        k1 = g(w, x)
                        k2 = g(w + h / 2, x + h / 2 * k1)
                        k3 = g(w + h / 2, x + h / 2 * k2)
                        k4 = g(w + h, x + h * k3)
                        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                    want = x if kind == "x" else pl.yv(t, x, u, p, th[e])
                ctx.close(v(got)[: len(want)], want, "in-between", "%s at t=%g, element %d (%s)" % (kind, t, e, pl.scheme), **tol)
    ctx.event("in-between")
