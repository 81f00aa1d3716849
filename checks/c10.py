import casadi as ca
import numpy as np
import scipy.optimize

from vfw.core import arr, scenario
from vfw.env import config, dm
from vfw.freeze import Frozen, snap
from yaocptool.optimization import NonlinearOptimizationProblem, QuadraticOptimizationProblem

RULE = (
    "Random convex problems (boxes, linear and ball constraints, parameters) are solved through the public interface; the "
    "solution is judged by its own optimality conditions (feasibility, and the gradient as a non-negative combination of the "
    "active constraints, found with NNLS) written independently of the code, also after changing the problem and solving again."
)
ASSUMPTIONS = ["IPOPT/qpOASES converge on small strictly convex problems with an interior point"]
QP = {"printLevel": "none"}


class Convex:
    """min 1/2 x'Qx + (c + P p)'x + w sum exp(a x)   s.t. box, lo <= A x + S p <= hi, |x - z|^2 <= r2"""

    def __init__(self, ctx, quad=False):
        r = ctx.rng
        # qpOASES (3rd party) ignores the bounds of a problem with one variable and no constraints
        self.n = ctx.randint(2 if quad else 1, 4)
        n = self.n
        self.np = ctx.randint(0, 2)
        L = r.uniform(-1, 1, (n, n))
        self.Q = L @ L.T + 0.5 * np.eye(n)
        self.c = r.uniform(-2, 2, n)
        self.P = r.uniform(-1, 1, (n, self.np))
        self.w = 0.0 if quad or ctx.chance() else ctx.uniform(0.1, 0.5)
        self.a = r.uniform(-0.5, 0.5, n)
        self.z = r.uniform(-0.3, 0.3, n)  # an interior point
        self.lb = np.where(r.random(n) < 0.6, self.z - r.uniform(0.2, 1, n), -np.inf)
        self.ub = np.where(r.random(n) < 0.6, self.z + r.uniform(0.2, 1, n), np.inf)
        self.rows = []  # (a, s, lo, hi)
        self.r2 = ctx.uniform(0.3, 1.5) if (not quad and ctx.chance(0.5)) else None

    def f(self, x, p):
        return 0.5 * x @ self.Q @ x + (self.c + self.P @ p) @ x + self.w * np.exp(self.a * x).sum()

    def grad(self, x, p):
        return self.Q @ x + self.c + self.P @ p + self.w * self.a * np.exp(self.a * x)

    def new_row(self, ctx, kind=None):
        a, s = ctx.rng.uniform(-1, 1, self.n), ctx.rng.uniform(-0.2, 0.2, self.np)
        v = a @ self.z
        kind = kind or ctx.choice(["ub", "lb", "both", "eq"])
        # an equality goes through the interior point for p = 0 and leaves freedom
        if kind == "eq" and (self.n < 2 or any(q[2] == q[3] for q in self.rows)):
            kind = "ub"
        if kind == "eq":
            s = s * 0
        lo = {"ub": -np.inf, "lb": v - ctx.uniform(0.3, 0.6), "both": v - 0.5, "eq": v}[kind]
        hi = {"ub": v + ctx.uniform(0.3, 0.6), "lb": np.inf, "both": v + 0.5, "eq": v}[kind]
        return (a, s, lo, hi)


def build(ctx, q, cls):
    kw = {"solver_options": dict(QP)} if cls is QuadraticOptimizationProblem else {}
    pb = cls(name="pb", **kw)
    parts, i = [], 0
    while i < q.n:
        k = ctx.randint(1, q.n - i)
        parts.append(pb.create_variable("x%d" % i, k, lb=dm(q.lb[i : i + k]), ub=dm(q.ub[i : i + k])))
        i += k
    x = ca.vertcat(*parts)
    p = pb.create_parameter("p", q.np) if q.np else None
    set_obj(pb, q, x, p)
    for row in q.rows:
        add_row(ctx, pb, row, x, p)
    if q.r2:
        pb.include_inequality(ca.sumsqr(x - dm(q.z)), ub=q.r2)
    return pb, x, p


def set_obj(pb, q, x, p):
    lin = dm(q.c)
    if q.np:
        lin = lin + ca.mtimes(dm(q.P), p)
    e = 0.5 * ca.mtimes([x.T, dm(q.Q), x]) + ca.dot(lin, x)
    if q.w:
        e = e + q.w * ca.sum1(ca.exp(dm(q.a) * x))
    pb.set_objective(e)


def add_row(ctx, pb, row, x, p):
    a, s, lo, hi = row
    e = ca.dot(dm(a), x)
    if s.size:
        e = e + ca.dot(dm(s), p)
    if lo == hi:
        if ctx.chance():
            pb.include_equality(e, float(lo))
        else:
            pb.include_constraint(e == float(lo))
    elif np.isinf(lo) and ctx.chance():
        pb.include_constraint(e <= float(hi))
    elif np.isinf(hi) and ctx.chance():
        pb.include_constraint(e >= float(lo))
    else:
        pb.include_inequality(e, lb=float(lo) if not np.isinf(lo) else None, ub=float(hi) if not np.isinf(hi) else None)


def judge(ctx, q, sol, p, lb=None, ub=None, tag=""):
    lb, ub = q.lb if lb is None else lb, q.ub if ub is None else ub
    x = np.array(sol["x"].full()).ravel()
    ctx.event("solutions")
    if not ctx.eq(x.size, q.n, "dimensions", tag + "size of the solution"):
        return x
    tol = 2e-5
    ctx.le(lb, x, "feasible", tag + "lower bounds", tol)
    ctx.le(x, ub, "feasible", tag + "upper bounds", tol)
    normals, eqs = [], []
    for a, s, lo, hi in q.rows:
        v = a @ x + s @ p
        ctx.check(lo - tol <= v <= hi + tol, "feasible", lambda: "%sconstraint %g <= %g <= %g" % (tag, lo, v, hi))
        if lo == hi:
            eqs.append(a)
        else:
            if v >= hi - 1e-3:
                normals.append(a)
            if v <= lo + 1e-3:
                normals.append(-a)
    if q.r2:
        v = ((x - q.z) ** 2).sum()
        ctx.check(v <= q.r2 + tol, "feasible", lambda: "%sball %g <= %g" % (tag, v, q.r2))
        if v >= q.r2 - 1e-3:
            normals.append(2 * (x - q.z))
    for i in range(q.n):
        e = np.eye(q.n)[i]
        if x[i] >= ub[i] - 1e-3:
            normals.append(e)
        if x[i] <= lb[i] + 1e-3:
            normals.append(-e)
    g = q.grad(x, p)
    cols = normals + eqs + [-e for e in eqs]
    if cols:
        res = scipy.optimize.nnls(np.array(cols).T, -g)[1]
    else:
        res = np.linalg.norm(g)
    ctx.check(res < 5e-3, "stationary", lambda: "%sgradient %s is not balanced by %d active constraints, residual %g" % (tag, g, len(normals), res))
    ctx.close(sol["f"], q.f(x, p), "objective-value", tag + "reported objective", rtol=1e-6, atol=1e-7)
    st = sol["stats"]
    ctx.check(bool(st.get("success")), "success", lambda: tag + "status %s" % st.get("return_status"))
    return x


@scenario("C10", quick=420, thorough=1680)
def convex_problems(ctx):
    quad = ctx.chance(0.4)
    cls = QuadraticOptimizationProblem if quad else NonlinearOptimizationProblem
    q = Convex(ctx, quad)
    for _ in range(ctx.randint(0, 3)):
        q.rows.append(q.new_row(ctx))
    glob = snap(config.SOLVER_OPTIONS)
    pb, x, p = build(ctx, q, cls)
    ctx.note("qp" if quad else "nlp", "n", q.n, "np", q.np, "rows", len(q.rows), "ball" if q.r2 else "", "exp" if q.w else "")
    prev = None
    for k in range(2):
        pv = ctx.rng.uniform(-1, 1, q.np)
        x0 = q.z + ctx.rng.uniform(-0.1, 0.1, q.n)
        kw = dict(initial_guess=dm(x0))
        if q.np:
            kw["p"] = dm(pv)
        fr = Frozen(ctx, **kw)
        sol = pb.solve(**kw)
        fr.verify("solve")
        judge(ctx, q, sol, pv, tag="solve %d: " % k)
        # warm started from the answer: the same answer
        kw2 = dict(kw, initial_guess=sol["x"], lam_x=sol["lam_x"], lam_g=sol["lam_g"])
        again = pb.solve(**kw2)
        ctx.close(again["x"], sol["x"], "repeatable", "warm started solution", rtol=1e-3, atol=1e-3)
    ctx.check(snap(config.SOLVER_OPTIONS) == glob, "inputs-unchanged", "global solver options changed")
    if q.np:
        with ctx.raises("parameter-size", "a parameter of the wrong size", ValueError):
            pb.solve(initial_guess=dm(q.z), p=dm(np.zeros(q.np + 1)))
        with ctx.raises("parameter-size", "no parameter", ValueError):
            pb.solve(initial_guess=dm(q.z))
    else:
        with ctx.raises("parameter-size", "a parameter nobody declared", ValueError):
            pb.solve(initial_guess=dm(q.z), p=dm([1.0]))


@scenario("C10", quick=360, thorough=1440)
def changed_and_solved_again(ctx):
    """solve / change / solve histories: every answer solves the problem as it is declared at that moment."""
    quad = ctx.chance(0.4)
    cls = QuadraticOptimizationProblem if quad else NonlinearOptimizationProblem
    q = Convex(ctx, quad)
    pb, x, p = build(ctx, q, cls)
    hist = []
    for k in range(4):
        pv = ctx.rng.uniform(-0.5, 0.5, q.np)
        kw = dict(initial_guess=dm(q.z))
        if q.np:
            kw["p"] = dm(pv)
        lb = ub = None
        if ctx.chance(0.3):
            lb, ub = q.z - ctx.rng.uniform(0.05, 0.3, q.n), q.z + ctx.rng.uniform(0.05, 0.3, q.n)
            cd = dict(pb.get_default_call_dict(), lbx=dm(lb), ubx=dm(ub))
            fr = Frozen(ctx, cd=cd)
            sol = pb.solve(call_dict=cd, **kw)
            fr.verify("solve with call_dict")
        else:
            sol = pb.solve(**kw)
        judge(ctx, q, sol, pv, lb, ub, tag="after %s: " % (hist or "build"))
        op = ctx.choice(["objective", "row", "bounds", "variable", "parameter"])
        if op == "objective":
            q.c = ctx.rng.uniform(-2, 2, q.n)
            set_obj(pb, q, x, p)
        elif op == "row":
            row = q.new_row(ctx)
            add_row(ctx, pb, row, x, p)
            q.rows.append(row)
        elif op == "bounds":
            q.lb, q.ub = q.z - ctx.rng.uniform(0.1, 1, q.n), q.z + ctx.rng.uniform(0.1, 1, q.n)
            pb.x_lb, pb.x_ub = dm(q.lb), dm(q.ub)
        elif op == "variable":
            v = pb.create_variable("extra%d" % k, 1, lb=-0.4, ub=0.4)
            x = ca.vertcat(x, v)
            n = q.n + 1
            Q = np.eye(n)
            Q[: q.n, : q.n] = q.Q
            q.Q, q.n = Q, n
            q.c, q.a, q.z = np.append(q.c, ctx.uniform(-1, 1)), np.append(q.a, 0.2), np.append(q.z, 0.0)
            q.P = np.vstack([q.P, ctx.rng.uniform(-1, 1, (1, q.np))])
            q.lb, q.ub = np.append(q.lb, -0.4), np.append(q.ub, 0.4)
            q.rows = [(np.append(a, 0.0), s, lo, hi) for a, s, lo, hi in q.rows]
            if q.r2:
                q.r2 = None
                pb, x, p = build(ctx, q, cls)
            else:
                set_obj(pb, q, x, p)
        elif op == "parameter":
            v = pb.create_parameter("np%d" % k, 1)
            p = v if p is None else ca.vertcat(p, v)
            q.np += 1
            q.P = np.hstack([q.P, ctx.rng.uniform(-1, 1, (q.n, 1))])
            q.rows = [(a, np.append(s, 0.0), lo, hi) for a, s, lo, hi in q.rows]
            if ctx.chance():  # a parameter that nothing uses yet
                q.P[:, -1] = 0.0
                op = "unused parameter"
            else:
                set_obj(pb, q, x, p)
        if not quad and ctx.chance(0.25):  # any point is optimal for a constant
            c = round(ctx.uniform(-2, 2), 3)
            pb.set_objective(c)
            kw = dict(initial_guess=dm(q.z))
            if q.np:
                kw["p"] = dm(np.zeros(q.np))
            ctx.close(arr(pb.solve(**kw)["f"]).ravel(), [c], "values-at-solution", "a constant objective", atol=1e-6)
            set_obj(pb, q, x, p)
        hist.append(op)
        ctx.note("history", hist)


@scenario("C10", quick=180, thorough=720)
def interleaved_problems(ctx):
    """Two problems solved in turns do not influence each other."""
    qs = [Convex(ctx, False), Convex(ctx, ctx.chance())]
    for q in qs:
        for _ in range(ctx.randint(0, 2)):
            q.rows.append(q.new_row(ctx))
    pbs = [build(ctx, q, NonlinearOptimizationProblem)[0] for q in qs]
    ctx.note("two problems", [q.n for q in qs], [q.np for q in qs])
    pvs = [ctx.rng.uniform(-1, 1, q.np) for q in qs]
    first = {}
    for k in range(5):
        i = ctx.randint(0, 1)
        q = qs[i]
        kw = {"p": dm(pvs[i])} if q.np else {}
        sol = pbs[i].solve(initial_guess=dm(q.z), **kw)
        xs = judge(ctx, q, sol, pvs[i], tag="problem %d: " % i)
        if i in first:
            ctx.close(xs, first[i], "repeatable", "same problem, same parameter", atol=1e-9, rtol=1e-9)
        first.setdefault(i, xs)


@scenario("C10", quick=60, thorough=240)
def where_the_solver_starts(ctx):
    """A solver that may not iterate returns the point and multipliers it was started from: those given."""
    n, m, npar = ctx.randint(2, 4), ctx.randint(1, 3), ctx.randint(0, 2)
    r = ctx.rng
    opts = {"ipopt.max_iter": 0, "ipopt.warm_start_init_point": "yes", "ipopt.warm_start_bound_push": 1e-9, "ipopt.warm_start_mult_bound_push": 1e-9,
            "ipopt.linear_solver": "mumps", "ipopt.print_level": 0, "ipopt.sb": "yes", "print_time": False}
    pb = NonlinearOptimizationProblem(name="w", solver_options=dict(opts))
    x = pb.create_variable("x", n, lb=-9.0, ub=9.0)
    p = pb.create_parameter("p", npar) if npar else None
    A, B = r.uniform(-1, 1, (m, n)), r.uniform(-1, 1, (m, npar))
    g = ca.mtimes(dm(A), x) + (ca.mtimes(dm(B), p) if npar else 0)
    pb.set_objective(ca.sumsqr(x - 1) + (ca.sumsqr(p) if npar else 0))
    pb.include_inequality(g, lb=-50.0, ub=50.0)
    x0, pv = r.uniform(-2, 2, n), r.uniform(-1, 1, npar)
    lx, lg = r.uniform(-1, 1, n), r.uniform(-1, 1, m)
    ctx.note("start", n, m, npar)
    kw = dict(initial_guess=dm(x0), lam_x=dm(lx), lam_g=dm(lg))
    if npar:
        kw["p"] = dm(pv)
    fr = Frozen(ctx, **kw)
    for _ in range(ctx.randint(1, 2)):
        sol = pb.solve(**kw)
        fr.verify("solve")
        ctx.close(arr(sol["x"]).ravel(), x0, "start-point", "initial guess", atol=1e-6)
        ctx.close(arr(sol["lam_x"]).ravel(), lx, "start-multipliers", "lam_x", atol=1e-6)
        ctx.close(arr(sol["lam_g"]).ravel(), lg, "start-multipliers", "lam_g", atol=1e-6)
        ctx.close(arr(sol["g"]).ravel(), A @ x0 + B @ pv, "values-at-solution", "g", atol=1e-7)
        ctx.close(arr(sol["f"]).ravel(), [((x0 - 1) ** 2).sum() + (pv ** 2).sum()], "values-at-solution", "f", atol=1e-7)
    ctx.eq(pb.solver_options, opts, "inputs-unchanged", "solver options of the problem")
