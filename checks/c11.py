import casadi as ca

from vfw.core import scenario
from vfw.env import dm
from vfw.freeze import Frozen
from vfw.ocpshadow import OCPMachine
from vfw.shadow import Machine
from yaocptool.modelling import OptimalControlProblem, SystemModel

RULE = (
    "Random histories of problem-building operations (variables with any subset of bounds and guesses in any form, decision "
    "parameters, removals, substitutions, parametrizations, connections, constraints, costs, rejected declarations), compared "
    "after every operation with a shadow problem; and the pre-solve check on problems made inconsistent in one place."
)
ASSUMPTIONS = ["CasADi evaluates expressions correctly", "bounds assigned directly are column vectors"]


def source(ctx, uni=None, tag="", name="m"):
    mc = Machine(ctx, name=name, uni=uni)
    mc.tag = tag
    for kind, n in (("x", ctx.randint(1, 2)), ("y", ctx.randint(0, 2)), ("u", ctx.randint(0, 2)), ("p", ctx.randint(0, 1)), ("theta", ctx.randint(0, 1))):
        if n:
            mc.create(kind, n)
    mc.complete()
    if mc.s.v["y"]:
        trees = [mc.expr() for _ in mc.s.v["y"]]
        mc.m.include_equations(alg=[mc.sx(t) for t in trees])
        mc.s.alg += trees
    return mc


@scenario("C11", quick=480, thorough=1920)
def problem_histories(ctx):
    mc = source(ctx)
    o = OCPMachine(ctx, mc, t_f=ctx.choice([1.0, 5, 10.0]))
    o.observe("new problem")
    ops = OCPMachine.OPS + (["cost_state"] if ctx.chance(0.3) else [])
    for _ in range(ctx.randint(5, 12)):
        o.step(ops)
        o.observe()
        if ctx.violations:
            return
    mc.observe("source model")
    if o.s.complete():
        o.pr.pre_solve_check()
        o.observe("checked problem")


@scenario("C11", quick=240, thorough=960)
def pre_solve_check(ctx):
    """Every vector of the wrong size, and only those, are rejected before solving."""
    mc = source(ctx)
    o = OCPMachine(ctx, mc)
    for _ in range(ctx.randint(0, 6)):
        o.step()
    pr = o.pr
    if not o.s.complete():
        return
    pr.pre_solve_check()
    attr = ctx.choice(["x_0", "x_max", "x_min", "y_max", "y_min", "u_max", "u_min", "delta_u_max", "delta_u_min", "p_opt_max", "p_opt_min", "theta_opt_max", "theta_opt_min", "L", "V"])
    old = getattr(pr, attr)
    if attr in ("L", "V"):
        setattr(pr, attr, ca.vertcat(old, old))
    else:
        n = ca.vertcat(old).numel()
        bad = n + 1 if n == 0 or ctx.chance() else n - 1
        setattr(pr, attr, ca.DM.zeros(bad, 1))
    ctx.note("wrong size", attr)
    with ctx.raises("pre-solve", "%s of the wrong size" % attr):
        pr.pre_solve_check()
    setattr(pr, attr, old)
    pr.pre_solve_check()
    # numbers and lists are accepted and mean the same
    if attr in ("L", "V"):
        setattr(pr, attr, 3.5)
        pr.pre_solve_check()
        ctx.close(ca.DM(getattr(pr, attr)), 3.5, "pre-solve", "a constant cost")
    ctx.event("checked")


@scenario("C11", quick=240, thorough=960)
def quadratic_costs(ctx):
    """The cost built from weights and references."""
    r = ctx.rng
    m = SystemModel()
    nx, nu = ctx.randint(1, 3), ctx.randint(1, 3)
    x = m.create_state("x", nx)
    u = m.create_control("u", nu)
    m.include_equations(ode=-x)
    keys = ctx.sample(["Q", "R", "Qv", "Rv", "x_ref", "u_ref"], ctx.randint(1, 6))
    d, val = {}, {}
    for k in keys:
        n = nu if k in ("R", "u_ref") else nx
        val[k] = r.uniform(-1, 1, (n, n) if k in ("Q", "R", "Qv", "Rv") else (n, 1))
        d[k] = dm(val[k])
    fr = Frozen(ctx, obj=d)
    ctx.note("weights", sorted(keys), nx, nu)
    if ctx.chance():
        pr = OptimalControlProblem(m, obj=d, x_0=[0.0] * nx)
    else:
        pr = OptimalControlProblem(m, x_0=[0.0] * nx)
        pr.create_quadratic_cost(d)
    fr.verify("quadratic cost")
    f = ca.Function("f", [pr.model.x, pr.model.u], [pr.L, pr.V])
    for _ in range(3):
        xv, uv = r.uniform(-2, 2, (nx, 1)), r.uniform(-2, 2, (nu, 1))
        dx, du = xv - val.get("x_ref", 0), uv - val.get("u_ref", 0)
        L = V = 0.0
        if "Q" in val:
            L += (dx.T @ val["Q"] @ dx).item()
        if "R" in val:
            L += (du.T @ val["R"] @ du).item()
        if "Qv" in val:
            V += (dx.T @ val["Qv"] @ dx).item()
        if "Rv" in val:
            V += (xv.T @ val["Rv"] @ xv).item()
        gl, gv = f(dm(xv), dm(uv))
        ctx.close(gl, L, "quadratic-cost", "L", atol=1e-9)
        ctx.close(gv, V, "quadratic-cost", "V", atol=1e-9)
    ctx.event("costs")
