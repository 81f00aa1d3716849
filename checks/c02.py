import casadi as ca

from vfw import expr as ex
from vfw.core import scenario
from vfw.env import SX_sym
from vfw.shadow import Machine, observe_queries

RULE = (
    "Random sequences of equation declarations in every accepted form (list, tuple, vector, named states in any order, "
    "derivative equalities, algebraic equalities, both in one call, structurally zero right-hand sides, redeclarations), "
    "interleaved with variable changes; after every call the equations are evaluated at random points against the declared ones."
)
ASSUMPTIONS = ["CasADi evaluates expressions correctly"]


@scenario("C02", quick=400, thorough=1600)
def declaration_histories(ctx):
    mc = Machine(ctx)
    mc.create("x", ctx.choice([1, 2, 3, (2, 2)]))
    mc.create("y", ctx.randint(1, 2))
    for k in ctx.sample(["x", "u", "p", "theta"], ctx.randint(1, 4)):
        mc.create(k)
    ops = [mc.ode_named] * 3 + [mc.ode_der] * 4 + [mc.ode_keyword] * 3 + [mc.alg_keyword] * 2 + [mc.mixed] * 3
    ops += [mc.reject_partly, mc.reject_size, mc.reject_ambiguous, mc.reject_x_alone, mc.remove, mc.create, mc.include]
    for _ in range(12):
        ctx.choice(ops)()
        ctx.event("operations")
        mc.observe()
    observe_queries(ctx, mc.m, mc.s, mc.uni)


@scenario("C02", quick=200, thorough=800)
def unnamed_equations(ctx):
    """ode=... without states: assigned to the states in the order they were created, once or in parts."""
    mc = Machine(ctx)
    for _ in range(ctx.randint(1, 4)):
        ctx.choice([mc.create, mc.include])("x")
        if ctx.chance(0.3):
            mc.create()
    if ctx.chance(0.5):
        mc.create("y", 2)
    if mc.undefined() == mc.s.v["x"]:
        mc.ode_keyword()
    mc.observe()
    mc.reject_ambiguous()
    mc.observe()
    mc.complete()
    mc.observe()
    observe_queries(ctx, mc.m, mc.s, mc.uni)


@scenario("C02", quick=150, thorough=600)
def forms_are_equivalent(ctx):
    """The same system declared in different forms and orders gives the same model."""
    n = ctx.randint(2, 4)
    ms = []
    base = Machine(ctx)
    xk = base.create("x", n)
    yk = base.create("y", ctx.randint(1, 2))
    uk = base.create("u", 2)
    pk = base.create("p", 1)
    odes = [base.rhs() for _ in xk]
    algs = [("-", ("v", y), base.expr(depth=2)) for y in yk]
    from yaocptool.modelling import SystemModel, der

    U = base.uni
    E = lambda t: ex.sx(t, U.elem)
    for form in range(4):
        m = SystemModel(name="f%d" % form)
        m.t, m.tau = base.m.t, base.m.tau
        m.include_variables(
            x=[U.elem[k] for k in xk], y=base.vec(yk), u=[U.elem[k] for k in uk], p=base.vec(pk)
        )
        order = ctx.perm(range(n))
        if form == 0:
            m.include_equations(ode=[E(t) for t in odes], alg=[E(t) for t in algs])
        elif form == 1:
            m.include_equations(
                ode=[E(odes[i]) for i in order], x=[U.elem[xk[i]] for i in order], alg=ca.vertcat(*[E(t) for t in algs])
            )
        elif form == 2:
            m.include_equations(*[der(U.elem[xk[i]]) == E(odes[i]) for i in order], alg=[E(t) for t in algs])
        else:
            for i in order:
                m.include_equations(ode=E(odes[i]), x=U.elem[xk[i]])
            for t in algs:
                m.include_equations(alg=E(t))
        ms.append(m)
    U.resample()
    want_o = [ex.num(t, U.val) for t in odes]
    want_a = [ex.num(t, U.val) for t in algs]
    ctx.note("ode", [base.show(t) for t in odes], "alg", [base.show(t) for t in algs])
    for form, m in enumerate(ms):
        o, a = U.eval([m.ode, m.alg])
        ctx.close(o, want_o, "forms-equivalent", "ode, form %d" % form, atol=1e-8)
        ctx.close(a, want_a, "forms-equivalent", "alg, form %d" % form, atol=1e-8)


@scenario("C02", quick=100, thorough=400)
def linear_matrix_form(ctx):
    """x' = A x + B u with matrices that have empty rows and columns."""
    from yaocptool.modelling import SystemModel, der

    n, nu = ctx.randint(1, 5), ctx.randint(1, 3)
    dense = ctx.rng.uniform(-1, 1, (n, n)) * (ctx.rng.random((n, n)) < 0.4)
    bd = ctx.rng.uniform(-1, 1, (n, nu)) * (ctx.rng.random((n, nu)) < 0.4)
    A, B = ca.sparsify(ca.DM(dense)), ca.sparsify(ca.DM(bd))
    m = SystemModel()
    x, u = m.create_state("x", n), m.create_control("u", nu)
    e = ca.mtimes(A, x) + ca.mtimes(B, u)
    form = ctx.randint(0, 3)
    if form == 0:
        m.include_equations(ode=e)
    elif form == 1:
        m.include_equations(ode=[e])
    elif form == 2:
        m.include_equations(der(x) == e)
    else:
        m.include_equations(ode=e, x=x)
    xv, uv = ctx.rng.uniform(-1, 1, n), ctx.rng.uniform(-1, 1, nu)
    ctx.note("linear", dense.tolist(), bd.tolist(), form)
    got = ca.Function("f", [m.x, m.u], [ca.densify(m.ode)])(xv, uv)
    ctx.close(got, dense @ xv + bd @ uv, "differential-equations", "A x + B u")
    ctx.close(ca.Function("f", [m.x, m.u], [ca.densify(ca.jacobian(m.ode, m.x))])(xv, uv), dense.reshape(n, n) if n > 1 else dense.ravel(), "differential-equations", "state matrix")
