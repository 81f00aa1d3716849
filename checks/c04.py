import casadi as ca

from vfw import expr as ex
from vfw.core import scenario
from vfw.shadow import KINDS, Machine, observe, observe_queries
from yaocptool.modelling import OptimalControlProblem

RULE = (
    "Models with random histories are copied (shallow copy, deep copy, or as the working model of an optimal control problem) "
    "and the copy and the original are changed in random interleavings, each compared with its own shadow after every change."
)
ASSUMPTIONS = ["CasADi evaluates expressions correctly"]


def build(ctx, prefix=False, n_ops=6):
    mc = Machine(ctx, name=ctx.choice(["m", "plant"]), prefix=prefix)
    mc.create("x")
    ops = [mc.create] * 3 + [mc.include] * 2 + [mc.ode_named, mc.ode_der, mc.ode_keyword, mc.alg_keyword]
    ops += [mc.parametrize] * 2 + [mc.connect] * 2 + [mc.replace, mc.remove]
    for _ in range(n_ops):
        ctx.choice(ops)()
    return mc


def twin(mc, model, shadow):
    t = Machine.__new__(Machine)
    t.ctx, t.uni, t.m, t.s, t.prefix = mc.ctx, mc.uni, model, shadow, mc.prefix
    t.count, t.tag = 1000, "c"
    return t


def act(mc):
    ctx = mc.ctx
    ops = [mc.create] * 2 + [mc.include] * 2 + [mc.remove] * 2 + [mc.ode_named, mc.ode_der, mc.alg_keyword]
    ops += [mc.parametrize] * 2 + [mc.connect, mc.replace]
    ctx.choice(ops)()
    ctx.event("operations")


@scenario("C04", quick=300, thorough=1200)
def shallow_copies(ctx):
    """get_copy: same symbols, independent content."""
    mc = build(ctx)
    c = twin(mc, mc.m.get_copy(), mc.s.copy())
    ctx.event("copies")
    ctx.eq(c.m.name, mc.m.name, "copy-equivalent", "name")
    c.observe("copy")
    group = [mc, c]
    for i in range(7):
        who = ctx.choice(group)
        act(who)
        if i == 3 and ctx.chance():
            d = twin(who, who.m.get_copy(), who.s.copy())
            d.count, d.tag = 2000, "d"
            group.append(d)
            ctx.event("copies")
        for g in group:
            g.observe("original" if g is mc else "copy")
    for g in group:
        observe_queries(ctx, g.m, g.s, g.uni)


def deep_twin(ctx, mc, model):
    """Shadow of a deep copy: the same content over the copy's own symbols."""
    uni, s = mc.uni, mc.s
    new = s.copy()
    mp = {}

    def pair(old, vec, what):
        if not ctx.eq(vec.numel(), len(old), "copy-equivalent", "size of %s in the copy" % what):
            return []
        keys = uni.add_vec(vec)
        for o, k in zip(old, keys):
            mp.setdefault(o, k)
        return [mp[o] for o in old]

    new.t, new.tau = uni.add(model.t), uni.add(model.tau)
    mp[s.t], mp[s.tau] = new.t, new.tau
    for kind in KINDS:
        new.v[kind] = pair(s.v[kind], getattr(model, kind), kind)
    fresh = [(i, k) for i, k in enumerate(s.u_par) if k not in mp]
    for i, k in fresh:
        mp[k] = uni.add(model.u_par[i])
    new.u_par = [mp[k] for k in s.u_par]
    new.par = [mp[k] for k in s.par if k in mp]
    sub = {a: ("v", b) for a, b in mp.items()}
    new.ode = {mp[k]: (None if t is None else ex.sub(t, sub)) for k, t in s.ode.items()}
    new.alg = [ex.sub(t, sub) for t in s.alg]
    new.u_expr = [ex.sub(t, sub) for t in s.u_expr]
    return new, mp


@scenario("C04", quick=300, thorough=1200)
def deep_copies(ctx):
    """get_deepcopy: an equivalent model over its own symbols; no symbol is shared."""
    mc = build(ctx, prefix=ctx.chance(0.3))
    # drop references to symbols that already left the model (they cannot be renamed)
    stale = mc.used() - set(mc.s.symbols()) - {mc.s.t, mc.s.tau}
    if stale:
        ks = sorted(stale)
        mc.m.replace_variable(mc.vec(ks), ca.DM.ones(len(ks)))
        mc.s.subst({k: ("c", 1.0) for k in ks})
    model = mc.m.get_deepcopy()
    ctx.event("copies")
    before = dict(mc.uni.elem)
    new, mp = deep_twin(ctx, mc, model)
    if ctx.violations:
        return
    for o, k in mp.items():
        ctx.eq(mc.uni.name[k], mc.uni.name[o], "copy-equivalent", "name of a copied variable")
        ctx.check(not ca.is_equal(mc.uni.elem[k], mc.uni.elem[o], 0), "deep-copy-own-symbols", lambda: "symbol %s is shared" % mc.uni.name[o])
    old_vars = ca.vertcat(*[before[k] for k in sorted(before)])
    for e, nm in ((model.ode, "ode"), (model.alg, "alg"), (model.u_expr, "u_expr")):
        if e.numel():
            ctx.check(not ca.depends_on(e, old_vars), "deep-copy-own-symbols", "%s of the copy depends on symbols of the original" % nm)
    c = twin(mc, model, new)
    c.observe("deep copy")
    mc.observe("original")
    for _ in range(5):
        who = ctx.choice([mc, c])
        act(who)
        mc.observe("original")
        c.observe("deep copy")


@scenario("C04", quick=200, thorough=800)
def problem_owns_its_model(ctx):
    """What is done to a problem never reaches the model it was built from, nor another problem on it; the working
    model can be reset to the original."""
    mc = build(ctx)
    mc.complete()
    pr = OptimalControlProblem(mc.m, name="A")
    pr2 = OptimalControlProblem(mc.m, name="B")
    n_u, n_y = mc.m.n_u, mc.m.n_y
    for _ in range(ctx.randint(1, 5)):
        op = ctx.randint(0, 7)
        ctx.note("problem op", op)
        if op == 0:
            pr.create_state("extra%d" % ctx.randint(0, 10 ** 6), 2, ode=ca.SX.ones(2), x_0=ca.DM([1, 2]))
        elif op == 1:
            pr.create_control("w%d" % ctx.randint(0, 10 ** 6), 1)
        elif op == 2:
            pr.create_algebraic("z%d" % ctx.randint(0, 10 ** 6), 1,
                                alg=pr.model.x[0] if pr.model.n_x else ca.SX(1))
        elif op == 3:
            pr.create_parameter("q", 2)
            pr.create_optimization_parameter("qo", 1)
        elif op == 4 and pr.model.n_u_par and not pr.model.is_parametrized():
            pr.parametrize_control(pr.model.u, ca.SX.ones(pr.model.n_u), None)
        elif op == 5 and pr.model.n_x:
            pr.replace_variable(pr.model.x[0], pr.model.x[0] * 2)
        elif op == 6:
            pr.create_cost_state()
        elif op == 7:
            pr.create_theta("th", 1)
        mc.observe("model under a problem")
        observe(ctx, pr2.model, mc.s, mc.uni, "another problem's model")
    pr.reset_working_model()
    observe(ctx, pr.model, mc.s, mc.uni, "reset working model")
    # and the other way round: the problem keeps the model it was given
    s0 = mc.s.copy()
    for _ in range(2):
        act(mc)
    observe(ctx, pr2.model, s0, mc.uni, "problem after its source model changed")


@scenario("C04", quick=80, thorough=160)
def copies_with_adjoint_states(ctx):
    """Copies of a model with adjoint states know which half of the states is the system's."""
    mc = build(ctx)
    mc.complete()
    if not mc.s.v["x"] or len(mc.s.alg) != len(mc.s.v["y"]):
        return
    pr = OptimalControlProblem(mc.m, name="A")
    n = pr.model.n_x
    pr.L = ca.sumsqr(pr.model.x)
    pr.create_adjoint_states()
    for how in ctx.perm(["get_copy", "get_deepcopy"]):
        c = getattr(pr.model, how)()
        ctx.event("copies")
        for m, who in ((c, how), (pr.model, "original")):
            ctx.eq(m.n_x, 2 * n, "copy-equivalent", "%s: states" % who)
            ctx.check(ca.is_equal(ca.vertcat(m.x_sys_sym, m.lamb_sym), m.x, 0), "copy-equivalent", "%s: system states and adjoints are the states" % who)
            ctx.eq((m.x_sys_sym.numel(), m.lamb_sym.numel()), (n, n), "copy-equivalent", "%s: number of system states and adjoints" % who)
    ctx.eq((mc.m.n_x, mc.m.x_sys_sym.numel(), mc.m.lamb_sym.numel()), (n, n, 0), "copy-independent", "the model of the problem")
