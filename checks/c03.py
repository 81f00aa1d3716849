import casadi as ca
import numpy as np
from scipy.integrate import solve_ivp

from vfw import expr as ex
from vfw.core import scenario
from vfw.env import SX_sym
from vfw.shadow import KINDS, Machine, Shadow, Universe, observe, observe_queries
from yaocptool.modelling import Network, Node, SystemModel
from yaocptool.modelling.dae_system import DAESystem

RULE = (
    "Random histories of substitution, control parametrization, input-output connection and model composition "
    "(include, merge, network), compared with a shadow model after every operation; composed systems are also simulated "
    "against a reference integration."
)
ASSUMPTIONS = ["CasADi evaluates expressions correctly", "sub-models given to a composition have every differential equation and no parametrized control"]


def seed_model(ctx, uni=None, name="m", tag="", n_extra=3):
    mc = Machine(ctx, name=name, uni=uni)
    mc.tag = tag
    mc.create("x", ctx.choice([1, 2, (2, 2)]))
    mc.create("u", ctx.randint(1, 3))
    mc.create("y", ctx.randint(1, 3))
    for _ in range(ctx.randint(0, n_extra)):
        mc.create()
    ctx.choice([mc.ode_named, mc.ode_der, mc.ode_keyword])()
    mc.complete()
    for _ in range(ctx.randint(0, 2)):
        mc.alg_keyword()
    return mc


@scenario("C03", quick=280, thorough=1200)
def transformation_histories(ctx):
    mc = seed_model(ctx)
    ops = [mc.replace] * 3 + [mc.parametrize] * 3 + [mc.connect] * 3
    ops += [mc.create, mc.include, mc.ode_named, mc.alg_keyword, mc.parametrize_again, mc.reject_transform, mc.remove]
    for _ in range(10):
        ctx.choice(ops)()
        ctx.event("operations")
        mc.observe()
    observe_queries(ctx, mc.m, mc.s, mc.uni)


@scenario("C03", quick=200, thorough=800)
def composition(ctx):
    top = Machine(ctx, name="top")
    top.tag = "T"
    if ctx.chance(0.6):
        for k in ctx.sample(KINDS, ctx.randint(1, 3)):
            top.create(k)
        top.complete()
    n = ctx.randint(1, 3)
    parts = []
    for i in range(n):
        p = seed_model(ctx, uni=top.uni, name="part%d" % i, tag="abc"[i])
        for _ in range(ctx.randint(0, 2)):
            ctx.choice([p.replace, p.connect, p.remove])()
        p.complete()
        # every part uses its own clock
        k = p.s.v["x"]
        if k:
            t = ("+", ("*", ("v", p.s.t), ("v", k[0])), p.expr(depth=1))
            p.m.include_equations(ode=[p.sx(t)], x=[p.uni.elem[k[-1]]])
            p.s.ode[k[-1]] = t
        if ctx.chance(0.4):
            t = ("-", ("v", p.s.tau), p.expr(depth=1))
            p.m.include_equations(alg=[p.sx(t)])
            p.s.alg.append(t)
        parts.append(p)
    if ctx.chance():
        top.absorb(parts[:1])
        if n > 1:
            top.absorb(parts[1:])
    else:
        extra = []
        if ctx.chance(0.6):
            us = [k for p in parts for k in p.s.v["u"]]
            ys = [k for p in parts for k in p.s.v["y"]]
            for _ in range(ctx.randint(1, 3)):
                if us and ys:
                    extra.append(("-", ("v", ctx.choice(us)), ("v", ctx.choice(ys))))
        top.absorb(parts, how="merge" if extra else None, extra=extra)
    top.observe("composed")
    observe_queries(ctx, top.m, top.s, top.uni)
    # the parts are as they were
    for p in parts:
        p.observe("part " + p.m.name)
    # and changing the composed model leaves them so
    for _ in range(3):
        ctx.choice([top.replace, top.connect, top.parametrize, top.create, top.ode_named])()
        ctx.event("operations")
    top.observe("composed, changed")
    for p in parts:
        p.observe("part " + p.m.name)


def _tank(ctx, i):
    """x' = -a x + u + c sin(t), output y = g x"""
    a, g, c = ctx.uniform(0.3, 1.5), ctx.uniform(0.5, 1.5), ctx.uniform(-1, 1)
    m = SystemModel(name="tank%d" % i)
    x, u, y = m.create_state("x%d" % i), m.create_control("u%d" % i), m.create_algebraic_variable("y%d" % i)
    m.include_equations(ode=[-a * x + u + c * ca.sin(m.t)], alg=[y - g * x])
    return m, x, u, y, (a, g, c)


@scenario("C03", quick=96, thorough=384)
def connected_simulation(ctx):
    """Tanks composed and connected in a random acyclic graph follow the coupled equations."""
    n = ctx.randint(2, 4)
    tanks = [_tank(ctx, i) for i in range(n)]
    top = SystemModel(name="plant")
    how = ctx.randint(0, 1)
    if how == 0:
        top.include_models([t[0] for t in tanks])
    else:
        for t in tanks:
            top.merge(t[0])
    src = {}
    for i in range(1, n):
        if ctx.chance(0.8):
            src[i] = ctx.randint(0, i - 1)
    order = ctx.perm(list(src))
    modes = []
    for i in order:
        rep = ctx.chance()
        modes.append(rep)
        top.connect(tanks[i][2], tanks[src[i]][3], replace=rep)
    free = [i for i in range(n) if i not in src]
    ctx.note("tanks", n, "edges", src, "replace", modes, [np.round(t[4], 3).tolist() for t in tanks])
    ctx.eq(top.n_u, len(free), "counts", "free inputs after connecting")
    ctx.eq(top.n_y, n + sum(not r for r in modes), "counts", "algebraic variables after connecting")
    uv = {i: ctx.uniform(-1, 1) for i in free}
    x0 = ctx.rng.uniform(-1, 1, n)
    tf = ctx.uniform(0.5, 2)
    names = [top.u[i].name() for i in range(top.n_u)]
    ctx.eq(names, ["u%d" % i for i in free], "variable-names", "free inputs")
    res = top.simulate(x_0=x0.tolist(), t_f=tf, u=[uv[i] for i in free], y_0=ca.DM.zeros(top.n_y))

    def f(t, x):
        d = np.zeros(n)
        for i in range(n):
            a, g, c = tanks[i][4]
            u = uv[i] if i in uv else tanks[src[i]][4][1] * x[src[i]]
            d[i] = -a * x[i] + u + c * np.sin(t)
        return d

    ref = solve_ivp(f, (0, tf), x0, rtol=1e-10, atol=1e-12).y[:, -1]
    fin = res.final_condition()
    ctx.close(fin["x"], ref, "connected-dynamics", "final state of the connected system", rtol=1e-3, atol=1e-4)
    ynames = top.y_names
    for i in range(n):
        ctx.close(ca.DM(fin["y"])[ynames.index("y%d" % i)], tanks[i][4][1] * ref[i], "connected-dynamics", "output %d" % i, rtol=1e-3, atol=1e-4)


@scenario("C03", quick=96, thorough=384)
def parametrized_simulation(ctx):
    """Closing the loop by parametrizing the control equals writing the feedback into the equations."""
    n, nu = ctx.randint(1, 3), ctx.randint(1, 2)
    A = ctx.rng.uniform(-1, 1, (n, n)) - np.eye(n)
    B = ctx.rng.uniform(-1, 1, (n, nu))
    m = SystemModel()
    x, u = m.create_state("x", n), m.create_control("u", nu)
    m.include_equations(ode=ca.mtimes(ca.DM(A), x) + ca.mtimes(ca.DM(B), u))
    K = ctx.rng.uniform(-0.5, 0.5, (nu, n))
    w = SX_sym("w", nu)
    j = ctx.randint(0, nu - 1)
    which = list(range(nu)) if ctx.chance() else [j]
    exprs = [ca.mtimes(ca.DM(K[i : i + 1, :]), x) + w[i] * ca.cos(m.t) for i in which]
    par = ca.vertcat(*[w[i] for i in which])
    m.parametrize_control(ca.vertcat(*[u[i] for i in which]), ca.vertcat(*exprs), par)
    rest = [i for i in range(nu) if i not in which]
    wv = {i: ctx.uniform(-1, 1) for i in which}
    uv = {i: ctx.uniform(-1, 1) for i in rest}
    x0, tf, t0 = ctx.rng.uniform(-1, 1, n), ctx.uniform(0.5, 1.5), ctx.choice([0.0, 0.7])
    given = [uv[i] for i in rest] + [wv[i] for i in which]
    ctx.note("A", A.tolist(), "B", B.tolist(), "K", K.tolist(), which, given, t0, tf)
    res = m.simulate(x_0=x0.tolist(), t_0=t0, t_f=t0 + tf, u=given)

    def uf(t, xx):
        return np.array([K[i] @ xx + wv[i] * np.cos(t) if i in which else uv[i] for i in range(nu)])

    ref = solve_ivp(lambda t, xx: A @ xx + B @ uf(t, xx), (t0, t0 + tf), x0, rtol=1e-10, atol=1e-12).y[:, -1]
    fin = res.final_condition()
    ctx.close(fin["x"], ref, "parametrized-dynamics", "final state in closed loop", rtol=1e-3, atol=1e-4)
    ctx.close(fin["u"], uf(t0 + tf, ref), "parametrized-dynamics", "control reported by the simulation", rtol=1e-3, atol=1e-3)


@scenario("C03", quick=96, thorough=384)
def network_model(ctx):
    """The model of a network is the composition of its nodes plus one equation per connected pair."""
    n = ctx.randint(1, 4)
    uni = Universe(ctx)
    parts = [seed_model(ctx, uni=uni, name="node%d" % i, tag="abcd"[i], n_extra=1) for i in range(n)]
    for p in parts:
        k = p.s.v["x"]
        t = ("+", ("v", p.s.t), p.expr(depth=1))
        p.m.include_equations(ode=[p.sx(t)], x=[uni.elem[k[0]]])
        p.s.ode[k[0]] = t
    ids = ctx.perm(range(n))
    nodes = [Node(name="node%d" % i, node_id=ids[i], model=parts[i].m) for i in range(n)]
    net = Network(name="net", nodes=nodes)
    eqs = []
    free = {i: list(parts[i].s.v["u"]) for i in range(n)}
    out = {i: list(parts[i].s.v["y"]) for i in range(n)}
    for _ in range(ctx.randint(0, 4) if n > 1 else 0):
        a, b = ctx.sample(range(n), 2)
        if not free[b]:
            continue
        m = ctx.randint(1, min(len(free[b]), len(out[a])))
        ys = out[a][:m]
        us = [free[b].pop(0) for _ in range(m)]
        net.connect(parts[a].vec(ys), parts[b].vec(us), nodes[a], nodes[b])
        eqs.append((a, b, ys, us))
    ctx.note("nodes", n, "ids", ids, "connections", [(a, b, [uni.name[k] for k in ys], [uni.name[k] for k in us]) for a, b, ys, us in eqs])
    model = net.get_model()
    ctx.event("connections", len(eqs))
    t, tau = uni.add(model.t), uni.add(model.tau)
    con = [u for e in eqs for u in e[3]]
    # as sets per kind: the order of the nodes in the result is not promised
    for kind in KINDS:
        want = [k for p in parts for k in p.s.v[kind]]
        if kind == "u":
            want = [k for k in want if k not in con]
        if kind == "y":
            want = want + con
        got = [uni.key_of(getattr(model, kind)[i]) for i in range(getattr(model, kind).numel())]
        ctx.eq(sorted(map(str, got)), sorted(map(str, want)), "network-variables", "%s of the network model" % kind)
    uni.resample()
    for p in parts:
        uni.val[p.s.t], uni.val[p.s.tau] = uni.val[t], uni.val[tau]
    ode, alg = uni.eval([model.ode, model.alg])
    got = {uni.key_of(model.x[i]): ode[i] for i in range(model.n_x)}
    for p in parts:
        for k, tr in p.s.ode.items():
            ctx.close(got[k], ex.num(tr, uni.val), "network-dynamics", "d %s" % uni.name[k], atol=1e-8)
    want = [ex.num(tr, uni.val) for p in parts for tr in p.s.alg]
    conn = [uni.val[u] - uni.val[y] for e in eqs for y, u in zip(e[2], e[3])]
    ctx.eq(len(alg), len(want) + len(conn), "network-dynamics", "number of algebraic equations")
    # residuals agree as multisets, up to the sign of a connection
    ctx.close(sorted(np.abs(alg)), sorted(np.abs(want + conn)), "network-dynamics", "algebraic residuals", atol=1e-8)
    for p in parts:
        # building the network model left the nodes alone (checked on their own clock)
        observe(ctx, p.m, p.s, uni, "node")


@scenario("C03", quick=80, thorough=320)
def dae_join(ctx):
    """Joining DAE systems: all variables and equations, one clock; substitution reaches variables and equations."""
    uni = Universe(ctx)
    ds, sh = [], []
    for i in range(ctx.randint(2, 3)):
        t, tau = SX_sym("t%d" % i), SX_sym("tau%d" % i)
        kt, ktau = uni.add(t), uni.add(tau)
        x, y, p = SX_sym("x%d" % i, ctx.randint(1, 2)), SX_sym("y%d" % i, ctx.randint(1, 2)), SX_sym("p%d" % i, ctx.randint(1, 2))
        kx, ky, kp = uni.add_vec(x), uni.add_vec(y), uni.add_vec(p)
        allk = kx + ky + kp + [kt] + ([ktau] if ctx.chance() else [])
        o = [ex.gen(ctx, allk) for _ in kx]
        a = [ex.gen(ctx, allk) for _ in ky]
        has_y = ctx.chance(0.7)
        kw = dict(y=y, alg=ca.vertcat(*[ex.sx(q, uni.elem) for q in a])) if has_y else {}
        if not has_y:
            allk = [k for k in allk if k not in ky]
            o = [ex.gen(ctx, allk) for _ in kx]
            a, ky = [], []
        d = DAESystem(x=x, ode=ca.vertcat(*[ex.sx(q, uni.elem) for q in o]), t=t, tau=tau, p=p, **kw)
        ds.append(d)
        sh.append([kx, ky, kp, o, a, kt, ktau])
    base, s0 = ds[0], sh[0]
    for d, s in zip(ds[1:], sh[1:]):
        base.join(d)
        m = {s[5]: ("v", s0[5]), s[6]: ("v", s0[6])}
        for j in range(3):
            s0[j] = s0[j] + s[j]
        s0[3] = s0[3] + [ex.sub(q, m) for q in s[3]]
        s0[4] = s0[4] + [ex.sub(q, m) for q in s[4]]
    # rename a variable everywhere
    pool = s0[0] + s0[1] + s0[2]
    k = ctx.choice(pool)
    new = uni.add(SX_sym("renamed"))
    base.substitute_variable(uni.elem[k], uni.elem[new])
    for j in range(3):
        s0[j] = [new if q == k else q for q in s0[j]]
    for j in (3, 4):
        s0[j] = [ex.sub(q, {k: ("v", new)}) for q in s0[j]]
    from vfw.env import same_symbols

    for v, ks, nm in ((base.x, s0[0], "x"), (base.y, s0[1], "y"), (base.p, s0[2], "p")):
        ctx.check(same_symbols(v, [uni.elem[q] for q in ks]), "dae-join", lambda: "%s is %s" % (nm, v))
    uni.resample()
    o, a = uni.eval([base.ode, base.alg])
    ctx.note("join", [ex.show(q, uni.name) for q in s0[3]])
    ctx.close(o, [ex.num(q, uni.val) for q in s0[3]], "dae-join", "ode", atol=1e-8)
    ctx.close(a, [ex.num(q, uni.val) for q in s0[4]], "dae-join", "alg", atol=1e-8)
    ctx.eq(base.is_dae, bool(s0[4]), "dae-join", "is_dae")
    ctx.eq(base.type, "dae" if s0[4] else "ode", "dae-join", "type")
    ctx.check(not base.has_variable(uni.elem[k]), "dae-join", "substituted variable still present")
    ctx.check(base.has_variable(uni.elem[new]), "dae-join", "substitute missing")
    used = set()
    for q in s0[3] + s0[4]:
        ex.keys_of(q, used)
    for q in ctx.sample(sorted(uni.elem), 4):
        dep = base.depends_on(uni.elem[q])
        if q not in used:
            ctx.check(not dep, "dae-join", "depends_on a variable that does not occur")
    # structural use without cancellation: an affine occurrence
    ktau = s0[6]
    t_k, t_kp1 = ctx.uniform(0, 1), ctx.uniform(2, 3)
    base.convert_from_tau_to_time(t_k, t_kp1)
    ctx.check(not base.depends_on(uni.elem[ktau]), "tau-conversion", "tau left after the conversion")
    uni.resample()
    uni.val[ktau] = (uni.val[s0[5]] - t_k) / (t_kp1 - t_k)
    o, a = uni.eval([base.ode, base.alg])
    ctx.close(o, [ex.num(q, uni.val) for q in s0[3]], "tau-conversion", "ode", atol=1e-8)
    ctx.close(a, [ex.num(q, uni.val) for q in s0[4]], "tau-conversion", "alg", atol=1e-8)
