import casadi as ca
import numpy as np

from checks.c11 import source
from vfw import expr as ex
from vfw.core import arr, scenario
from vfw.env import dm
from vfw.ocpshadow import FUNS, OCPMachine, vec
from vfw.shadow import KINDS, Universe
from yaocptool.modelling import Network, Node, OptimalControlProblem, SystemModel

RULE = (
    "Random problems with histories are merged, and put in networks with random connections (direct and through "
    "intermediary nodes); cost, constraints, bounds, guesses, decision parameters and equations of the composed problem are "
    "compared with those of the parts; node bookkeeping (ids, names, groups, connections) is compared with a plain graph."
)
ASSUMPTIONS = ["CasADi evaluates expressions correctly", "parts have no parametrized control and the same horizon"]
OPS = [o for o in OCPMachine.OPS if o not in ("parametrize", "replace")]


def part(ctx, uni, i, t_0=0.0, t_f=1.0, n_ops=5, ops=OPS):
    mc = source(ctx, uni=uni, tag="abcdef"[i], name="part%d" % i)
    o = OCPMachine(ctx, mc, name="prob%d" % i, t_0=t_0, t_f=t_f)
    for _ in range(ctx.randint(1, n_ops)):
        o.step(ops)
    # a shared clock is visible in the parts that use it
    if ctx.chance():
        t = ("*", ("v", o.s.t), o.tree(("x",), 1))
        o.L = ("+", o.L, t)
        o.pr.L = o.pr.L + o.mc.sx(t)
    if o.mc.undefined():
        und = o.mc.undefined()
        trees = [o.tree() for _ in und]
        o.pr.model.include_equations(ode=[o.mc.sx(t) for t in trees], x=[uni.elem[k] for k in und])
        o.s.ode.update(zip(und, trees))
    return o


def absorb(a, b):
    """Shadow of merging problem b into a."""
    s, q = a.s, b.s
    m = {q.t: ("v", s.t), q.tau: ("v", s.tau)}
    had = {k: bool(s.v[k]) for k in "yu"}
    for kind in KINDS:
        s.v[kind] += q.v[kind]
    s.u_par += q.v["u"]
    s.u_expr += [("v", k) for k in q.v["u"]]
    s.ode.update({k: ex.sub(t, m) for k, t in q.ode.items()})
    s.alg += [ex.sub(t, m) for t in q.alg]
    for n in ("lo", "hi", "dlo", "dhi", "plo", "phi", "x0", "x0sym"):
        getattr(a, n).update(getattr(b, n))
    a.popt += b.popt
    a.thopt += b.thopt
    for n in FUNS:
        a.f[n] += [ex.sub(t, m) for t in b.f[n]]
    for n in a.when:
        a.when[n] += b.when[n]
    for n in "LVS":
        setattr(a, n, ("+", getattr(a, n), ex.sub(getattr(b, n), m)))

    def join(mine, theirs, empty):
        if mine is None and not empty and theirs is not None:
            return dict(theirs)
        if mine is not None and theirs is not None:
            return dict(mine, **{}) | dict(theirs)
        return None

    for k in "yu":
        a.guess[k] = join(a.guess[k], b.guess[k], had[k])
    a.last_u = join(a.last_u, b.last_u, had["u"])


def lenient(o):
    """A guess known for only some of the variables may be dropped as a whole (but never be misaligned)."""
    for k in "yu":
        if o.guess[k] is None and getattr(o.pr, k + "_guess") is not None:
            g = getattr(o.pr, k + "_guess")
            o.ctx.eq(ca.vertcat(g).numel(), len(o.s.v[k]), "guesses", "size of the merged %s_guess" % k)
            setattr(o.pr, k + "_guess", None)
    if o.last_u is None and o.pr.last_u is not None:
        o.ctx.eq(ca.vertcat(o.pr.last_u).numel(), len(o.s.v["u"]), "previous-control", "size of the merged last_u")
        o.pr.last_u = None


@scenario("C12", quick=250, thorough=1000)
def merged_problems(ctx):
    uni = Universe(ctx)
    n = ctx.randint(2, 3)
    h = dict(t_0=ctx.choice([0.0, 1.0]), t_f=ctx.choice([2.0, 5.0]))
    ps = [part(ctx, uni, i, **h) for i in range(n)]
    if ctx.chance(0.4):
        for o in ps:
            for kind in "yu":
                ks = o.s.v[kind]
                if ks:
                    g = [round(ctx.uniform(-1, 1), 3) for _ in ks]
                    setattr(o.pr, kind + "_guess", dm(g))
                    o.guess[kind] = dict(zip(ks, g))
            ks = o.s.v["u"]
            if ks:
                o.pr.last_u = dm([0.1 * i for i in range(len(ks))])
                o.last_u = {k: 0.1 * i for i, k in enumerate(ks)}
    pos = [ctx.chance() for _ in ps]
    for o, q in zip(ps, pos):
        o.pr.positive_objective = q
    if ctx.chance():
        a, rest = ps[0], ps[1:]
    else:
        from vfw.shadow import Machine

        mc = Machine(ctx, name="empty", uni=uni)
        a, rest = OCPMachine(ctx, mc, name="all", **h), ps
    snaps = [(o.s.copy(), o.pr.L) for o in rest]
    ctx.note("merge", len(rest), "into", "a problem" if a is ps[0] else "an empty problem")
    if ctx.chance():
        a.pr.merge([o.pr for o in rest])
    else:
        for o in rest:
            a.pr.merge([o.pr])
    keep = [(o.popt[:], o.thopt[:]) for o in rest]
    for o in rest:
        absorb(a, o)
    lenient(a)
    a.observe("merged problem")
    ctx.event("merges", len(rest))
    # the parts are as they were
    for o, (sn, L) in zip(rest, snaps):
        o.mc.s = sn
        o.observe("part of the merge")
    # and the result goes on living
    for _ in range(2):
        a.step(OPS)
        a.observe("merged problem, changed")
    # different horizons cannot be merged
    other = OptimalControlProblem(SystemModel(), t_0=h["t_0"], t_f=h["t_f"] + 1)
    with ctx.raises("horizon", "problems with different final times", ValueError):
        a.pr.merge([other])
    other = OptimalControlProblem(SystemModel(), t_0=h["t_0"] - 0.5, t_f=h["t_f"])
    with ctx.raises("horizon", "problems with different initial times", ValueError):
        a.pr.merge([other])


def wire(ctx, net, ps, nodes, uni, want):
    n = len(ps)
    eqs = []
    free = {i: list(ps[i].s.v["u"]) for i in range(n)}
    for _ in range(want if n > 1 else 0):
        a, b = ctx.sample(range(n), 2)
        out = ps[a].s.v["y"]
        if not free[b] or not out:
            continue
        m = ctx.randint(1, min(len(free[b]), len(out)))
        ys = ctx.sample(out, m)
        us = [free[b].pop(0) for _ in range(m)]
        net.connect(ps[a].mc.vec(ys), ps[b].mc.vec(us), nodes[a], nodes[b])
        eqs.append((a, b, ys, us))
    ctx.event("connections", len(eqs))
    return eqs


@scenario("C12", quick=250, thorough=1000)
def network_problems(ctx):
    """The problem of a network: everything of the nodes, and one equation per connected pair."""
    uni = Universe(ctx)
    n = ctx.randint(1, 4)
    h = dict(t_0=ctx.choice([0.0, 0.0, 1.0]), t_f=ctx.choice([2.0, 5.0]))
    ps = [part(ctx, uni, i, n_ops=3, **h) for i in range(n)]
    ids = ctx.perm(range(n)) if ctx.chance() else [None] * n
    nodes = [Node(name="n%d" % i, problem=ps[i].pr, node_id=ids[i]) for i in range(n)]
    mode = ctx.turn(["direct", "direct", "intermediary", "inserted"])
    net = Network(nodes=nodes, name="net", intermediary_nodes=mode == "intermediary")
    eqs = wire(ctx, net, ps, nodes, uni, ctx.randint(0, 5))
    ctx.note("network", mode, "nodes", n, "connections", [(a, b, [uni.name[k] for k in ys], [uni.name[k] for k in us]) for a, b, ys, us in eqs])
    if mode == "inserted":
        net.insert_intermediary_nodes()
    pairs = len({(a, b) for a, b, _, _ in eqs})
    n_dummy = {"direct": 0, "intermediary": len(eqs), "inserted": pairs}[mode]
    ctx.eq(len(net.nodes), n + n_dummy, "network-nodes", "number of nodes (%s)" % mode)
    for nd in nodes:
        ctx.check(nd in net.nodes, "network-nodes", "node %s left the network" % nd.name)
    pr = net.get_problem()
    ctx.eq((pr.t_0, pr.t_f), (h["t_0"], h["t_f"]), "horizon", "horizon of the network problem")
    con = [(u, y) for _, _, ys, us in eqs for y, u in zip(ys, us)]
    cu = [u for u, _ in con]
    t, tau = uni.add(pr.model.t), uni.add(pr.model.tau)
    dummies = {}
    for kind in KINDS:
        v = getattr(pr.model, kind)
        got = [uni.key_of(v[i]) for i in range(v.numel())]
        new = []
        for i, k in enumerate(got):
            if k is None:
                got[i] = uni.add(v[i])
                new.append(got[i])
        want = [k for p in ps for k in p.s.v[kind]]
        if kind == "u":
            want = [k for k in want if k not in cu]
        if kind == "y":
            want = want + cu + new
            ctx.eq(len(new), 2 * len(con) if mode != "direct" else 0, "network-variables", "dummy variables (%s)" % mode)
            dummies = new
        ctx.eq(sorted(map(str, got)), sorted(map(str, want)), "network-variables", "%s of the network problem" % kind)
        if kind in "xyu":
            lo, hi = vec(getattr(pr, kind + "_min")), vec(getattr(pr, kind + "_max"))
            ctx.eq((lo.size, hi.size), (len(got), len(got)), "bounds", "number of %s bounds" % kind)
            if ctx.violations:
                return
            owner = {k: p for p in ps for k in p.lo}
            for i, k in enumerate(got):
                wl, wh = (owner[k].lo[k], owner[k].hi[k]) if k in owner else (-np.inf, np.inf)
                ctx.close([lo[i], hi[i]], [wl, wh], "bounds", "bounds of %s in the network" % uni.name[k])
        if kind == "u":
            dlo, dhi = vec(pr.delta_u_min), vec(pr.delta_u_max)
            for i, k in enumerate(got):
                ctx.close([dlo[i], dhi[i]], [owner[k].dlo[k], owner[k].dhi[k]], "rate-bounds", "rate bounds of %s" % uni.name[k])
        if kind == "x":
            x0 = vec(pr.x_0)
            for i, k in enumerate(got):
                ctx.close(x0[i], owner[k].x0[k], "initial-values", "x_0 of %s" % uni.name[k])
    uni.resample()
    for p in ps:
        uni.val[p.s.t], uni.val[p.s.tau] = uni.val[t], uni.val[tau]
        uni.val[p.src.s.t], uni.val[p.src.s.tau] = uni.val[t], uni.val[tau]
    # the dummies of a connected pair carry the value of the output: the input is what is left to compare
    if dummies:
        left = [k for k in dummies]
        for u, y in con:
            nu, ny = "Dummy_" + uni.name[y], "Dummy_" + uni.name[u]
            a = [k for k in left if uni.name[k] == nu]
            b = [k for k in left if uni.name[k] == ny]
            if not ctx.check(a and b, "network-variables", lambda: "no dummies for %s=%s among %s" % (uni.name[u], uni.name[y], [uni.name[k] for k in dummies])):
                return
            uni.val[b[0]] = uni.val[y]
            for k in a:
                uni.val[k] = uni.val[y]
    ode, alg, L, V, S = uni.eval([pr.model.ode, pr.model.alg, pr.L, pr.V, pr.S])
    got = {uni.key_of(pr.model.x[i]): ode[i] for i in range(pr.model.n_x)}
    for p in ps:
        for k, tr in p.s.ode.items():
            ctx.close(got[k], ex.num(tr, uni.val), "network-dynamics", "d %s" % uni.name[k], atol=1e-8)
    want = [ex.num(tr, uni.val) for p in ps for tr in p.s.alg] + [uni.val[u] - uni.val[y] for u, y in con]
    want += [0.0] * len(dummies)
    ctx.eq(len(alg), len(want), "network-dynamics", "number of algebraic equations")
    if len(alg) == len(want):
        ctx.close(sorted(np.abs(alg)), sorted(np.abs(want)), "network-dynamics", "algebraic residuals", atol=1e-8)
    ctx.close(L, [sum(ex.num(p.L, uni.val) for p in ps)], "cost", "L of the network", atol=1e-8)
    ctx.close(V, [sum(ex.num(p.V, uni.val) for p in ps)], "cost", "V of the network", atol=1e-8)
    ctx.close(S, [sum(ex.num(p.S, uni.val) for p in ps)], "cost", "S of the network", atol=1e-8)
    for f in FUNS:
        g = uni.eval([getattr(pr, f)])[0]
        want = [ex.num(tr, uni.val) for p in ps for tr in p.f[f]]
        if ctx.eq(len(g), len(want), "constraints", "number of %s in the network" % f):
            ctx.close(sorted(g), sorted(want), "constraints", "%s of the network" % f, atol=1e-8)
        if f in ("g_eq", "g_ineq"):
            tm = sorted(zip(np.round(g, 6).tolist(), getattr(pr, "time_" + f)))
            wt = sorted(zip(np.round(want, 6).tolist(), [w for p in ps for w in p.when[f]]))
            ctx.eq([b for _, b in tm], [b for _, b in wt], "constraint-times", "when of %s" % f)
    for attr, name in (("p_opt", "popt"), ("theta_opt", "thopt")):
        v = getattr(pr, attr)
        keys = [uni.key_of(v[i]) for i in range(v.numel())]
        ctx.eq(sorted(keys), sorted(k for p in ps for k in getattr(p, name)), "optimization-parameters", attr)
        lo, hi = vec(getattr(pr, attr + "_min")), vec(getattr(pr, attr + "_max"))
        ow = {k: p for p in ps for k in p.plo}
        ctx.close(lo, [ow[k].plo[k] for k in keys], "optimization-parameters", attr + "_min")
        ctx.close(hi, [ow[k].phi[k] for k in keys], "optimization-parameters", attr + "_max")
    pr.pre_solve_check()
    for p in ps:
        p.observe("node problem")
    # building it again gives the same problem
    again = net.get_problem()
    ctx.eq((again.model.n_x, again.model.n_y, again.model.n_u), (pr.model.n_x, pr.model.n_y, pr.model.n_u), "network-repeatable", "a second get_problem")


@scenario("C12", quick=300, thorough=1200)
def network_bookkeeping(ctx):
    """Node ids, look-ups, connections and colouring groups, over include/connect/disconnect histories."""
    net = Network(name="net")
    nodes, edges = [], {}
    cnt = 0

    def fresh(i, node_id=None):
        m = SystemModel(name="m%d" % i)
        m.create_state("x%d" % i, 1)
        m.create_algebraic_variable("y%d" % i, 2)
        m.create_control("u%d" % i, 2)
        return m, node_id

    many = ctx.chance(0.12)
    for step in range(ctx.randint(12, 18) if many else ctx.randint(4, 12)):
        op = ctx.choice(["create", "include", "include", "connect"] if many else ["create", "include", "connect", "connect", "connect", "disconnect", "reject"])
        if op == "create":
            m, _ = fresh(cnt)
            name = ctx.choice(nodes).name if nodes and ctx.chance(0.15) else "n%d" % cnt if ctx.chance(0.8) else None
            nodes.append(net.create_node(name, problem=OptimalControlProblem(m)) if ctx.chance(0.4) else net.create_node(name, model=m))
            cnt += 1
        elif op == "include":
            new = []
            taken = {nd.node_id for nd in nodes}
            for _ in range(ctx.randint(1, 3)):
                free = [i for i in range(24 if many else 8) if i not in taken]
                nid = ctx.choice(free) if free and ctx.chance() else None
                taken.add(nid)
                new.append(Node(name="n%d" % cnt, model=fresh(cnt)[0], node_id=nid))
                cnt += 1
            given = [(nd, nd.node_id) for nd in new]
            net.include_nodes(new if len(new) > 1 or ctx.chance() else new[0])
            for nd, nid in given:
                if nid is not None:
                    ctx.eq(nd.node_id, nid, "node-ids", "id given by the user")
            nodes += new
        elif op == "connect" and len(nodes) >= 2:
            a, b = ctx.sample(nodes, 2)
            k = ctx.randint(1, 2)
            y, u = a.model.y[:k], b.model.u[:k]
            net.connect(y, u, a, b)
            e = edges.setdefault((a.node_id, b.node_id), [[], []])
            e[0] += [y[i] for i in range(k)]
            e[1] += [u[i] for i in range(k)]
        elif op == "disconnect" and edges:
            a, b = ctx.choice(sorted(edges))
            net.remove_connection(net[a], net[b])
            del edges[a, b]
        elif op == "reject" and len(nodes) >= 2:
            a, b = ctx.sample(nodes, 2)
            with ctx.raises("network-rejects", "an output of the wrong node", ValueError):
                net.connect(b.model.y[0], b.model.u[0], a, b)
            with ctx.raises("network-rejects", "an input of the wrong node", ValueError):
                net.connect(a.model.y[0], a.model.u[0], a, b)
        else:
            continue
        ctx.note(op, len(nodes), sorted(edges))
        ctx.event("operations")
        ids = [nd.node_id for nd in nodes]
        ctx.eq(len(set(ids)), len(nodes), "node-ids", "ids are unique: %s" % ids)
        ctx.check(None not in ids, "node-ids", "a node without id")
        ctx.eq(len(net.nodes), len(nodes), "network-nodes", "number of nodes")
        for nd in nodes:
            ctx.check(net.get_node_by_id(nd.node_id) is nd and net[nd.node_id] is nd, "node-lookup", "look-up of node id %s" % nd.node_id)
            if [q.name for q in nodes].count(nd.name) == 1:
                ctx.check(net.get_node_by_name(nd.name) is nd and net[nd.name] is nd, "node-lookup", "look-up of node name %s" % nd.name)
            else:
                ctx.eq(net[nd.name].name, nd.name, "node-lookup", "look-up of one of several nodes with the same name")
        with ctx.raises("node-lookup", "an unknown id", IndexError):
            net[10 ** 6]
        with ctx.raises("node-lookup", "an unknown name", KeyError):
            net["nobody"]
        ctx.eq(sorted((a.node_id, b.node_id) for a, b in net.connections), sorted(edges), "connections", "connections")
        for (a, b) in net.connections:
            d = net.connections[a, b]
            want = edges.get((a.node_id, b.node_id), [[], []])
            ok = d["y"].numel() == len(want[0]) and d["u"].numel() == len(want[1])
            ok = ok and all(ca.is_equal(d["y"][i], e, 0) for i, e in enumerate(want[0])) and all(ca.is_equal(d["u"][i], e, 0) for i, e in enumerate(want[1]))
            ctx.check(ok, "connections", lambda: "%s->%s carries %s, expected %s" % (a.name, b.name, d, want))
        ctx.eq(len(net.models), len(nodes), "network-nodes", "number of models")
        ctx.check([m is nd.model for m, nd in zip(net.models, sorted(nodes, key=lambda q: q.node_id))].count(False) == 0, "network-nodes", "models in the order of the ids")
        ctx.check([m is nd.problem for m, nd in zip(net.problems, sorted(nodes, key=lambda q: q.node_id))].count(False) == 0, "network-nodes", "problems in the order of the ids")
        groups = net.get_map_coloring_groups()
        flat = [nd.node_id for g in groups for nd in g]
        ctx.eq(sorted(flat), sorted(nd.node_id for nd in nodes), "colouring", "every node in exactly one group")
        of = {nd.node_id: i for i, g in enumerate(groups) for nd in g}
        for a, b in edges:
            ctx.check(of[a] != of[b], "colouring", "%s and %s are connected and in the same group" % (a, b))


@scenario("C12", quick=50, thorough=200)
def network_initial_condition(ctx):
    """The condition of each node after simulating the network: consistent with the network as a whole."""
    r = ctx.rng
    n = ctx.randint(2, 3)
    net = Network(name="net")
    nodes = []
    A, x0 = r.uniform(-1, -0.2, n), r.uniform(-1, 1, n)
    G = r.uniform(-0.5, 0.5, n)
    for i in ctx.perm(range(n)):
        m = SystemModel(name="m%d" % i)
        x, y, u = m.create_state("x%d" % i), m.create_algebraic_variable("y%d" % i), m.create_control("u%d" % i)
        m.include_equations(ode=[A[i] * x + G[i] * u], alg=[y - 2 * x])
        pr = OptimalControlProblem(m, x_0=[x0[i]], t_f=10)
        nodes.append((i, net.create_node("n%d" % i, problem=pr)))
    nodes.sort(key=lambda q: q[0])
    nd = [q for _, q in nodes]
    src = {}
    M = np.diag(A)
    for i in range(n):
        j = (i + 1) % n
        net.connect(nd[j].model.y, nd[i].model.u, nd[j], nd[i])
        M[i, j] += 2 * G[i]
    tf = ctx.uniform(0.3, 1.5)
    ic = net.get_initial_condition(tf)
    import scipy.linalg

    xf = scipy.linalg.expm(M * tf) @ x0
    ctx.note("ring of", n)
    for i in range(n):
        c = ic["n%d" % i]
        ctx.close(vec(c["x"]), [xf[i]], "network-condition", "x of node %d" % i, rtol=1e-3, atol=1e-4)
        ctx.close(vec(c["y"]), [2 * xf[i]], "network-condition", "y of node %d" % i, rtol=1e-3, atol=1e-4)
        ctx.close(vec(c["u"]), [2 * xf[(i + 1) % n]], "network-condition", "u of node %d" % i, rtol=1e-3, atol=1e-4)
