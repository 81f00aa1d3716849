import random

import casadi as ca
import numpy as np

from vfw.core import scenario
from vfw.env import dm
from vfw import remote
from yaocptool.methods import DirectMethod
from yaocptool.methods.network.bipartite_jacobi_admm import BipartiteJacobiADMM
from yaocptool.methods.network.distributedaugmetedlagrangian import DistributedAugmentedLagrangian
from yaocptool.modelling import Network, OptimalControlProblem, SystemModel

RULE = (
    "Random networks of convex subproblems (chains, stars, cycles, vector connections, intermediary nodes) are solved by the "
    "distributed methods, in process and through stand-ins of remote processes whose messages are interleaved at random; every "
    "node solve and every multiplier update is recorded and replayed in plain numpy from the neighbours' latest answers, and "
    "the converged network is compared with the solution of the centralized problem."
)
ASSUMPTIONS = [
    "remote processes are actors that handle their messages in order (the 'erised' package itself is not installed)",
    "collocation, control degree equal to the state degree, IPOPT converges on small convex problems",
]


def v(d):
    return np.array(ca.DM(d).full(), float).ravel()


class Net:
    """A network of convex subproblems, held as plain data."""

    def __init__(self, ctx, n=None, cyclic=None, vector=True):
        r = ctx.rng
        self.n = n or ctx.randint(2, 4)
        self.cyclic = ctx.chance(0.3) if cyclic is None else cyclic
        self.t0 = ctx.choice([0.0, 0.0, 0.5])
        self.tf = self.t0 + ctx.choice([0.8, 1.0])
        self.fe, self.deg = ctx.randint(2, 3), ctx.choice([2, 2, 3])
        rnd = lambda a, b: round(float(r.uniform(a, b)), 3)
        N = self.n
        self.edges = []  # (i, j, size, how)
        order = ctx.perm(range(N))
        for k in range(1, N):
            i, j = order[ctx.randint(0, k - 1)], order[k]
            if ctx.chance(0.4):
                i, j = j, i
            self.edges.append((i, j))
        pairs = [(i, j) for i in range(N) for j in range(N) if i != j and (i, j) not in self.edges]
        for i, j in ctx.sample(pairs, min(len(pairs), ctx.choice([0, 0, 1]))):
            self.edges.append((i, j))
        if self.cyclic and (self.edges[0][1], self.edges[0][0]) not in self.edges:
            self.edges.append((self.edges[0][1], self.edges[0][0]))
        self.edges = ctx.perm(self.edges)
        self.size = {e: ctx.choice([1, 1, 2]) if vector else 1 for e in self.edges}
        self.split = {e: ctx.chance(0.5) for e in self.edges}
        mix = ctx.chance(0.5)
        self.nodes = []
        for k in range(N):
            outs = sum(self.size[e] for e in self.edges if e[0] == k)
            ins = sum(self.size[e] for e in self.edges if e[1] == k)
            self.nodes.append(dict(
                a=rnd(-1, 0.3), b=rnd(0.6, 1.4), g=[rnd(-0.8, 0.8) for _ in range(ins)], d=rnd(-0.5, 0.5), x0=rnd(-1, 1), n_out=outs, n_in=ins,
                c=[rnd(0.3, 1) * ctx.choice([-1, 1]) for _ in range(outs)], e=[rnd(-0.4, 0.4) for _ in range(outs)], k=[rnd(-0.5, 0.5) for _ in range(outs)],
                q=rnd(0.5, 2), xr=rnd(-1, 1), rw=rnd(0.5, 1.5), ru=[rnd(0.1, 0.6) for _ in range(ins)], ur=[rnd(-0.5, 0.5) for _ in range(ins)],
                sy=[rnd(0.05, 0.4) for _ in range(outs)], tv=rnd(0, 0.5), guess=ctx.chance(0.3), yg=[rnd(-1, 1) for _ in range(outs)],
                ug=[rnd(-1, 1) for _ in range(ins + 1)], pi=ctx.perm(range(ins)) if mix else list(range(ins)),
                po=ctx.perm(range(outs)) if mix else list(range(outs)), sc=[rnd(0.7, 1.5) * ctx.choice([-1, 1]) for _ in range(outs)]))

    def build(self, intermediary=False):
        net = Network(name="net")
        self.obj, self.ins, self.outs = [], [], []
        for k, d in enumerate(self.nodes):
            m = SystemModel(name="node%d" % k)
            x = m.create_state("n%d_x" % k)
            us = [m.create_control("n%d_u%d" % (k, i)) for i in range(d["n_in"])]
            w = m.create_control("n%d_w" % k)
            ys = [m.create_algebraic_variable("n%d_y%d" % (k, i)) for i in range(d["n_out"])]
            m.include_equations(ode=self.ode(k, x, us, w))
            if ys:
                m.include_equations(alg=ca.vertcat(*self.alg(k, x, us, w, ys)))
            pr = OptimalControlProblem(m, t_0=self.t0, t_f=self.tf, x_0=dm([d["x0"]]), name="ocp%d" % k)
            pr.L = self.L(k, m.t, x, us, w, ys)
            if d["guess"] and ys:
                if ys:
                    pr.y_guess = dm(d["yg"])
                pr.u_guess = dm(d["ug"])
            node = net.create_node(name="node%d" % k, problem=pr)
            self.obj.append(node)
            self.ins.append(us)
            self.outs.append(ys)
        ni, no = [0] * self.n, [0] * self.n
        self.wires = []  # (i, output number, j, input number)
        for e in self.edges:
            i, j = e
            s = self.size[e]
            # the variables of a connection need not be declared in the order in which they are connected
            po, pi = self.nodes[i]["po"][no[i]:no[i] + s], self.nodes[j]["pi"][ni[j]:ni[j] + s]
            ys, us = [self.outs[i][q] for q in po], [self.ins[j][q] for q in pi]
            if self.split[e]:
                for a, b in zip(ys, us):
                    net.connect(a, b, self.obj[i], self.obj[j])
            else:
                net.connect(ca.vertcat(*ys), ca.vertcat(*us), self.obj[i], self.obj[j])
            self.wires += [(i, a, j, b) for a, b in zip(po, pi)]
            no[i] += s
            ni[j] += s
        if intermediary:
            net.insert_intermediary_nodes()
        return net

    def ode(self, k, x, us, w):
        d = self.nodes[k]
        return d["a"] * x + d["b"] * w + sum(g * u for g, u in zip(d["g"], us)) + d["d"]

    def alg(self, k, x, us, w, ys):
        d = self.nodes[k]
        return [s * (y - (c * x + e * w + q)) for s, y, c, e, q in zip(d["sc"], ys, d["c"], d["e"], d["k"])]

    def L(self, k, t, x, us, w, ys):
        d = self.nodes[k]
        return (d["q"] * (1 + d["tv"] * t) * (x - d["xr"]) ** 2 + d["rw"] * w ** 2 + sum(r * (u - z) ** 2 for r, u, z in zip(d["ru"], us, d["ur"]))
                + sum(s * y ** 2 for s, y in zip(d["sy"], ys)))

    def describe(self):
        return dict(n=self.n, edges=self.edges, sizes=[self.size[e] for e in self.edges], fe=self.fe, deg=self.deg, t=(self.t0, self.tf))


def options(nt, **kw):
    o = dict(degree=nt.deg, finite_elements=nt.fe)
    o.update(kw)
    return o


def method_options(nt):
    return dict(discretization_scheme="collocation", degree_control=nt.deg, nlpsol_opts={})


def values(res, name):
    """fe x deg values of a variable in a node's result."""
    for names, data, off in ((list(res.x_names), res.x_data, 1), (list(res.y_names), res.y_data, 0), (list(res.u_names), res.u_data, 0)):
        if name in names and data["values"]:
            i = names.index(name)
            return np.array([[v(q)[i] for q in el[off:]] for el in data["values"][: res.finite_elements]])
    raise AssertionError(name)




def block_of(meth, node):
    return next(b for b, nodes in meth.blocks.items() if node in nodes)


class End:
    """One relaxed copy of a connection: at the receiving node (u - y) or at the sending node (u - y as well)."""

    def __init__(self, wire, at, role, mu):
        self.wire, self.at, self.role = wire, at, role
        self.nu, self.mu, self.err = 0.0, mu, None


class Shadow:
    """Replays the distributed iteration from what the nodes answered."""

    def __init__(self, ctx, nt, net, meth, o, admm=False):
        self.ctx, self.nt, self.o, self.admm = ctx, nt, o, admm
        self.meth = meth
        self.key = {}
        names = {}
        for k, node in enumerate(nt.obj):
            self.key[node] = k
        # wires of the real network, in terms of variable names: (node, output name, node, input name)
        self.wires = []
        for (a, b), c in net.graph.edges.items():
            ys, us = c["y"], c["u"]
            self.wires += [(a, ys[q].name(), b, us[q].name()) for q in range(us.numel())]
        mu0 = o["al"]["mu_0"]
        self.ends = {n: [] for n in net.nodes}
        for w in self.wires:
            self.ends[w[2]].append(End(w, w[2], "in", mu0))
            self.ends[w[0]].append(End(w, w[0], "out", mu0))
        self.latest = {}
        self.trace = []  # ("solve", node) / ("update", node)
        self.costs = []  # cost of every solve of the trace, None for a failed one
        self.prev_in = {}
        self.b = self._weights()

    def _weights(self):
        d = self.nt.deg
        tau = np.array(ca.collocation_points(d, "radau"))
        return np.linalg.solve(np.vander(tau, d, increasing=True).T, np.array([1.0 / (k + 1) for k in range(d)]))

    def value(self, node, name):
        if node in self.latest:
            return values(self.latest[node], name)
        g = np.zeros((self.nt.fe, self.nt.deg))
        k = self.key.get(node)
        if k is not None and self.nt.nodes[k]["guess"] and self.nt.nodes[k]["n_out"]:
            kind, i = name.split("_")[1][0], int(name.split("_")[1][1:])
            g = g + self.nt.nodes[k]["yg" if kind == "y" else "ug"][i]
        return g

    def residual(self, end, res):
        """fe x deg residual of one relaxed copy, for the answer `res` of the node it belongs to."""
        a, yn, b, un = end.wire
        if end.role == "in":
            other = self.value(a, yn)
            own = values(res, un)
            if self.admm:
                other = (other + self.value(b, un)) / 2
            return own - other
        other = self.value(b, un)
        own = values(res, yn)
        if self.admm:
            other = (other + self.value(a, yn)) / 2
        return other - own

    def on_solve(self, node, res):
        ctx, nt = self.ctx, self.nt
        self.trace.append(("solve", node))
        self.costs.append(float(res.objective_opt_problem) if res.success else None)
        if not res.success:
            return
        ctx.event("node-solves")
        R = [self.residual(e, res) for e in self.ends[node]]
        k = self.key.get(node)
        if k is None:  # intermediary node: closed form of the two relaxed ends
            ei = next(e for e in self.ends[node] if e.role == "in")
            eo = next(e for e in self.ends[node] if e.role == "out")
            y, u = self.value(ei.wire[0], ei.wire[1]), self.value(eo.wire[2], eo.wire[3])
            want = (eo.nu - ei.nu) / (2 * ei.mu) + (y + u) / 2
            ctx.close(values(res, ei.wire[3]), want, "intermediary", "answer of an intermediary node", rtol=1e-8, atol=1e-9)
            ctx.close(values(res, eo.wire[1]), want, "intermediary", "output of an intermediary node", rtol=1e-8, atol=1e-9)
        else:
            dt = (nt.tf - nt.t0) / nt.fe
            tau = np.array(ca.collocation_points(nt.deg, "radau"))
            t = nt.t0 + dt * (np.arange(nt.fe)[:, None] + tau[None, :])
            d = nt.nodes[k]
            x, w = values(res, "n%d_x" % k), values(res, "n%d_w" % k)
            us = [values(res, "n%d_u%d" % (k, i)) for i in range(d["n_in"])]
            ys = [values(res, "n%d_y%d" % (k, i)) for i in range(d["n_out"])]
            own = nt.L(k, t, x, us, w, ys)
            aug = own + sum(e.nu * r + 0.5 * e.mu * r ** 2 for e, r in zip(self.ends[node], R))
            want = float(np.sum(dt * aug * self.b[None, :]))
            ctx.close(float(res.objective_opt_problem), want, "node-cost", "cost minimised by node %d (own cost, multipliers and penalties against the neighbours' latest answers)" % k,
                      rtol=1e-6, atol=1e-7)
            for i, a in enumerate(nt.alg(k, x, us, w, ys)):
                ctx.close(a, np.zeros_like(a), "node-model", "algebraic equation of node %d" % k, atol=1e-6)

    def accept(self, node, res):
        if res.success:
            self.latest[node] = res

    def on_update(self, node, err):
        """Multipliers and penalties of one node."""
        self.trace.append(("update", node))
        ctx, al = self.ctx, self.o["al"]
        R = [self.residual(e, self.latest[node]) for e in self.ends[node]]
        now = np.array([np.abs(r).max() for r in R])
        ctx.event("updates")
        ctx.close(np.sort(v(err)), np.sort(now), "error", "violation reported by a node", rtol=1e-7, atol=1e-9)
        keep = al.get("only_update_if_improve", False) and (now > 0).any()
        for e, r, q in zip(self.ends[node], R, now):
            if keep and e.err is not None:
                if abs(q - e.err) < 1e-9:
                    ctx.skip("two errors too close to tell which is larger")
                ctx.event("improved" if q < e.err else "not-improved")
            if not (keep and e.err is not None and q >= e.err):
                e.nu = e.nu + e.mu * r
            rule = al["mu_update_rule"]
            if rule == "bounded-increase":
                e.mu = min(al["mu_max"], e.mu * al["beta"])
            elif rule == "primal" and e.err is not None:
                if abs(q - al["mu_min_error_decrease"] * e.err) < 1e-9:
                    ctx.skip("decrease too close to the threshold")
                if not q <= al["mu_min_error_decrease"] * e.err:
                    e.mu = min(al["mu_max"], e.mu * al["beta"])
            e.err = q
        return now.max()


def watch(meth, sh):
    """Wrap the nodes' own methods once they exist."""
    init = meth.initialize

    def initialize():
        init()
        for node in sh.ends:
            wrap(node, node.solution_method)

    def wrap(node, sm):
        solve, update, pd = sm.solve, sm.update_parameters, sm.compute_primal_dual

        def s(*a, **k):
            res = solve(*a, **k)
            if sh.fail is not None and sh.fail(node):
                res.success = False
                sh.ctx.event("injected-failures")
            sh.on_solve(node, res)
            sh.pending.append((node, res))
            return res

        def u(*a, **k):
            sh.flush()
            err = update(*a, **k)
            sh.round_errors.append(sh.on_update(node, err))
            return err

        def p(*a, **k):
            sh.flush()
            out = pd(*a, **k)
            sh.round_errors.append(sh.on_update(node, out["error"]))
            sh.round_pd.append((node, out))
            return out

        sm.solve, sm.update_parameters, sm.compute_primal_dual = s, u, p

    meth.initialize = initialize


class Replay(Shadow):
    """Serial and distributed bookkeeping on top of the node rules."""

    def __init__(self, *a, distributed=False, fail=None, **k):
        super().__init__(*a, **k)
        self.distributed, self.fail = distributed, fail
        self.pending, self.round_errors, self.round_pd = [], [], []
        self.rounds = []

    def on_solve(self, node, res):
        if self.round_errors:
            self.end_round()
        if self.distributed:
            # messages of one block are handled in any order; the answers become visible when the block is over
            mine = block_of(self.meth, node)
            if self.pending and block_of(self.meth, self.pending[-1][0]) != mine:
                self.flush()
        else:
            self.flush()
        super().on_solve(node, res)

    def flush(self):
        for node, res in self.pending:
            self.accept(node, res)
        self.pending = []

    def end_round(self):
        """All nodes were updated: the rules that need the whole network."""
        al = self.o["al"]
        self.rounds.append(list(self.round_errors))
        ends = [e for n in self.ends for e in self.ends[n]]
        if al["mu_update_rule"] == "primal-dual":
            r = max(self.round_errors)
            s = -np.inf
            for n in self.ends:
                for e in self.ends[n]:
                    if e.role == "in":
                        cur = self.value(e.wire[0], e.wire[1])
                        if e in self.prev_in and block_of(self.meth, e.wire[0]) >= block_of(self.meth, n):
                            s = max(s, np.abs(cur - self.prev_in[e]).max())
                        self.prev_in[e] = cur
            g = al["gamma"]
            if min(abs(r - g * s), abs(s - g * r)) < 1e-9:
                self.ctx.skip("residuals too close to tell")
            f = al["beta"] if r > g * s else (1.0 / al["beta_decrease"] if s > g * r else 1.0)
            for e in ends:
                e.mu *= f
            self.ctx.event("mu-up" if f > 1 else "mu-down" if f < 1 else "mu-same")
        elif self.distributed:
            top = max(e.mu for e in ends)
            for e in ends:
                e.mu = top
        self.round_errors, self.round_pd = [], []


def setup(ctx, admm=False, rules=("constant", "bounded-increase", "primal", "primal-dual"), inter=None, distributed=False, faults=False, **over):
    nt = Net(ctx, vector=not inter)
    net = nt.build(intermediary=bool(inter))
    al = dict(mu_0=ctx.choice([1.0, 2.0, 3.0]), mu_max=ctx.choice([10.0, 100.0]), beta=ctx.choice([1.5, 2.0]), beta_decrease=ctx.choice([1.5, 2.0]), gamma=ctx.choice([1.2, 3.0]),
              mu_min_error_decrease=ctx.choice([0.3, 0.6]), mu_update_rule=ctx.choice(list(rules)))
    o = dict(max_iter_outer=ctx.randint(1, 6), max_iter_inner=ctx.randint(1, 3), max_iter_inner_first=ctx.choice([None, 1, 5]), abs_tol=ctx.choice([1e-7, 1e-2, 0.2]),
             inner_loop_tol=ctx.choice([1e-4, 1e-2]), block_choice_method=ctx.choice(["cyclic", "cyclic", "sample", "choices"]) if not distributed else "cyclic", distributed=distributed)
    o.update(over)
    if ctx.chance(0.25):
        al["only_update_if_improve"] = True
    if o["block_choice_method"] == "choices" and al["mu_update_rule"] == "primal-dual":
        al["mu_update_rule"] = "constant"  # a node that was not drawn yet has no residual
    random.seed(ctx.randint(0, 10 ** 6))
    blocks = None
    if not distributed and ctx.chance(0.3):
        nodes = ctx.perm(list(net.nodes))
        nb = ctx.randint(1, len(nodes))
        blocks = {}
        for q, n in enumerate(nodes):
            blocks.setdefault(q if q < nb else ctx.randint(0, nb - 1), []).append(n)
    ctx.note(nt.describe(), o, al, "blocks", None if blocks is None else [[n.name for n in b] for b in blocks.values()], "intermediary", bool(inter))
    cls = BipartiteJacobiADMM if admm else DistributedAugmentedLagrangian
    kw = {} if blocks is None else {"blocks": blocks}
    meth = cls(net, DirectMethod, method_options(nt), options=options(nt, al_options=dict(al), **o), **kw)
    remote.reset(ctx.rng if distributed else None)
    fail = None
    if faults and al["mu_update_rule"] != "primal-dual":
        rate = ctx.choice([0.1, 0.3])
        fail = lambda node: bool(sh.trace) and bool(ctx.rng.random() < rate)  # (the first solve succeeds)
    sh = Replay(ctx, nt, net, meth, dict(o, al=al), admm=admm, distributed=distributed, fail=fail)
    watch(meth, sh)
    return nt, net, meth, sh


def blocks_are_sound(ctx, net, meth):
    allb = [n for b in meth.blocks.values() for n in b]
    ctx.eq(sorted(n.name for n in allb), sorted(n.name for n in net.nodes), "blocks", "every node is in exactly one block")


def passes_are_needed(ctx, o, k, solves, n, limit, costs, current):
    """The passes of one outer iteration end when the cost of the network no longer decreases (or at the limit)."""
    last, total = None, len(solves) // n
    for q in range(total):
        for node in solves[q * n:(q + 1) * n]:
            c = next(costs)
            if c is not None:
                current[node] = c
        now = sum(current.values())
        if last is None:
            ctx.check(total > 1 or limit == 1, "inner", lambda: "outer iteration %d ends after one pass of %d, before there is a decrease to judge" % (k, limit))
        elif last > 0 and abs(now - (1 - o["inner_loop_tol"]) * last) > 1e-7 * last:
            more = now < (1 - o["inner_loop_tol"]) * last
            ctx.check((q < total - 1) == (more and q < limit - 1), "inner",
                      lambda: "outer iteration %d: the cost went from %g to %g in pass %d, tolerance %g, limit %d, passes made %d" % (k, last, now, q, o["inner_loop_tol"], limit, total))
            ctx.event("passes-ended-by-the-decrease", int(not more and q < limit - 1))
        last = now


def order_is_sound(ctx, meth, sh, o, faulty):
    """Blocks one after the other, every node once, updates after the inner iterations."""
    rounds, cur = [], []
    for what, node in sh.trace:
        if what == "solve" and cur and cur[-1][0] == "update":
            rounds.append(cur)
            cur = []
        cur.append((what, node))
    rounds.append(cur)
    n = sum(len(b) for b in meth.blocks.values())
    costs, current = iter(sh.costs), {}
    for k, rd in enumerate(rounds):
        solves = [x for w, x in rd if w == "solve"]
        ups = [x for w, x in rd if w == "update"]
        ctx.check([w for w, _ in rd] == ["solve"] * len(solves) + ["update"] * len(ups), "order", "updates before the inner iterations ended")
        limit = max(o["max_iter_inner"], o["max_iter_inner_first"]) if k == 0 and o["max_iter_inner_first"] is not None else o["max_iter_inner"]
        if o["block_choice_method"] != "choices":
            ctx.eq(len(solves) % n, 0, "order", "whole passes over the network (%d solves, %d nodes)" % (len(solves), n))
            ctx.check(1 <= len(solves) // n <= limit, "inner", lambda: "%d inner iterations, limit %d" % (len(solves) // n, limit))
            passes_are_needed(ctx, o, k, solves, n, limit, costs, current)
            for q in range(len(solves) // n):
                part = solves[q * n:(q + 1) * n]
                ctx.eq(sorted(x.name for x in part), sorted(x.name for b in meth.blocks.values() for x in b), "order", "every node is solved once per pass")
                nums = [block_of(meth, x) for x in part]
                runs = [a for i, a in enumerate(nums) if i == 0 or nums[i - 1] != a]
                ctx.eq(len(runs), len(set(runs)), "order", "blocks are solved one after the other: %s" % nums)
                if o["block_choice_method"] == "cyclic":
                    ctx.eq(runs, [b for b, ns in meth.blocks.items() if ns], "order", "cyclic order of the blocks")
        if not faulty and o["block_choice_method"] != "choices":
            ctx.eq(sorted(x.name for x in ups), sorted(x.name for b in meth.blocks.values() for x in b), "order", "every node's multipliers are updated once")
    return rounds


def as_table(ctx, r):
    """The table of all results has, in every column, the values of that node's variable at its times."""
    df = r.as_dataframe()
    n = 0
    for res in r.results.values():
        for entry in ("x", "y", "u"):
            if entry not in res.dataset.data:
                continue
            t, val = res.dataset.get_entry(entry)
            for i, name in enumerate(res.dataset.get_entry_names(entry)):
                cols = [c for c in df.columns if c[1] == name and c[0].startswith(entry)]
                if len(cols) != 1:
                    continue  # (a variable of the same name in two nodes)
                col = df[cols[0]].dropna()
                got = {(round(float(a), 9), round(float(b), 9)) for a, b in zip(col.index, col.to_numpy())}
                want = {(round(float(a), 9), round(float(b), 9)) for a, b in zip(v(t), v(val[i, :]))}
                ctx.check(got == want, "table", lambda: "column %s: %s, expected %s" % (name, sorted(got - want)[:4], sorted(want - got)[:4]))
                n += 1
    ctx.check(n > 0, "table", "no column of the table matches a variable")
    ctx.event("table-columns", n)


def run_and_judge(ctx, nt, net, meth, sh, faulty=False):
    blocks_are_sound(ctx, net, meth)
    r = meth.solve()
    sh.flush()
    if sh.round_errors:
        sh.end_round()
    o = sh.o
    rounds = order_is_sound(ctx, meth, sh, o, faulty)
    ctx.eq(r.number_of_iterations["outer"] + 1, len(rounds), "iterations", "outer iterations reported")
    ctx.check(len(rounds) <= o["max_iter_outer"], "iterations", "too many outer iterations")
    for k, errs in enumerate(sh.rounds):
        if abs(max(errs) - o["abs_tol"]) < 1e-9:
            ctx.skip("error too close to the tolerance")
        met = max(errs) < o["abs_tol"]
        ctx.check(met == (k == len(sh.rounds) - 1) or (k == len(sh.rounds) - 1 and len(sh.rounds) == o["max_iter_outer"]), "stop",
                  lambda: "outer iteration %d of %d: violation %g, tolerance %g" % (k, len(sh.rounds), max(errs), o["abs_tol"]))
    ctx.eq({n.name for n in r.results}, {n.name for n in sh.latest}, "results", "nodes with a result")
    for n, res in r.results.items():
        ctx.check(res is sh.latest[n], "results", "the result of a node is its last successful answer")
    ctx.close(float(r.objective), float(sum(float(q.objective_opt_problem) for q in sh.latest.values())), "objective", "objective of the network", rtol=1e-9, atol=1e-9)
    if not sh.distributed or ctx.chance():
        as_table(ctx, r)
    viol = np.nanmax(r.constraint_violations.to_numpy())
    ctx.close(viol, max(sh.rounds[-1]), "error", "violation reported for the network", rtol=1e-7, atol=1e-9)
    ctx.event("networks")
    return r


@scenario("C20", quick=90, thorough=600, timeout=120)
def replayed(ctx):
    """Every node solve and update, replayed (in process)."""
    faulty = ctx.chance(0.25)
    nt, net, meth, sh = setup(ctx, faults=faulty)
    run_and_judge(ctx, nt, net, meth, sh, faulty)


@scenario("C20", quick=60, thorough=400, timeout=120)
def replayed_remote(ctx):
    """The same through remote nodes, messages interleaved at random."""
    faulty = ctx.chance(0.25)
    nt, net, meth, sh = setup(ctx, distributed=True, faults=faulty)
    run_and_judge(ctx, nt, net, meth, sh, faulty)
    for a, b in net.graph.edges:
        ctx.check(block_of(meth, a) != block_of(meth, b), "blocks", "connected nodes are solved at the same time")
    ctx.check(all(not a.alive for a in remote.ACTORS), "terminated", "the remote nodes are terminated at the end")
    ctx.event("interleavings", 1)
    ctx.event("messages", len(remote.LOG))


@scenario("C20", quick=40, thorough=250, timeout=120)
def replayed_intermediary(ctx):
    """Networks with intermediary nodes."""
    nt, net, meth, sh = setup(ctx, inter=True, rules=("constant", "bounded-increase", "primal-dual"), distributed=ctx.chance(0.3))
    run_and_judge(ctx, nt, net, meth, sh)


@scenario("C20", quick=50, thorough=300, timeout=120)
def replayed_admm(ctx):
    """The Jacobi ADMM variant."""
    nt, net, meth, sh = setup(ctx, admm=True, rules=("constant", "bounded-increase", "primal"), distributed=ctx.chance(0.3))
    run_and_judge(ctx, nt, net, meth, sh)


@scenario("C20", quick=60, thorough=400, timeout=120)
def converges_to_the_centralized_solution(ctx):
    """When the couplings are met, the network's answer is that of the centralized problem."""
    kind = ctx.turn(["al", "al", "intermediary", "admm", "remote", "sample"])
    nt = Net(ctx, vector=kind != "intermediary")
    ctx.note(kind, nt.describe())
    ref = DirectMethod(nt.build().get_problem(), degree=nt.deg, finite_elements=nt.fe, **method_options(nt)).solve()
    net = nt.build(intermediary=kind == "intermediary")
    remote.reset(ctx.rng)
    random.seed(ctx.randint(0, 10 ** 6))
    cls = BipartiteJacobiADMM if kind == "admm" else DistributedAugmentedLagrangian
    meth = cls(net, DirectMethod, method_options(nt), options=options(nt, max_iter_outer=400, max_iter_inner=1 if kind == "admm" else 4, abs_tol=1e-6, inner_loop_tol=1e-9,
               distributed=kind == "remote", block_choice_method="sample" if kind == "sample" else "cyclic", al_options=dict(mu_0=2.0, mu_update_rule="constant")))
    r = meth.solve()
    ctx.event("converged-" + kind)
    ctx.event("outer-iterations", r.number_of_iterations["outer"] + 1)
    viol = np.nanmax(r.constraint_violations.to_numpy())
    ctx.check(viol < 1e-6, "converges", lambda: "violation %g after %s" % (viol, r.number_of_iterations))
    if not ref.success:
        ctx.skip("reference not solved")
    for k, node in enumerate(nt.obj):
        res = r.results[node]
        d = nt.nodes[k]
        for name in ["n%d_x" % k, "n%d_w" % k] + ["n%d_u%d" % (k, i) for i in range(d["n_in"])] + ["n%d_y%d" % (k, i) for i in range(d["n_out"])]:
            ctx.close(values(res, name), values(ref, name), "solution", name, rtol=1e-3, atol=1e-3)
    ctx.close(float(r.objective), float(ref.objective_opt_problem), "objective", "objective of the network", rtol=1e-3, atol=1e-3)


@scenario("C20", quick=24, thorough=100)
def refusals(ctx):
    """Options that mean nothing are refused, not ignored."""
    nt = Net(ctx)
    net = nt.build()
    what = ctx.turn(["block_choice_method", "mu_update_rule", "missing node"])
    ctx.note(what)
    kw, o = {}, dict(max_iter_outer=2, max_iter_inner=1)
    if what == "block_choice_method":
        o[what] = "alphabetical"
    elif what == "mu_update_rule":
        o["al_options"] = {what: "sometimes"}
    else:
        kw["blocks"] = {0: list(net.nodes)[:-1]}
    with ctx.raises("refused", what):
        DistributedAugmentedLagrangian(net, DirectMethod, method_options(nt), options=options(nt, **o), **kw).solve()
    ctx.event("refused")
