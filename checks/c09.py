import casadi as ca
import numpy as np

from vfw import expr as ex
from vfw.core import scenario
from vfw.env import dm
from vfw.freeze import Frozen
from yaocptool.optimization import NonlinearOptimizationProblem, QuadraticOptimizationProblem

RULE = (
    "Random sequences of variable, parameter, objective and constraint declarations in every accepted form (including rejected "
    "ones); after each, the violations of all declared constraints at random points are compared with those of the problem "
    "that would be given to the solver, as are bounds, dimensions and objective."
)
ASSUMPTIONS = ["CasADi evaluates expressions correctly"]


class Builder:
    def __init__(self, ctx, cls):
        self.ctx = ctx
        self.pb = cls(name="nlp")
        self.elem, self.names = {}, {}
        self.x, self.p = [], []  # keys
        self.blocks_x, self.blocks_p = [], []  # (symbol, keys)
        self.lb, self.ub = [], []
        self.rows = []  # (tree, lb, ub)
        self.obj = None
        self.n = 0

    def _sym(self, sym, which):
        ks = []
        for i in range(sym.numel()):
            self.elem[self.n] = sym[i] if sym.numel() > 1 else sym
            self.names[self.n] = "%s%d" % (which, self.n)
            ks.append(self.n)
            self.n += 1
        (self.blocks_x if which == "x" else self.blocks_p).append((sym, ks))
        return ks

    def bounds(self, n, allow_scalar=True):
        """a bound pair as argument forms and as numbers"""
        ctx = self.ctx
        form = ctx.randint(0, 4 if allow_scalar else 2)
        lo = ctx.rng.uniform(-3, 0.5, n)
        hi = lo + ctx.rng.uniform(0, 3, n)
        kw = {}
        use_lo, use_hi = ctx.chance(0.7), ctx.chance(0.7)
        if ctx.chance(0.15):
            lo = np.round(lo)
            hi = lo + 1
        if form >= 3:
            lo, hi = np.full(n, lo[0]), np.full(n, hi[0])
            conv = (lambda v: float(v[0])) if form == 3 else (lambda v: int(round(v[0])))
            if form == 4:
                lo, hi = np.round(lo), np.round(lo) + ctx.randint(0, 2)
        else:
            conv = dm
            if ctx.chance(0.3):
                lo[ctx.randint(0, n - 1)] = -np.inf
                hi[ctx.randint(0, n - 1)] = np.inf
        if use_lo:
            kw["lb"] = conv(lo)
        else:
            lo = np.full(n, -np.inf)
        if use_hi:
            kw["ub"] = conv(hi)
        else:
            hi = np.full(n, np.inf)
        return kw, lo, hi

    def variable(self):
        ctx = self.ctx
        n = ctx.choice([1, 1, 2, 2, 3, 3, 4, 6])
        kw, lo, hi = self.bounds(n)
        fr = Frozen(ctx, **kw)
        if ctx.chance():
            v = self.pb.create_variable("v%d" % self.n, n, **kw)
        else:
            v = ca.MX.sym("v%d" % self.n, n)
            self.pb.include_variable(v, **kw)
        fr.verify("include_variable")
        ctx.note("variable", n, {k: str(q) for k, q in kw.items()})
        self.x += self._sym(v, "x")
        self.lb += list(lo)
        self.ub += list(hi)

    def parameter(self):
        n = self.ctx.randint(1, 2)
        v = self.pb.create_parameter("p%d" % self.n, n) if self.ctx.chance() else ca.MX.sym("p%d" % self.n, n)
        if self.pb.p.numel() != len(self.p) + n:
            self.pb.include_parameter(v)
        self.ctx.note("parameter", n)
        self.p += self._sym(v, "p")

    def trees(self, n, params=True):
        ctx = self.ctx
        out = []
        for _ in range(n):
            if params and self.p and ctx.chance(0.15):
                # a condition on the parameters alone
                out.append(("+", ("*", ("c", round(ctx.uniform(0.5, 2), 3)), ("v", ctx.choice(self.p))), ex.gen(ctx, self.p, 1)))
                continue
            k = ctx.choice(self.x)
            # always depends on a variable
            out.append(("+", ("*", ("c", round(ctx.uniform(0.5, 2), 3)), ("v", k)), ex.gen(ctx, self.x + self.p, 2)))
        return out

    def mx(self, t):
        op = t[0]
        if op == "v":
            return self.elem[t[1]]
        if op == "c":
            return ca.MX(t[1])
        if op in "+-*":
            a, b = self.mx(t[1]), self.mx(t[2])
            return a + b if op == "+" else a - b if op == "-" else a * b
        return ex.UN[op][0](self.mx(t[1]))

    def objective(self):
        ctx = self.ctx
        if ctx.chance(0.15):
            c = ctx.choice([1, 2.5])
            self.pb.set_objective(c)
            self.obj = ("c", float(c))
            return
        t = self.trees(1, False)[0]
        e = self.mx(t)
        self.pb.set_objective([e] if ctx.chance(0.3) else e)
        self.obj = t
        ctx.note("objective", ex.show(t, self.names))

    def inequality(self):
        ctx = self.ctx
        n = ctx.choice([1, 1, 2, 2, 3, 3, 4, 6])
        ts = self.trees(n)
        kw, lo, hi = self.bounds(n)
        if ctx.chance(0.2) and n > 1 and "lb" in kw and not isinstance(kw["lb"], (int, float)):
            kw["lb"] = lo.tolist()
        fr = Frozen(ctx, **kw)
        self.pb.include_inequality(ca.vertcat(*[self.mx(t) for t in ts]), **kw)
        fr.verify("include_inequality")
        ctx.note("inequality", [ex.show(t, self.names) for t in ts], {k: str(q) for k, q in kw.items()})
        self.rows += list(zip(ts, lo, hi))

    def equality(self):
        ctx = self.ctx
        n = ctx.choice([1, 1, 2, 2, 3, 3, 4, 6])
        ts = self.trees(n)
        form = ctx.randint(0, 3)
        e = ca.vertcat(*[self.mx(t) for t in ts])
        if form == 0:
            self.pb.include_equality(e)
            r = np.zeros(n)
        elif form == 1:
            r = np.full(n, round(ctx.uniform(-1, 1), 3))
            self.pb.include_equality(e, float(r[0]))
        elif form == 2:
            r = np.full(n, float(ctx.randint(-2, 2)))
            self.pb.include_equality(e, int(r[0]))
        else:
            r = ctx.rng.uniform(-1, 1, n)
            self.pb.include_equality(e, dm(r))
        ctx.note("equality", [ex.show(t, self.names) for t in ts], r.tolist())
        self.rows += list(zip(ts, r, r))

    def constraint(self):
        """relations between an expression and constants"""
        ctx = self.ctx
        n = ctx.randint(1, 2)
        ts = self.trees(n)
        e = ca.vertcat(*[self.mx(t) for t in ts]) if n > 1 else self.mx(ts[0])
        c = ctx.rng.uniform(-1, 1, n)
        if ctx.chance(0.5):
            c = np.full(n, round(float(c[0]), 3))
            cc = float(c[0])
        else:
            cc = dm(c)
        inf = np.full(n, np.inf)
        form = ctx.randint(0, 8)
        rel, lo, hi = [
            (e <= cc, -inf, c),
            (e < cc, -inf, c),
            (e >= cc, c, inf),
            (e > cc, c, inf),
            (cc <= e, c, inf),
            (cc < e, c, inf),
            (cc >= e, -inf, c),
            (cc > e, -inf, c),
            (e == cc, c, c),
        ][form]
        ctx.note("constraint form", form, [ex.show(t, self.names) for t in ts], c.tolist())
        self.pb.include_constraint(rel)
        self.rows += list(zip(ts, lo, hi))

    def rejected(self):
        ctx = self.ctx
        pb = self.pb
        x0 = self.elem[self.x[0]]
        cases = [
            ("crossed bounds", lambda: pb.include_inequality(x0 * 2, lb=1.0, ub=0.0)),
            ("crossed vector bounds", lambda: pb.include_inequality(ca.vertcat(x0, x0), lb=dm([0, 1]), ub=dm([1, 0.5]))),
            ("crossed variable bounds", lambda: pb.create_variable("q", 2, lb=2.0, ub=1.0)),
            ("wrong size of lb", lambda: pb.include_inequality(ca.vertcat(x0, x0, x0), lb=dm([0, 1]))),
            ("wrong size of ub", lambda: pb.include_inequality(ca.vertcat(x0, x0, x0), ub=dm([0, 1]))),
            ("wrong size of rhs", lambda: pb.include_equality(ca.vertcat(x0, x0, x0), dm([0, 1]))),
            ("wrong size of variable bounds", lambda: pb.include_variable(ca.MX.sym("q", 3), lb=dm([0, 1]))),
            ("symbolic bound", lambda: pb.include_inequality(x0, ub=x0)),
            ("symbolic right-hand side", lambda: pb.include_equality(x0, x0)),
            ("both sides symbolic", lambda: pb.include_constraint(x0 <= 2 * x0)),
            ("not a relation", lambda: pb.include_constraint(x0 + 1)),
            ("vector objective", lambda: pb.set_objective(ca.vertcat(x0, x0))),
            ("matrix constraint", lambda: pb.include_equality(ca.horzcat(x0, x0))),
            ("matrix inequality", lambda: pb.include_inequality(ca.horzcat(x0, x0), ub=1.0)),
        ]
        n = ctx.randint(1, 3)
        at = ctx.randint(0, n - 1)
        ones = ca.MX(dm(np.ones(n)))
        far = ca.MX(dm(1e3 * np.ones(n)))

        def with_symbol(e):
            return ca.vertcat(*[(e if ctx.chance() else 2 * e + 1) if i == at else ca.MX(0.5) for i in range(n)])

        lo, hi = np.zeros(n), np.ones(n)
        lo[at] = 1.0 + ctx.choice([1e-9, 1e-6, 1e-3, 0.25, 100.0])
        big = ctx.choice([2, 4, 6])
        few = ctx.choice([k for k in range(2, big + 3) if k != big])
        long = x0 * ca.MX(dm(np.ones(big)))
        vec_x = x0 * ones
        cases += [
            ("one crossed bound of a variable", lambda: pb.include_variable(ca.MX.sym("q", n), lb=dm(lo), ub=dm(hi))),
            ("one crossed bound of a created variable", lambda: pb.create_variable("q", n, lb=dm(lo), ub=dm(hi))),
            ("one crossed bound of an inequality", lambda: pb.include_inequality(vec_x, lb=dm(lo), ub=dm(hi))),
            ("lower bound with a variable", lambda: pb.include_inequality(vec_x, lb=with_symbol(x0))),
            ("upper bound with a variable", lambda: pb.include_inequality(vec_x, ub=with_symbol(x0))),
            ("both bounds, one with a variable", lambda: pb.include_inequality(vec_x, lb=-far, ub=with_symbol(x0))),
            ("right-hand side with a variable", lambda: pb.include_equality(vec_x, with_symbol(x0))),
            ("too many lower bounds of a variable", lambda: pb.include_variable(ca.MX.sym("q", n), lb=dm(-np.ones(n + 1)))),
            ("too many upper bounds of a variable", lambda: pb.include_variable(ca.MX.sym("q", n), ub=dm(np.ones(n + 1)))),
            ("too many lower bounds", lambda: pb.include_inequality(vec_x, lb=dm(-np.ones(n + 1)))),
            ("too many upper bounds", lambda: pb.include_inequality(vec_x, ub=dm(np.ones(n + 1)))),
            ("%d right-hand sides of %d" % (few, big), lambda: pb.include_equality(long, dm(np.ones(few)))),
            ("%d lower bounds of %d" % (few, big), lambda: pb.include_inequality(long, lb=dm(np.ones(few)))),
            ("%d upper bounds of %d" % (few, big), lambda: pb.include_inequality(long, ub=dm(np.ones(few)))),
            ("%d lower bounds of a variable of %d" % (few, big), lambda: pb.include_variable(ca.MX.sym("q", big), lb=dm(np.ones(few)))),
            ("%d upper bounds of a variable of %d" % (few, big), lambda: pb.create_variable("q", big, ub=dm(np.ones(few)))),
            ("too many right-hand sides", lambda: pb.include_equality(vec_x, dm(np.ones(n + 1)))),
        ]
        if self.p:
            p0 = self.elem[ctx.choice(self.p)]
            cases += 2 * [
                ("lower bound depending on a parameter", lambda: pb.include_variable(ca.MX.sym("q", n), lb=with_symbol(p0))),
                ("upper bound depending on a parameter", lambda: pb.include_variable(ca.MX.sym("q", n), ub=with_symbol(p0))),
                ("inequality, upper bound depending on a parameter", lambda: pb.include_inequality(vec_x, ub=with_symbol(p0))),
                ("inequality, lower bound depending on a parameter", lambda: pb.include_inequality(vec_x, lb=with_symbol(p0))),
                ("right-hand side depending on a parameter", lambda: pb.include_equality(vec_x, with_symbol(p0))),
            ]
        what, fn = ctx.choice(cases)
        ctx.note("rejected:", what)
        with ctx.raises("rejection", what):
            fn()

    def observe(self):
        ctx, pb = self.ctx, self.pb
        d = pb.get_problem_dict()
        call = pb.get_default_call_dict()
        nx, np_ = len(self.x), len(self.p)
        ctx.eq((d["x"].numel(), d["p"].numel()), (nx, np_), "dimensions", "variables and parameters")
        for q in ("lbx", "ubx"):
            if not ctx.eq(call[q].numel(), nx, "dimensions", q):
                return
        for q in ("lbg", "ubg"):
            if not ctx.eq(call[q].numel(), d["g"].numel(), "dimensions", q):
                return
        if not nx:
            return
        ctx.close(np.array(call["lbx"].full()).ravel(), self.lb, "variable-bounds", "lower")
        ctx.close(np.array(call["ubx"].full()).ravel(), self.ub, "variable-bounds", "upper")
        # express the problem's x through the declared symbols: symbolic variables may be blocks
        blocks = self.blocks_x + self.blocks_p
        F = ca.Function("o", [b for b, _ in blocks], [d["x"], d["p"], ca.MX(d["f"]), d["g"]])
        for _ in range(3):
            val = {k: ctx.uniform(-2, 2) for k in self.elem}
            out = F.call([dm([val[k] for k in ks]) for _, ks in blocks])
            xs, ps, f, g = [np.array(o.full()).ravel() for o in out]
            ctx.close(xs, [val[k] for k in self.x], "variable-order", "x")
            if np_:
                ctx.close(ps, [val[k] for k in self.p], "variable-order", "p")
            if self.obj is not None:
                ctx.close(f, [ex.num(self.obj, val)], "objective", "f", atol=1e-8)
            lo, hi = np.array(call["lbg"].full()).ravel(), np.array(call["ubg"].full()).ravel()
            # signed distances to the lower and to the upper limit of every constraint
            got = sorted(zip(np.round(g - lo, 7), np.round(hi - g, 7)))
            want = []
            for t, a, b in self.rows:
                v = ex.num(t, val)
                want.append((round(v - a, 7), round(b - v, 7)))
            want.sort()
            ok = len(got) == len(want) and all(
                np.isclose(q, w, atol=1e-5) or q == w for gg, ww in zip(got, want) for q, w in zip(gg, ww)
            )
            ctx.check(ok, "feasible-set", lambda: "distances to the limits %s, declared %s" % (got[:8], want[:8]))
        ctx.event("points", 3)


@scenario("C09", quick=600, thorough=2400)
def declarations(ctx):
    cls = ctx.choice([NonlinearOptimizationProblem, NonlinearOptimizationProblem, QuadraticOptimizationProblem])
    b = Builder(ctx, cls)
    b.variable()
    b.objective()
    ops = [b.variable, b.parameter, b.objective] + [b.inequality] * 3 + [b.equality] * 2 + [b.constraint] * 4 + [b.rejected] * 3
    for _ in range(10):
        ctx.choice(ops)()
        ctx.event("operations")
        b.observe()


@scenario("C09", quick=240, thorough=960)
def one_relation(ctx):
    """Each relation form alone."""
    b = Builder(ctx, NonlinearOptimizationProblem)
    b.variable()
    if ctx.chance():
        b.parameter()
    b.constraint()
    b.observe()
    b.rejected()
    b.observe()
    b.constraint()
    b.observe()


@scenario("C09", quick=120, thorough=480)
def problems_are_independent(ctx):
    a, b = Builder(ctx, NonlinearOptimizationProblem), Builder(ctx, NonlinearOptimizationProblem)
    a.variable(), b.variable()
    for _ in range(8):
        w = ctx.choice([a, b])
        ctx.choice([w.variable, w.parameter, w.objective, w.inequality, w.equality, w.constraint])()
        a.observe()
        b.observe()
    a.pb.solver_options["ipopt.max_iter"] = 7
    ctx.check(b.pb.solver_options.get("ipopt.max_iter") != 7, "independent", "solver options shared between problems")
    c = NonlinearOptimizationProblem(name="c")
    ctx.check(c.solver_options.get("ipopt.max_iter") != 7, "independent", "solver options leaked into the defaults")
