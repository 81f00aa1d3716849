"""Shadow of an optimal control problem: per-variable bounds, guesses, initial
values, optimization parameters, and cost/constraints as expression trees."""
import casadi as ca
import numpy as np

from vfw import expr as ex
from vfw.core import arr
from vfw.env import SX_sym, dm, same_symbols
from vfw.freeze import Frozen
from vfw.shadow import KINDS, Machine, observe
from yaocptool.modelling import OptimalControlProblem

INF = float("inf")
FUNS = ["h", "h_initial", "h_final", "g_eq", "g_ineq"]


def form(ctx, vals, scalar_ok=False):
    """The same numbers as a DM, a list or (equal numbers) a scalar."""
    vals = [float(v) for v in vals]
    if scalar_ok and len(set(vals)) == 1 and ctx.chance(0.5):
        return vals[0] if ctx.chance() else ca.DM(vals[0])
    return list(vals) if ctx.chance() else dm(vals)


class OCPMachine:
    def __init__(self, ctx, mc, name="prob", **kw):
        """mc: Machine of the source model, complete."""
        self.ctx, self.src, self.uni = ctx, mc, mc.uni
        s = mc.s
        self.x0 = {k: round(ctx.uniform(-1, 1), 3) for k in s.v["x"]}
        # (columns of -inf/inf until something else is declared)
        self.lo, self.hi = {}, {}
        self.dlo, self.dhi = {}, {}
        self.guess = {"y": None, "u": None}
        self.last_u = None
        self.popt, self.thopt = [], []
        self.plo, self.phi = {}, {}
        self.L, self.V, self.S = ("z",), ("z",), ("z",)
        self.f = {n: [] for n in FUNS}
        self.when = {"g_eq": [], "g_ineq": []}
        self.t0, self.tf = kw.get("t_0", 0.0), kw.get("t_f", 1.0)
        x0 = [self.x0[k] for k in s.v["x"]]
        self.pr = OptimalControlProblem(mc.m, name=name, x_0=form(ctx, x0) if x0 else None, **kw)
        self.mc = Machine.__new__(Machine)
        self.mc.ctx, self.mc.uni, self.mc.m, self.mc.prefix = ctx, mc.uni, self.pr.model, ""
        self.mc.s, self.mc.count, self.mc.tag = s.copy(), 0, mc.tag + "o"
        for k in s.v["x"] + s.v["y"] + s.v["u"]:
            self.free(k)
        self.x0sym = {}
        for k, e in zip(s.v["x"], self.uni.add_vec(self.pr.model.x_0)):
            self.x0sym[k] = e
            self.f["h_initial"].append(("-", ("v", k), ("v", e)))

    def free(self, k):
        self.lo[k], self.hi[k] = -INF, INF
        self.dlo[k], self.dhi[k] = -INF, INF

    @property
    def s(self):
        return self.mc.s

    def bound(self):
        a = round(self.ctx.uniform(-2, 0), 3)
        return a, round(a + self.ctx.uniform(0.1, 3), 3)

    def tree(self, kinds=("x", "y", "u", "p", "theta"), depth=2):
        return self.mc.expr(depth=depth, kinds=kinds)

    def names(self, ks):
        return [self.uni.name[k] for k in ks]

    # ------------------------------------------------------------ variables
    def declare(self, kind=None):
        """create_* or include_* of one kind with some bounds given."""
        ctx, pr = self.ctx, self.pr
        kind = kind or ctx.choice(["x", "y", "u", "u", "p", "theta", "popt", "thopt"])
        n = ctx.randint(1, 3)
        nm = self.mc.fresh(kind)
        create = ctx.chance()
        b = [self.bound() for _ in range(n)]
        if ctx.chance(0.3):
            b = [b[0]] * n
        d = [self.bound() for _ in range(n)]
        if ctx.chance(0.3):
            d = [d[0]] * n
        glo, ghi, gdlo, gdhi = (ctx.chance(0.7) for _ in range(4))
        kw = {}

        def give(key, vals, flag, scalar_ok=False):
            if flag:
                kw[key] = form(ctx, vals, scalar_ok)

        lo, hi = [i for i, _ in b], [j for _, j in b]
        ctx.note("create" if create else "include", kind, nm, n)
        if kind == "x":
            give("x_min", lo, glo)
            give("x_max", hi, ghi)
            x0 = [round(ctx.uniform(-1, 1), 3) for _ in range(n)]
            own = [self.tree(("x", "p")) for _ in range(ctx.randint(1, n))] if ctx.chance(0.2) else None
            if own:  # an own initial condition instead of a value
                kw["h_initial"] = ca.vertcat(*[self.mc.sx(t) for t in own])
                x0 = [0.0] * n
            elif ctx.chance(0.1):
                var = SX_sym(nm, n)
                with ctx.raises("rejected", "a state without an initial condition"):
                    if create:
                        pr.create_state(nm, n, **kw)
                    else:
                        pr.include_state(var, **kw)
                return
            else:
                give("x_0", x0, True)
            trees = [self.tree() for _ in range(n)] if ctx.chance(0.7) else None
            if trees:
                kw["ode"] = ca.vertcat(*[self.mc.sx(t) for t in trees])
            fr = Frozen(ctx, **kw)
            v = self.make(create, "state", nm, n, kw)
            ks = self.keys(v)
            self.mc._included("x", ks)
            if trees:
                self.s.ode.update(zip(ks, trees))
            sy = self.uni.add_vec(pr.model.x_0[-n:])
            for k, e, q in zip(ks, sy, x0):
                self.x0sym[k], self.x0[k] = e, q
                if not own:
                    self.f["h_initial"].append(("-", ("v", e), ("v", k)))
            if own:
                self.f["h_initial"] += own
        elif kind == "y":
            give("y_min", lo, glo)
            give("y_max", hi, ghi)
            trees = [self.tree() for _ in range(n)] if ctx.chance(0.7) else None
            if trees:
                kw["alg"] = ca.vertcat(*[self.mc.sx(t) for t in trees])
            if self.guess["y"] is not None:
                g = [round(ctx.uniform(-1, 1), 3) for _ in range(n)] if ctx.chance(0.7) else None
                if g:
                    kw["y_guess"] = dm(g)
            fr = Frozen(ctx, **kw)
            v = self.make(create, "algebraic", nm, n, kw)
            ks = self.keys(v)
            self.mc._included("y", ks)
            if trees:
                self.s.alg += trees
            if self.guess["y"] is not None:
                self.guess["y"].update(zip(ks, g or [0.0] * n))
        elif kind == "u":
            give("u_min", lo, glo, True)
            give("u_max", hi, ghi, True)
            give("delta_u_min", [i for i, _ in d], gdlo, True)
            give("delta_u_max", [j for _, j in d], gdhi, True)
            g = [round(ctx.uniform(-1, 1), 3) for _ in range(n)]
            if self.guess["u"] is not None:
                if ctx.chance(0.2):
                    var = SX_sym(nm, n)
                    with ctx.raises("rejected", "a control without a guess when the others have one", ValueError):
                        pr.include_control(var, **kw)
                    return
                kw["u_guess"] = form(ctx, g)
            elif not self.s.v["u"] and ctx.chance():
                kw["u_guess"] = form(ctx, g)
                self.guess["u"] = {}
            fr = Frozen(ctx, **kw)
            v = self.make(create, "control", nm, n, kw)
            ks = self.keys(v)
            self.mc._included("u", ks)
            if self.guess["u"] is not None:
                self.guess["u"].update(zip(ks, g))
            # a previous control exists for the old controls only
            if self.last_u is not None:
                pr.last_u = ca.vertcat(pr.last_u, dm([0.5] * n))
                self.last_u.update({k: 0.5 for k in ks})
        elif kind in ("p", "theta"):
            fr = Frozen(ctx)
            v = self.make(create, {"p": "parameter", "theta": "theta"}[kind], nm, n, {})
            ks = self.keys(v)
            self.mc._included(kind, ks)
            return
        else:
            p = kind == "popt"
            if p:
                a, c = "p_opt_min", "p_opt_max"
            else:
                a, c = ("new_theta_opt_min", "new_theta_opt_max") if create else ("theta_opt_min", "theta_opt_max")
            if glo:
                kw[a] = dm(lo)
            if ghi:
                kw[c] = dm(hi)
            fr = Frozen(ctx, **kw)
            v = self.make(create, "optimization_parameter" if p else "optimization_theta", nm, n, kw)
            ks = self.keys(v)
            self.mc._included("p" if p else "theta", ks)
            (self.popt if p else self.thopt).extend(ks)
            for k, (i, j) in zip(ks, b):
                self.plo[k], self.phi[k] = i if glo else -INF, j if ghi else INF
            fr.verify("declaring an optimization parameter")
            return
        fr.verify("declaring a variable")
        for k, (i, j), (q, r) in zip(ks, b, d):
            self.free(k)
            if glo:
                self.lo[k] = i
            if ghi:
                self.hi[k] = j
            if kind == "u":
                if gdlo:
                    self.dlo[k] = q
                if gdhi:
                    self.dhi[k] = r

    def make(self, create, what, nm, n, kw):
        if create:
            fn = getattr(self.pr, "create_" + what)
            v = fn(nm, **kw) if n == 1 and self.ctx.chance() else fn(nm, n, **kw)
        else:
            v = SX_sym(nm, n)
            getattr(self.pr, "include_" + what)(v, **kw)
        self.ctx.eq(v.numel(), n, "created", "size of %s" % nm)
        return v

    def keys(self, v):
        return self.uni.add_vec(v)

    def wrong_size(self):
        ctx, pr = self.ctx, self.pr
        n = ctx.randint(2, 3)
        v = SX_sym(self.mc.fresh("w"), n)
        kind = ctx.choice(["x", "y", "u", "popt", "thopt"])
        side = ctx.choice(["min", "max"])
        more = ctx.choice([1, 1, -1] if n > 2 else [1])
        bad = dm([0.0] * (n + more))
        ctx.note("wrong size", kind, side)
        with ctx.raises("rejected", "%s bound of size %d for a variable of size %d" % (side, n + more, n), ValueError):
            if kind == "x" and ctx.chance(0.3):
                pr.include_state(v, x_0=bad)
            elif kind == "x":
                pr.include_state(v, x_0=dm([0.0] * n), **{"x_" + side: bad})
            elif kind == "y":
                pr.include_algebraic(v, **{"y_" + side: bad})
            elif kind == "u":
                kw = {ctx.choice(["u_", "delta_u_"]) + side: bad}
                if self.guess["u"] is not None:
                    kw["u_guess"] = dm([0.0] * n)
                if ctx.chance(0.3):
                    kw = {"u_guess": bad}
                pr.include_control(v, **kw)
            elif kind == "popt":
                pr.set_parameter_as_optimization_parameter(v, **{"new_p_opt_" + side: bad})
            else:
                pr.set_theta_as_optimization_theta(v, **{"new_theta_opt_" + side: bad})

    def wrong_transform(self):
        """Sides of different sizes are refused."""
        ctx, pr, s = self.ctx, self.pr, self.s
        pool = s.v["x"] + s.v["y"] + s.v["p"] + s.v["theta"]
        lst = (lambda v: [v[i] for i in range(v.numel())]) if ctx.chance() else (lambda v: v)
        if ctx.chance() and pool:
            ks = ctx.sample(pool, ctx.randint(1, min(2, len(pool))))
            n = 3 - len(ks)
            ctx.note("reject", "replace", self.names(ks), n)
            with ctx.raises("rejected", "%d expressions for %d variables" % (n, len(ks)), ValueError):
                pr.replace_variable(lst(self.mc.vec(ks)), lst(ca.SX.ones(n, 1)))
        elif self.mc.free_controls() and len(s.v["y"]) > 1:
            ctx.note("reject", "connect")
            with ctx.raises("rejected", "one control connected to two variables", ValueError):
                pr.connect(lst(self.uni.elem[self.mc.free_controls()[0]]), lst(self.mc.vec(s.v["y"][:2])), replace=ctx.chance())

    def promote(self):
        """An existing parameter becomes a decision."""
        ctx, pr = self.ctx, self.pr
        which = ctx.choice(["p", "theta"])
        done = self.popt if which == "p" else self.thopt
        cand = [k for k in self.s.v[which] if k not in done]
        if not cand:
            return
        ks = ctx.sample(cand, ctx.randint(1, min(2, len(cand))))
        b = [self.bound() for _ in ks]
        kw = {}
        if ctx.chance(0.7):
            kw["min"] = dm([i for i, _ in b])
        if ctx.chance(0.7):
            kw["max"] = dm([j for _, j in b])
        v = self.mc.vec(ks)
        ctx.note("promote", which, self.names(ks), sorted(kw))
        if which == "p":
            pr.set_parameter_as_optimization_parameter(v, **{"new_p_opt_" + q: w for q, w in kw.items()})
        else:
            pr.set_theta_as_optimization_theta(v, **{"new_theta_opt_" + q: w for q, w in kw.items()})
        done.extend(ks)
        for k, (i, j) in zip(ks, b):
            self.plo[k] = i if "min" in kw else -INF
            self.phi[k] = j if "max" in kw else INF

    def assign(self):
        """Bounds, guesses and the previous control set directly."""
        ctx, pr = self.ctx, self.pr
        what = ctx.choice(["x", "y", "u", "du", "yg", "ug", "lu"])
        if what in ("x", "y", "u", "du"):
            kind = what[-1]
            ks = self.s.v[kind]
            if not ks:
                return
            b = [self.bound() for _ in ks]
            lo, hi = dm([i for i, _ in b]), dm([j for _, j in b])
            if what == "du":
                pr.delta_u_min, pr.delta_u_max = lo, hi
                self.dlo.update({k: i for k, (i, _) in zip(ks, b)})
                self.dhi.update({k: j for k, (_, j) in zip(ks, b)})
            else:
                setattr(pr, kind + "_min", lo)
                setattr(pr, kind + "_max", hi)
                self.lo.update({k: i for k, (i, _) in zip(ks, b)})
                self.hi.update({k: j for k, (_, j) in zip(ks, b)})
        else:
            kind = "y" if what == "yg" else "u"
            ks = self.s.v[kind]
            if not ks:
                return
            g = [round(ctx.uniform(-1, 1), 3) for _ in ks]
            if what == "lu":
                pr.last_u = dm(g)
                self.last_u = dict(zip(ks, g))
            else:
                setattr(pr, kind + "_guess", dm(g))
                self.guess[kind] = dict(zip(ks, g))
        ctx.note("assign", what)

    def remove(self):
        ctx, pr, s = self.ctx, self.pr, self.s
        kind = ctx.choice(["y", "u"])
        cand = self.mc.removable(kind)
        if not cand:
            return
        ks = ctx.sample(cand, ctx.randint(1, min(2, len(cand))))
        used = self.used()
        ku = [k for k in ks if k in used]
        if ku:
            self.substitute(ku, [("c", round(ctx.uniform(-1, 1), 3)) for _ in ku])
        ctx.note("remove", kind, self.names(ks))
        v = self.mc.vec(ks)
        if kind == "y":
            i = None
            if s.alg and ctx.chance(0.6):
                i = ctx.randint(0, len(s.alg) - 1)
                eq = pr.model.alg[i]
                if sum(ca.is_equal(pr.model.alg[j], eq, 0) for j in range(pr.model.alg.numel())) != 1:
                    i = None
            if i is not None:
                pr.remove_algebraic(v, eq)
                del s.alg[i]
            else:
                pr.remove_algebraic(v)
        else:
            pr.remove_control(v)
            s.u_par = [k for k in s.u_par if k not in ks]
            s.u_expr = [t for k, t in zip(s.v["u"], s.u_expr) if k not in ks]
        s.v[kind] = [k for k in s.v[kind] if k not in ks]
        self.drop(kind, ks)

    def drop(self, kind, ks):
        if self.guess[kind] is not None:
            self.guess[kind] = {k: g for k, g in self.guess[kind].items() if k not in ks}
        if kind == "u" and self.last_u is not None:
            self.last_u = {k: g for k, g in self.last_u.items() if k not in ks}

    # ------------------------------------------------------------ equations
    def used(self):
        u = self.mc.used()
        for t in [self.L, self.V, self.S] + [t for n in FUNS for t in self.f[n]]:
            ex.keys_of(t, u)
        return u

    def sub_funcs(self, m):
        self.L, self.V, self.S = (ex.sub(t, m) for t in (self.L, self.V, self.S))
        for n in FUNS:
            self.f[n] = [ex.sub(t, m) for t in self.f[n]]

    def substitute(self, ks, trees):
        a = self.mc.vec(ks)
        b = ca.vertcat(*[self.mc.sx(t) for t in trees])
        if self.ctx.chance(0.3):
            self.pr.replace_variable([a[i] for i in range(len(ks))], [b[i] for i in range(len(ks))])
        else:
            self.pr.replace_variable(a, b)
        m = dict(zip(ks, trees))
        self.s.subst(m)
        self.sub_funcs(m)

    def replace(self):
        ctx, s = self.ctx, self.s
        pool = [k for kind in KINDS for k in s.v[kind] if k not in s.par]
        if not pool:
            return
        ks = ctx.sample(pool, ctx.randint(1, min(2, len(pool))))
        trees = [("v", ctx.choice(pool)) if ctx.chance(0.5) else self.tree(depth=1) for _ in ks]
        ctx.note("replace", self.names(ks), [self.mc.show(t) for t in trees])
        self.substitute(ks, trees)

    def parametrize(self):
        ctx, s = self.ctx, self.s
        free = self.mc.free_controls()
        if not free:
            return
        ks = ctx.sample(free, 1)
        par = SX_sym(self.mc.fresh("par"), 2)
        pk = self.uni.add_vec(par)
        t = ("+", ("v", pk[0]), ("*", ("v", pk[1]), ctx.choice([("v", s.tau), ("v", s.t), ("c", 2.0)])))
        if s.v["x"] and ctx.chance():
            t = ("+", t, ("v", ctx.choice(s.v["x"])))
        ctx.note("parametrize", self.names(ks))
        self.pr.parametrize_control(self.mc.vec(ks), self.mc.sx(t), par)
        s.par += ks
        s.u_par = [k for k in s.u_par if k not in ks] + pk
        s.subst({ks[0]: t})
        self.sub_funcs({ks[0]: t})

    def connect(self):
        ctx, s, pr = self.ctx, self.s, self.pr
        free = self.mc.free_controls()
        if not free or not s.v["y"]:
            return
        n = ctx.randint(1, min(2, len(free), len(s.v["y"])))
        us, ys = ctx.sample(free, n), ctx.sample(s.v["y"], n)
        rep = ctx.chance()
        ctx.note("connect", self.names(us), self.names(ys), rep)
        u, y = self.mc.vec(us), self.mc.vec(ys)
        if ctx.chance(0.3):
            u, y = [u[i] for i in range(n)], [y[i] for i in range(n)]
        pr.connect(u, y, replace=rep)
        if rep:
            m = {a: ("v", b) for a, b in zip(us, ys)}
            s.subst(m)
            self.sub_funcs(m)
        else:
            s.alg += [("-", ("v", a), ("v", b)) for a, b in zip(us, ys)]
            s.v["y"] += us
            if self.guess["y"] is not None:
                g = self.guess["u"] or {}
                self.guess["y"].update({k: g.get(k, 0.0) for k in us})
        keep = [(k, t) for k, t in zip(s.v["u"], s.u_expr) if k not in us]
        s.v["u"], s.u_expr = [k for k, _ in keep], [t for _, t in keep]
        s.u_par = [k for k in s.u_par if k not in us]
        self.drop("u", us)

    def constrain(self):
        ctx, pr = self.ctx, self.pr
        what = ctx.choice(["g_eq", "g_ineq", "h", "h_initial", "h_final", "h_final"])
        kinds = {"h": ("p",), "h_final": ("x", "p"), "h_initial": ("x", "p")}.get(what, KINDS)
        n = ctx.randint(1, 3)
        trees = [self.tree(kinds) for _ in range(n)]
        if what in ("g_eq", "g_ineq") and ctx.chance(0.15):
            # a constraint that became trivial (structurally zero) still counts
            trees[ctx.randint(0, n - 1)] = ("z",)
        e = [self.mc.sx(t) for t in trees]
        e = e if ctx.chance() else ca.vertcat(*e)
        fr = Frozen(ctx, eq=e)
        ctx.note("constrain", what, n)
        if what in ("g_eq", "g_ineq"):
            when = ctx.choice(["default", "end", "start", None])
            fn = pr.include_time_equality if what == "g_eq" else pr.include_time_inequality
            if when is None:
                fn(e)
            else:
                fn(e, when=when)
            self.when[what] += [when or "default"] * n
        else:
            {"h": pr.include_equality, "h_initial": pr.include_initial_time_equality, "h_final": pr.include_final_time_equality}[what](e)
        fr.verify("including a constraint")
        self.f[what] += trees

    def cost(self):
        ctx = self.ctx
        what = ctx.choice("LVS")
        t = self.tree(("x", "p") if what == "V" else KINDS, depth=3)
        ctx.note("cost", what)
        setattr(self.pr, what, self.mc.sx(t))
        setattr(self, what, t)

    def cost_state(self):
        if any(k is None for k in self.s.ode.values()):
            return
        pr = self.pr
        v = pr.create_cost_state()
        ks = self.keys(v)
        self.mc._included("x", ks)
        self.s.ode[ks[0]] = self.L
        self.free(ks[0])
        if pr.positive_objective:
            self.lo[ks[0]] = 0.0
        self.x0[ks[0]] = 0.0
        e = self.uni.add_vec(pr.model.x_0[-1:])[0]
        self.x0sym[ks[0]] = e
        self.f["h_initial"].append(("-", ("v", e), ("v", ks[0])))
        self.ctx.note("cost state")

    OPS = ["declare"] * 6 + ["assign"] * 3 + ["remove"] * 2 + ["replace", "parametrize", "connect", "connect", "promote", "wrong_size", "wrong_transform"] + ["constrain"] * 3 + ["cost"]

    def step(self, ops=None):
        op = self.ctx.choice(ops or self.OPS)
        getattr(self, op)()
        self.ctx.event("operations")
        return op

    # ------------------------------------------------------------ observation
    def observe(self, what="problem"):
        ctx, pr, s, uni = self.ctx, self.pr, self.s, self.uni
        observe(ctx, pr.model, s, uni, what)
        for kind in "xyu":
            ks = s.v[kind]
            ctx.close(vec(getattr(pr, kind + "_min")), [self.lo[k] for k in ks], "bounds", "%s: %s_min of %s" % (what, kind, self.names(ks)))
            ctx.close(vec(getattr(pr, kind + "_max")), [self.hi[k] for k in ks], "bounds", "%s: %s_max of %s" % (what, kind, self.names(ks)))
        ks = s.v["u"]
        ctx.close(vec(pr.delta_u_min), [self.dlo[k] for k in ks], "rate-bounds", "%s: delta_u_min of %s" % (what, self.names(ks)))
        ctx.close(vec(pr.delta_u_max), [self.dhi[k] for k in ks], "rate-bounds", "%s: delta_u_max" % what)
        if ks:
            fin = any(np.isfinite(self.dlo[k]) or np.isfinite(self.dhi[k]) for k in ks)
            ctx.eq(bool(pr.has_delta_u), fin, "rate-bounds", "%s: has_delta_u" % what)
        ctx.close(vec(pr.x_0), [self.x0[k] for k in s.v["x"]], "initial-values", "%s: x_0" % what)
        ctx.check(same_symbols(pr.model.x_0, [uni.elem[self.x0sym[k]] for k in s.v["x"]]), "initial-values", lambda: "%s: model.x_0 %s" % (what, pr.model.x_0))
        for kind in "yu":
            g = getattr(pr, kind + "_guess")
            want = self.guess[kind]
            if want is None:
                ctx.check(g is None, "guesses", lambda: "%s: %s_guess is %s, none was given" % (what, kind, g))
            elif ctx.check(g is not None, "guesses", lambda: "%s: %s_guess was lost" % (what, kind)):
                ctx.close(vec(g), [want[k] for k in s.v[kind]], "guesses", "%s: %s_guess" % (what, kind))
        if self.last_u is None:
            ctx.check(pr.last_u is None, "previous-control", "%s: last_u appeared" % what)
        elif ctx.check(pr.last_u is not None, "previous-control", "%s: last_u was lost" % what):
            ctx.close(vec(pr.last_u), [self.last_u[k] for k in ks], "previous-control", "%s: last_u" % what)
        for attr, lst, where, idx in (("p_opt", self.popt, "p", pr.get_p_opt_indices), ("theta_opt", self.thopt, "theta", pr.get_theta_opt_indices)):
            ctx.check(same_symbols(getattr(pr, attr), [uni.elem[k] for k in lst]), "optimization-parameters", lambda: "%s: %s is %s, expected %s" % (what, attr, getattr(pr, attr), self.names(lst)))
            ctx.eq(getattr(pr, "n_" + attr), len(lst), "optimization-parameters", "n_" + attr)
            ctx.close(vec(getattr(pr, attr + "_min")), [self.plo[k] for k in lst], "optimization-parameters", "%s: %s_min" % (what, attr))
            ctx.close(vec(getattr(pr, attr + "_max")), [self.phi[k] for k in lst], "optimization-parameters", "%s: %s_max" % (what, attr))
            ctx.eq(list(idx()), [s.v[where].index(k) for k in lst], "optimization-parameters", "%s: indices of %s" % (what, attr))
        for n in ("g_eq", "g_ineq"):
            ctx.eq(list(getattr(pr, "time_" + n)), self.when[n], "constraint-times", "%s: when of %s" % (what, n))
        for n in ("g_eq", "g_ineq", "h_initial", "h_final"):
            ctx.eq(getattr(pr, "n_" + n), len(self.f[n]), "constraints", "%s: number of %s" % (what, n))
        uni.resample()
        got = uni.eval([pr.L, pr.V, pr.S] + [getattr(pr, n) for n in FUNS])
        for n, t, g in zip("LVS", (self.L, self.V, self.S), got):
            ctx.close(g, [ex.num(t, uni.val)], "cost", "%s: %s" % (what, n), atol=1e-8)
        for n, g in zip(FUNS, got[3:]):
            ctx.close(g, [ex.num(t, uni.val) for t in self.f[n]], "constraints", "%s: %s" % (what, n), atol=1e-8)


def vec(v):
    return arr(ca.vec(ca.densify(ca.DM(ca.vertcat(v)))))
