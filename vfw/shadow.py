"""A shadow of a model: ordered lists of symbols and, for every equation, an
expression tree.  `Machine` applies random operations to the real model and to
the shadow, and `observe` compares everything a user can read from the model."""
import casadi as ca
import numpy as np

from vfw import expr as ex
from vfw.env import SX_sym, dm, same_symbols
from yaocptool.modelling import SystemModel, der

KINDS = ["x", "y", "u", "p", "theta"]


class Universe:
    """All symbols of a case."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.elem = {}
        self.name = {}
        self.val = {}
        self.n = 0

    def add(self, e):
        k = self.n
        self.n += 1
        self.elem[k] = e
        self.name[k] = e.name()
        self.val[k] = self.ctx.uniform(-1.5, 1.5)
        return k

    def add_vec(self, v):
        return [self.add(v[i]) for i in range(v.numel())]

    def key_of(self, e):
        for k, v in self.elem.items():
            if ca.is_equal(v, e, 0):
                return k
        return None

    def resample(self):
        for k in self.val:
            self.val[k] = self.ctx.uniform(-1.5, 1.5)

    def function(self, exprs):
        ks = sorted(self.elem)
        f = ca.Function("u", [ca.vertcat(*[self.elem[k] for k in ks])], [ca.densify(ca.SX(e)) for e in exprs])
        return f, ks

    def eval(self, exprs, val=None):
        val = self.val if val is None else val
        f, ks = self.function(exprs)
        r = f.call([dm([val[k] for k in ks])])
        return [np.array(v.full()).ravel(order="F") for v in r]


class Shadow:
    def __init__(self):
        self.v = {k: [] for k in KINDS}
        self.u_par = []
        self.ode = {}
        self.alg = []
        self.u_expr = []
        self.par = []  # parametrized controls
        self.t = None
        self.tau = None

    def copy(self):
        s = Shadow()
        s.v = {k: list(a) for k, a in self.v.items()}
        s.u_par, s.ode, s.alg = list(self.u_par), dict(self.ode), list(self.alg)
        s.u_expr, s.par = list(self.u_expr), list(self.par)
        s.t, s.tau = self.t, self.tau
        return s

    def subst(self, m):
        self.ode = {k: (None if t is None else ex.sub(t, m)) for k, t in self.ode.items()}
        self.alg = [ex.sub(t, m) for t in self.alg]
        self.u_expr = [ex.sub(t, m) for t in self.u_expr]

    def symbols(self):
        s = []
        for k in KINDS:
            s += self.v[k]
        return s + [k for k in self.u_par if k not in s]

    def complete(self):
        return all(t is not None for t in self.ode.values())


class Machine:
    reuse = 0.0

    def __init__(self, ctx, name="m", prefix=False, uni=None, reuse=0.0):
        self.ctx = ctx
        self.uni = uni or Universe(ctx)
        self.m = SystemModel(name=name, model_name_as_prefix=prefix)
        self.prefix = name + "_" if prefix else ""
        self.s = Shadow()
        self.s.t = self.uni.add(self.m.t)
        self.s.tau = self.uni.add(self.m.tau)
        self.count = 0
        self.given, self.reuse = [], reuse
        self.tag = ""

    # ------------------------------------------------------------------ utils
    def fresh(self, kind):
        self.count += 1
        if self.reuse and self.given and self.ctx.chance(self.reuse):
            return self.ctx.choice(self.given)  # the name of another variable, of this or another kind
        name = "%s%s_%d" % (self.tag, kind, self.count)
        if self.reuse:
            self.given.append(name)
        return name

    def vec(self, keys):
        return ca.vertcat(*[self.uni.elem[k] for k in keys])

    def sx(self, tree):
        return ex.sx(tree, self.uni.elem)

    def expr(self, extra=(), depth=3, kinds=KINDS, time=True, avoid=()):
        ks = [k for kind in kinds for k in self.s.v[kind] if k not in self.s.par and k not in avoid]
        ks += [k for k in extra if k not in ks]
        if time and self.ctx.chance(0.3):
            ks.append(self.s.t)
        return ex.gen(self.ctx, ks, depth)

    def rhs(self):
        """Right-hand side of a differential equation; now and then a structural zero."""
        return ("z",) if self.ctx.chance(0.06) else self.expr()

    def show(self, t):
        return ex.show(t, self.uni.name)

    # ------------------------------------------------------- variable operations
    def create(self, kind=None, size=None, mech="create"):
        ctx = self.ctx
        kind = kind or ctx.choice(KINDS)
        if size is None:
            size = ctx.choice([1, 1, 2, 3, (2, 2), (1, 2), (2, 1)])
        nm = self.fresh(kind)
        fn = {
            "x": self.m.create_state,
            "y": self.m.create_algebraic_variable,
            "u": ctx.choice([self.m.create_control, self.m.create_input]),
            "p": self.m.create_parameter,
            "theta": self.m.create_theta,
        }[kind]
        var = fn(nm, size)
        shape = size if isinstance(size, tuple) else (size, 1)
        ctx.eq(var.shape, shape, mech, "shape of the created variable")
        keys = self.uni.add_vec(ca.vec(var))
        ctx.check(
            all(self.uni.name[k].startswith(self.prefix + nm) for k in keys),
            mech,
            lambda: "names %s do not start with %s" % ([self.uni.name[k] for k in keys], self.prefix + nm),
        )
        self._included(kind, keys)
        ctx.note("create", kind, nm, size)
        return keys

    def _included(self, kind, keys):
        self.s.v[kind] += keys
        if kind == "x":
            for k in keys:
                self.s.ode[k] = None
        if kind == "u":
            self.s.u_par += keys
            self.s.u_expr += [("v", k) for k in keys]

    def include(self, kind=None, n=None):
        ctx = self.ctx
        kind = kind or ctx.choice(KINDS)
        n = n or ctx.randint(1, 3)
        nm = self.fresh(kind)
        var = SX_sym(nm, n)
        keys = self.uni.add_vec(var)
        how = ctx.randint(0, 2)
        ctx.note("include", kind, nm, n, how)
        if how == 0:
            # through include_variables, as a list or a vector
            val = [var[i] for i in range(n)] if ctx.chance() else var
            self.m.include_variables(**{kind: val})
            self._included(kind, keys)
        elif kind == "x":
            trees = None
            if how == 2:
                self._included(kind, keys)
                trees = [self.expr() for _ in keys]
                self.m.include_state(var, ode=ca.vertcat(*[self.sx(t) for t in trees]))
                self.s.ode.update(zip(keys, trees))
            else:
                x0 = SX_sym(nm + "_init", n) if ctx.chance() else None
                self.m.include_state(var, x_0=x0)
                self._included(kind, keys)
        elif kind == "y":
            self._included(kind, keys)
            if how == 2:
                trees = [self.expr() for _ in keys]
                self.m.include_algebraic(var, alg=ca.vertcat(*[self.sx(t) for t in trees]))
                self.s.alg += trees
            else:
                self.m.include_algebraic(var)
        else:
            {
                "u": self.m.include_control,
                "p": self.m.include_parameter,
                "theta": self.m.include_theta,
            }[kind](var)
            self._included(kind, keys)
        return keys

    def removable(self, kind):
        s = self.s
        if kind == "u":
            return [k for k in s.v["u"] if k in s.u_par and k not in s.par]
        return list(s.v[kind])

    def used(self):
        used = set()
        for t in list(self.s.ode.values()) + self.s.alg:
            if t is not None:
                ex.keys_of(t, used)
        for k, t in zip(self.s.v["u"], self.s.u_expr):
            if t != ("v", k):
                ex.keys_of(t, used)
        return used

    def remove(self, kind=None):
        """Remove variables; equations keep mentioning them only if they did, so
        variables still in use are replaced by a constant first."""
        ctx, s = self.ctx, self.s
        kinds = [k for k in KINDS if self.removable(k)]
        if not kinds:
            return
        kind = kind or ctx.choice(kinds)
        cand = self.removable(kind)
        if not cand:
            return
        ks = ctx.sample(cand, ctx.randint(1, min(2, len(cand))))
        used = self.used()
        ks_used = [k for k in ks if k in used]
        if ks_used:
            repl = [("c", round(ctx.uniform(-1, 1), 3)) for _ in ks_used]
            self.m.replace_variable(self.vec(ks_used), ca.vertcat(*[self.sx(t) for t in repl]))
            s.subst(dict(zip(ks_used, repl)))
        ctx.note("remove", kind, [self.uni.name[k] for k in ks])
        v = self.vec(ks)
        if kind == "x":
            self.m.remove_state(v)
            for k in ks:
                del s.ode[k]
        elif kind == "y":
            if s.alg and ctx.chance(0.6):
                i = ctx.randint(0, len(s.alg) - 1)
                eq = self.m.alg[i]
                # the equation must be the only one of its value to be named
                n_same = sum(ca.is_equal(self.m.alg[j], eq, 0) for j in range(self.m.alg.numel()))
                if n_same == 1:
                    self.m.remove_algebraic(v, eq)
                    del s.alg[i]
                else:
                    self.m.remove_algebraic(v)
            else:
                self.m.remove_algebraic(v)
        elif kind == "u":
            self.m.remove_control(v)
            s.u_par = [k for k in s.u_par if k not in ks]
            s.u_expr = [t for k, t in zip(s.v["u"], s.u_expr) if k not in ks]
        elif kind == "p":
            self.m.remove_parameter(v)
        else:
            self.m.remove_theta(v)
        s.v[kind] = [k for k in s.v[kind] if k not in ks]

    def duplicate_state(self):
        if not self.s.v["x"]:
            return
        ctx = self.ctx
        dup = ctx.sample(self.s.v["x"], 1)
        new = SX_sym(self.fresh("x"), 1)
        parts = [new] + [self.uni.elem[k] for k in dup]
        if ctx.chance():
            parts.reverse()
        ctx.note("include a state twice", [self.uni.name[k] for k in dup])
        with ctx.raises("duplicate-state", "a state already in the model", ValueError):
            self.m.include_state(ca.vertcat(*parts))

    def remove_absent(self):
        ctx = self.ctx
        kind = ctx.choice(KINDS)
        stranger = SX_sym(self.fresh(kind), 1)
        fn = {
            "x": self.m.remove_state,
            "y": self.m.remove_algebraic,
            "u": self.m.remove_control,
            "p": self.m.remove_parameter,
            "theta": self.m.remove_theta,
        }[kind]
        with ctx.raises("remove-absent", "removing a %s the model does not have" % kind, (ValueError, KeyError)):
            fn(stranger)

    def reject_partly(self):
        """Declarations of which one part is good and another is not: refused as a whole."""
        s, ctx = self.s, self.ctx
        what = ctx.choice(["remove", "state", "ode+alg", "der+ode", "ode+bad-alg", "connect", "alg"])
        ctx.note("reject partly", what)
        if what == "remove" and s.v["x"]:
            ks = ctx.sample(s.v["x"], ctx.randint(1, min(2, len(s.v["x"]))))
            parts = [self.uni.elem[k] for k in ks] + [SX_sym(self.fresh("x"), 1)]
            with ctx.raises("half-done", "removing states and something that is not one"):
                self.m.remove_state(ca.vertcat(*ctx.sample(parts, len(parts))))
        elif what == "state":
            n = ctx.randint(1, 3)
            bad = n + 1 if n == 1 or ctx.chance() else n - 1
            with ctx.raises("half-done", "including %d states with %d equations" % (n, bad)):
                self.m.include_state(SX_sym(self.fresh("x"), n), ode=ca.vertcat(*[self.sx(self.expr()) for _ in range(bad)]))
        elif what in ("ode+alg", "der+ode") and s.v["x"]:
            k = ctx.choice(s.v["x"])
            two = [self.sx(self.expr()) for _ in range(2)]
            with ctx.raises("half-done", "good equations together with two equations for one state"):
                if what == "ode+alg":
                    self.m.include_equations(ode=two, x=self.vec([k]), alg=[self.sx(self.expr())])
                else:
                    self.m.include_equations(der(self.uni.elem[k]) == self.sx(self.expr()), ode=two, x=self.vec([k]))
        elif what == "ode+bad-alg" and s.v["x"] and s.alg:
            k = ctx.choice(s.v["x"])
            with ctx.raises("half-done", "a good differential equation together with a row of algebraic ones"):
                self.m.include_equations(ode=[self.sx(self.expr())], x=self.vec([k]), alg=ca.horzcat(self.sx(self.expr()), self.sx(self.expr())))
        elif what == "connect" and s.v["y"]:
            with ctx.raises("half-done", "connecting something that is not an input"):
                self.m.connect(SX_sym(self.fresh("u"), 1), self.uni.elem[ctx.choice(s.v["y"])], replace=ctx.chance())
        elif what == "alg" and s.v["y"]:
            k = ctx.choice(s.v["y"])
            with ctx.raises("half-done", "removing an algebraic variable with an equation the model does not have"):
                self.m.remove_algebraic(self.uni.elem[k], eq=SX_sym(self.fresh("y"), 1) + 1)

    # ------------------------------------------------------- equation operations
    def undefined(self):
        return [k for k in self.s.v["x"] if self.s.ode[k] is None]

    def ode_keyword(self):
        """ode=[...] for the states that have none, without naming them (only where the
        assignment is unambiguous: no state before the first one without equation)."""
        s, ctx = self.s, self.ctx
        und = self.undefined()
        if not und or und != s.v["x"]:
            return
        n = ctx.randint(1, len(und)) if ctx.chance(0.3) else len(und)
        trees = [self.rhs() for _ in range(n)]
        e = [self.sx(t) for t in trees]
        form = ctx.randint(0, 2)
        arg = e if form == 0 else ca.vertcat(*e) if form == 1 else tuple(e)
        ctx.note("ode=", [self.show(t) for t in trees], "form", form)
        alg = {}
        extra = []
        if ctx.chance(0.4) and s.v["y"]:
            extra = [self.expr() for _ in range(ctx.randint(1, 2))]
            ae = [self.sx(t) for t in extra]
            alg = {"alg": ae if ctx.chance() else ca.vertcat(*ae)}
        self.m.include_equations(ode=arg, **alg)
        s.ode.update(zip(und, trees))
        s.alg += extra

    def ode_named(self):
        s, ctx = self.s, self.ctx
        if not s.v["x"]:
            return
        und = self.undefined()
        pool = und if und and ctx.chance(0.8) else s.v["x"]
        ks = ctx.sample(pool, ctx.randint(1, len(pool)))
        trees = [self.rhs() for _ in ks]
        xs, e = [self.uni.elem[k] for k in ks], [self.sx(t) for t in trees]
        ctx.note("ode with x=", [self.uni.name[k] for k in ks], [self.show(t) for t in trees])
        if ctx.chance():
            self.m.include_equations(ode=e, x=xs)
        else:
            self.m.include_equations(ode=ca.vertcat(*e), x=ca.vertcat(*xs))
        s.ode.update(zip(ks, trees))

    def ode_der(self):
        """der(x) == expr, alone or mixed with algebraic equalities, in any order."""
        s, ctx = self.s, self.ctx
        if not s.v["x"]:
            return
        und = self.undefined()
        pool = und if und and ctx.chance(0.8) else s.v["x"]
        ks = ctx.sample(pool, ctx.randint(1, min(4, len(pool))))
        eqs, upd = [], {}
        i = 0
        while i < len(ks):
            n = ctx.randint(1, min(3, len(ks) - i))
            part = ks[i : i + n]
            trees = [self.rhs() for _ in part]
            rhs = ca.vertcat(*[self.sx(t) for t in trees])
            lhs = self.vec(part)
            eqs.append(("o", der(lhs) == rhs, None))
            upd.update(zip(part, trees))
            i += n
        if s.v["y"]:
            for _ in range(ctx.randint(0, 2)):
                a, b = ("v", ctx.choice(s.v["y"])), self.expr()
                if ctx.chance(0.3):
                    a = self.expr(depth=2)
                eq = self.sx(a) == self.sx(b)
                if eq.op() != ca.OP_EQ or not eq.is_scalar() or eq.is_constant():
                    continue
                eqs.append(("a", eq, (a, b)))
        eqs = ctx.perm(eqs)
        ctx.note("equations", [("der " if q[0] == "o" else "alg ") for q in eqs], [self.show(t) for t in upd.values()])
        self.m.include_equations(*[q[1] for q in eqs])
        s.ode.update(upd)
        s.alg += [("-", q[2][0], q[2][1]) for q in eqs if q[0] == "a"]

    def alg_keyword(self):
        s, ctx = self.s, self.ctx
        trees = [self.expr() for _ in range(ctx.randint(1, 3))]
        e = [self.sx(t) for t in trees]
        ctx.note("alg=", [self.show(t) for t in trees])
        self.m.include_equations(alg=e if ctx.chance() else ca.vertcat(*e))
        s.alg += trees

    def mixed(self):
        """One call with both positional equations and keyword equations."""
        s, ctx = self.s, self.ctx
        und = self.undefined()
        if not s.v["x"] or not s.v["y"]:
            return
        if ctx.chance():
            # der() positional, alg keyword
            k = ctx.choice(s.v["x"])
            t, a = self.rhs(), self.expr()
            self.m.include_equations(der(self.uni.elem[k]) == self.sx(t), alg=[self.sx(a)])
            ctx.note("mixed der+alg=", self.uni.name[k], self.show(t), self.show(a))
            s.ode[k] = t
            s.alg.append(a)
        else:
            k = ctx.choice(und or s.v["x"])
            t, y, b = self.rhs(), ("v", ctx.choice(s.v["y"])), self.expr(depth=2)
            eq = self.sx(y) == self.sx(b)
            if eq.op() != ca.OP_EQ or eq.is_constant():
                return
            self.m.include_equations(eq, ode=[self.sx(t)], x=[self.uni.elem[k]])
            ctx.note("mixed eq+ode=", self.uni.name[k], self.show(t), self.show(b))
            s.ode[k] = t
            s.alg.append(("-", y, b))

    def reject_size(self):
        """Equations that do not match the states in number are refused."""
        s, ctx = self.s, self.ctx
        if not s.v["x"]:
            return
        ks = ctx.sample(s.v["x"], ctx.randint(1, len(s.v["x"])))
        n = len(ks) + ctx.choice([-1, 1])
        if n < 1:
            n = len(ks) + 1
        e = [self.sx(self.expr()) for _ in range(n)]
        with ctx.raises("size-mismatch", "%d equations for %d states" % (n, len(ks))):
            self.m.include_equations(ode=e, x=self.vec(ks))

    def reject_ambiguous(self):
        """ode without its states, when a state before already has an equation."""
        s, ctx = self.s, self.ctx
        und = self.undefined()
        if not und or s.ode[s.v["x"][0]] is None:
            return
        with ctx.raises("ambiguous-ode", "unnamed equations after named ones", ValueError):
            self.m.include_equations(ode=[self.sx(self.expr()) for _ in und])

    def reject_x_alone(self):
        s, ctx = self.s, self.ctx
        if not s.v["x"]:
            return
        with ctx.raises("x-without-ode", "x without ode", ValueError):
            self.m.include_equations(x=self.vec(s.v["x"]))

    # ------------------------------------------------------- transformations
    def replace(self):
        """Replace variables by expressions, simultaneously."""
        s, ctx = self.s, self.ctx
        pool = [k for kind in KINDS for k in s.v[kind] if k not in s.par]
        if not pool:
            return
        ks = ctx.sample(pool, ctx.randint(1, min(3, len(pool))))
        trees = []
        for _ in ks:
            # swaps and expressions that mention the replaced variables included
            trees.append(("v", ctx.choice(pool)) if ctx.chance(0.4) else self.expr(depth=2))
        ctx.note("replace", [self.uni.name[k] for k in ks], [self.show(t) for t in trees])
        self.m.replace_variable(self.vec(ks), ca.vertcat(*[self.sx(t) for t in trees]))
        s.subst(dict(zip(ks, trees)))

    def free_controls(self):
        return [k for k in self.s.v["u"] if k in self.s.u_par and k not in self.s.par]

    def parametrize(self):
        s, ctx = self.s, self.ctx
        free = self.free_controls()
        if not free:
            return
        ks = ctx.sample(free, ctx.randint(1, min(2, len(free))))
        n_par = ctx.randint(0, 2)
        par = SX_sym(self.fresh("upar"), n_par) if n_par else None
        pk = self.uni.add_vec(par) if n_par else []
        trees = []
        for k in ks:
            t = self.expr(extra=pk, depth=2, kinds=["x", "p"], avoid=ks)
            for q in pk:
                t = ("+", t, ("*", ("c", round(ctx.uniform(0.5, 2), 3)), ("v", q)))
            if ctx.chance(0.3):
                t = ("+", t, ("v", s.tau))
            trees.append(t)
        ctx.note("parametrize", [self.uni.name[k] for k in ks], [self.show(t) for t in trees])
        e = ca.vertcat(*[self.sx(t) for t in trees])
        if par is None:
            self.m.parametrize_control(self.vec(ks), e)
        else:
            self.m.parametrize_control(self.vec(ks), e, par)
        s.par += ks
        s.u_par = [k for k in s.u_par if k not in ks] + pk
        s.subst(dict(zip(ks, trees)))

    def parametrize_again(self):
        s, ctx = self.s, self.ctx
        if not s.par:
            return
        k = ctx.choice(s.par)
        with ctx.raises("parametrize-twice", "a control already parametrized", ValueError):
            self.m.parametrize_control(self.uni.elem[k], ca.SX(1.0))

    def reject_transform(self):
        """Transformations whose two sides do not fit are refused, and change nothing."""
        s, ctx = self.s, self.ctx
        free = self.free_controls()
        pool = [k for kind in KINDS for k in s.v[kind]]
        bad = (ValueError, AssertionError)
        what = ctx.choice(["replace", "parametrize", "connect", "asked", "half"])
        ctx.note("reject", what)
        if what == "replace" and pool:
            ks = ctx.sample(pool, ctx.randint(1, min(3, len(pool))))
            n = len(ks) + ctx.choice([-1, 1]) if len(ks) > 1 else 2
            with ctx.raises("transform-size", "%d expressions for %d variables" % (n, len(ks)), bad):
                self.m.replace_variable(self.vec(ks), ca.vertcat(*[self.sx(self.expr(depth=1)) for _ in range(n)]))
        elif what == "parametrize" and free:
            ks = ctx.sample(free, ctx.randint(1, min(2, len(free))))
            n = len(ks) + ctx.choice([-1, 1]) if len(ks) > 1 else 2
            with ctx.raises("transform-size", "%d expressions for %d controls" % (n, len(ks)), bad):
                self.m.parametrize_control(self.vec(ks), ca.vertcat(*[self.sx(self.expr(depth=1, kinds=["p"])) for _ in range(n)]))
        elif what == "connect" and free and len(s.v["y"]) > 1:
            with ctx.raises("transform-size", "one control connected to two variables", bad):
                self.m.connect(self.uni.elem[free[0]], self.vec(s.v["y"][:2]), replace=ctx.chance())
        elif what == "asked" and len(s.v["u"]) > 1:
            with ctx.raises("transform-size", "asking about two controls at once", bad):
                self.m.control_is_parametrized(self.vec(s.v["u"][:2]))
        elif what == "half" and free and s.par:
            # one control is free, the other is parametrized already
            f, k = ctx.choice(free), ctx.choice(s.par)
            with ctx.raises("parametrize-twice", "a control already parametrized, after a free one", ValueError):
                self.m.parametrize_control(self.vec([f, k]), ca.SX([1.0, 2.0]))

    def connect(self):
        s, ctx = self.s, self.ctx
        free = self.free_controls()
        if not free or not s.v["y"]:
            return
        n = ctx.randint(1, min(2, len(free), len(s.v["y"])))
        us, ys = ctx.sample(free, n), ctx.sample(s.v["y"], n)
        rep = ctx.chance()
        ctx.note("connect", [self.uni.name[k] for k in us], [self.uni.name[k] for k in ys], "replace=%s" % rep)
        self.m.connect(self.vec(us), self.vec(ys), replace=rep)
        if rep:
            s.subst({u: ("v", y) for u, y in zip(us, ys)})
        else:
            s.alg += [("-", ("v", u), ("v", y)) for u, y in zip(us, ys)]
            s.v["y"] += us
        keep = [(k, t) for k, t in zip(s.v["u"], s.u_expr) if k not in us]
        s.v["u"], s.u_expr = [k for k, _ in keep], [t for _, t in keep]
        s.u_par = [k for k in s.u_par if k not in us]

    def absorb(self, others, how=None, extra=()):
        """Composition: include_models or merge; the parts keep their own content."""
        s, ctx = self.s, self.ctx
        ms = [o.m for o in others]
        how = how or ctx.choice(["include", "merge"])
        arg = ms[0] if len(ms) == 1 and ctx.chance() else ms
        if how == "include":
            self.m.include_models(arg)
        elif extra:
            e = ca.vertcat(*[self.sx(t) for t in extra])
            self.m.merge(arg, e)
        else:
            self.m.merge(arg)
        for o in others:
            sub = {o.s.t: ("v", s.t), o.s.tau: ("v", s.tau)}
            for kind in KINDS:
                s.v[kind] += o.s.v[kind]
            s.u_par += o.s.v["u"]
            s.u_expr += [("v", k) for k in o.s.v["u"]]
            s.ode.update({k: ex.sub(t, sub) for k, t in o.s.ode.items()})
            s.alg += [ex.sub(t, sub) for t in o.s.alg]
        s.alg += list(extra)
        ctx.note(how, "of %d models" % len(others), "connecting", [self.show(t) for t in extra])

    def complete(self):
        """Give every state an equation and every algebraic variable one, if needed."""
        und = self.undefined()
        if und:
            trees = [self.expr() for _ in und]
            self.m.include_equations(ode=[self.sx(t) for t in trees], x=[self.uni.elem[k] for k in und])
            self.s.ode.update(zip(und, trees))

    # ------------------------------------------------------- observation
    def observe(self, what="model"):
        observe(self.ctx, self.m, self.s, self.uni, what)


def observe(ctx, m, s, uni, what="model"):
    ctx.event("observations")
    for kind in KINDS:
        vec = getattr(m, kind)
        want = [uni.elem[k] for k in s.v[kind]]
        nm = [uni.name[k] for k in s.v[kind]]
        ctx.eq(getattr(m, "n_" + kind), len(want), "counts", "%s: number of %s" % (what, kind))
        ctx.check(
            same_symbols(vec, want), "variable-vectors", lambda: "%s.%s is %s, expected %s" % (what, kind, vec, nm)
        )
        ctx.eq(list(getattr(m, kind + "_names")), nm, "variable-names", "%s: names of %s" % (what, kind))
    ctx.check(
        same_symbols(m.u_par, [uni.elem[k] for k in s.u_par]),
        "control-parameters",
        lambda: "%s.u_par is %s, expected %s" % (what, m.u_par, [uni.name[k] for k in s.u_par]),
    )
    ctx.eq(m.n_u_par, len(s.u_par), "control-parameters", "n_u_par")
    ctx.eq(m.x_0.numel(), len(s.v["x"]), "initial-condition-symbols", "%s: initial condition symbols" % what)
    ctx.eq(m.system_type, "dae" if s.v["y"] else "ode", "system-type", what)
    ctx.eq(bool(m.is_parametrized()), bool(s.par), "parametrized", what)
    for k in s.v["u"]:
        ctx.eq(bool(m.control_is_parametrized(uni.elem[k])), k in s.par, "parametrized", "%s: %s" % (what, uni.name[k]))
    # the equations, evaluated at two random points
    und = [k for k in s.v["x"] if s.ode[k] is None]
    order = [k for k in s.v["x"] if s.ode[k] is not None]
    for _ in range(2):
        uni.resample()
        ode, alg, ue = uni.eval([m.ode, m.alg, m.u_expr])
        ctx.close(ode, [ex.num(s.ode[k], uni.val) for k in order], "differential-equations", "%s ode (%d without equation)" % (what, len(und)), atol=1e-8)
        ctx.close(alg, [ex.num(t, uni.val) for t in s.alg], "algebraic-equations", "%s alg" % what, atol=1e-8)
        ctx.close(ue, [ex.num(t, uni.val) for t in s.u_expr], "control-expressions", "%s control expressions" % what, atol=1e-8)


def observe_queries(ctx, m, s, uni):
    """Membership and look-up by name."""
    import re

    ks = s.symbols()
    inside = ctx.sample(ks, min(3, len(ks)))
    for k in inside:
        ctx.check(m.has_variable(uni.elem[k]), "has-variable", lambda: "has_variable(%s) is False" % uni.name[k])
    outside = [k for k in uni.elem if k not in ks and k not in (s.t, s.tau)]
    for k in ctx.sample(outside, min(3, len(outside))):
        ctx.check(not m.has_variable(uni.elem[k]), "has-variable", lambda: "has_variable(%s) is True after it left the model" % uni.name[k])
    allv = [(kind, k) for kind in KINDS for k in s.v[kind]]
    if allv:
        kind, k = ctx.choice(allv)
        pat = "^" + re.escape(uni.name[k]) + "$"
        n = sum(1 for _, q in allv if uni.name[q] == uni.name[k])
        got = m.get_variables_by_names(pat)
        want = [q for _, q in allv if uni.name[q] == uni.name[k]]
        ctx.check(
            len(got) == len(want) and all(ca.is_equal(g, uni.elem[w], 0) for g, w in zip(got, want)),
            "lookup",
            lambda: "%d variables are called %s, found %s" % (len(want), uni.name[k], got),
        )
        if n == 1:
            got = m.get_variable_by_name(pat)
            ctx.check(ca.is_equal(got, uni.elem[k], 0), "lookup", lambda: "looked up %s, got %s" % (uni.name[k], got))
            got = m.get_variable_by_name(pat, var_type=kind)
            ctx.check(ca.is_equal(got, uni.elem[k], 0), "lookup", lambda: "looked up %s in %s, got %s" % (uni.name[k], kind, got))
            other = ctx.choice([q for q in KINDS if q != kind])
            with ctx.raises("lookup", "a %s looked up among the %s" % (kind, other), ValueError):
                m.get_variable_by_name(pat, var_type=other)
        pre = "^" + re.escape(uni.name[k].split("_")[0])
        got = m.get_variables_by_names(pre)
        want = [q for kk in KINDS for q in s.v[kk] if re.match(pre, uni.name[q])]
        ctx.check(
            len(got) == len(want) and all(ca.is_equal(g, uni.elem[w], 0) for g, w in zip(got, want)),
            "lookup",
            lambda: "regex %s found %s, expected %s" % (pre, got, [uni.name[w] for w in want]),
        )
        if len(want) > 1:
            with ctx.raises("lookup", "an ambiguous name", ValueError):
                m.get_variable_by_name(pre)
    with ctx.raises("lookup", "an unknown name", ValueError):
        m.get_variable_by_name("no_such_variable_anywhere")
    # what the integrator is given
    if s.complete() and s.v["x"] and (s.v["y"] or not s.alg):
        d = m.get_dae_system()
        ctx.check(same_symbols(d.x, [uni.elem[k] for k in s.v["x"]]), "dae-system", lambda: "dae x %s" % d.x)
        if s.v["y"]:
            ctx.check(same_symbols(d.y, [uni.elem[k] for k in s.v["y"]]), "dae-system", lambda: "dae y %s" % d.y)
        par = s.v["p"] + s.v["theta"] + s.u_par
        ctx.check(same_symbols(d.p, [uni.elem[k] for k in par]), "dae-system", lambda: "dae p %s" % d.p)
        ode, alg = uni.eval([d.ode, d.alg])
        ctx.close(ode, [ex.num(s.ode[k], uni.val) for k in s.v["x"]], "dae-system", "ode of the DAE system", atol=1e-8)
        ctx.close(alg, [ex.num(t, uni.val) for t in s.alg], "dae-system", "alg of the DAE system", atol=1e-8)
    groups = [[s.t], s.v["x"], s.v["y"], s.v["p"], s.v["theta"], s.u_par]
    got = list(m.all_sym)
    ctx.eq(len(got), 6, "all-symbols", "groups in all_sym")
    for g, w in zip(got, groups):
        ctx.check(same_symbols(g, [uni.elem[k] for k in w]), "all-symbols", lambda: "group %s, expected %s" % (g, [uni.name[k] for k in w]))
