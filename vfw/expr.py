"""Random expressions with two independent readings: a CasADi one, given to the
code under test, and a plain Python one, which the oracles evaluate."""
import math

import casadi as ca

UN = {
    "sin": (ca.sin, math.sin),
    "cos": (ca.cos, math.cos),
    "tanh": (ca.tanh, math.tanh),
    "sq": (lambda a: a * a, lambda a: a * a),
    "neg": (lambda a: -a, lambda a: -a),
}


def gen(ctx, keys, depth=3, const=True):
    r = ctx.uniform(0, 1)
    if depth == 0 or r < 0.2:
        if keys and (not const or ctx.chance(0.8)):
            return ("v", ctx.choice(keys))
        return ("c", round(ctx.uniform(-2, 2), 3))
    if r < 0.55:
        op = ctx.choice(["+", "-", "*"])
        return (op, gen(ctx, keys, depth - 1, const), gen(ctx, keys, depth - 1, const))
    if r < 0.75:
        return (ctx.choice(list(UN)), gen(ctx, keys, depth - 1, const))
    # affine in several variables: distinguishes coefficients and positions
    e = ("c", round(ctx.uniform(-1, 1), 3))
    for k in ctx.sample(keys, min(len(keys), ctx.randint(1, 3))):
        e = ("+", e, ("*", ("c", round(ctx.uniform(0.3, 2), 3)), ("v", k)))
    return e


def sx(t, env):
    op = t[0]
    if op == "v":
        return env[t[1]]
    if op == "c":
        return ca.SX(t[1])
    if op == "z":
        return ca.SX(1, 1)  # structural zero
    if op == "+":
        return sx(t[1], env) + sx(t[2], env)
    if op == "-":
        return sx(t[1], env) - sx(t[2], env)
    if op == "*":
        return sx(t[1], env) * sx(t[2], env)
    return UN[op][0](sx(t[1], env))


def num(t, val):
    op = t[0]
    if op == "v":
        return val[t[1]]
    if op == "c":
        return t[1]
    if op == "z":
        return 0.0
    if op == "+":
        return num(t[1], val) + num(t[2], val)
    if op == "-":
        return num(t[1], val) - num(t[2], val)
    if op == "*":
        return num(t[1], val) * num(t[2], val)
    return UN[op][1](num(t[1], val))


def sub(t, m):
    """Simultaneous substitution key -> tree."""
    op = t[0]
    if op == "v":
        return m.get(t[1], t)
    if op == "c":
        return t
    return (op,) + tuple(sub(a, m) for a in t[1:])


def keys_of(t, acc=None):
    acc = set() if acc is None else acc
    if t[0] == "v":
        acc.add(t[1])
    elif t[0] != "c":
        for a in t[1:]:
            keys_of(a, acc)
    return acc


def show(t, nm):
    op = t[0]
    if op == "v":
        return str(nm.get(t[1], t[1]))
    if op == "c":
        return "%g" % t[1]
    if op == "z":
        return "00"
    if op in "+-*":
        return "(%s%s%s)" % (show(t[1], nm), op, show(t[2], nm))
    return "%s(%s)" % (op, show(t[1], nm))
