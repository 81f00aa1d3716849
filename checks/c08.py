import re

import casadi as ca
import numpy as np

from vfw.core import arr, scenario
from vfw.env import SX_sym, dm
from vfw.freeze import Frozen
from yaocptool.util import (
    find_variables_in_vector_by_name,
    find_variables_indices_in_vector,
    remove_variables_from_vector,
    remove_variables_from_vector_by_indices,
)
from yaocptool.util.util import is_equality, is_inequality

RULE = (
    "Random vectors of symbols (SX and MX, equal names included) and numbers; every look-up and removal is compared with the "
    "same operation on a plain list of symbol identities."
)
ASSUMPTIONS = []


def pool(ctx, n, mx=False):
    """n distinct symbols, some with equal names."""
    nm = ["a", "b", "a", "x_1", "x_10", "x", "y", "tank_h"]
    cls = ca.MX if mx else ca.SX
    return [cls.sym(ctx.choice(nm)) for _ in range(n)]


def ident(vec, syms):
    out = []
    for i in range(vec.numel()):
        hit = [j for j, s in enumerate(syms) if ca.is_equal(vec[i], s, 0)]
        out.append(hit[0] if hit else None)
    return out


@scenario("C08", quick=400, thorough=2000)
def find_indices(ctx):
    n = ctx.randint(0, 8)
    syms = pool(ctx, n + 3)
    v = ca.vertcat(*syms[:n]) if n else ca.SX(0, 1)
    pick = ctx.sample(range(n + 3), ctx.randint(0, min(5, n + 3)))
    q = ca.vertcat(*[syms[i] for i in pick]) if pick else ca.SX(0, 1)
    got = list(find_variables_indices_in_vector(q, v))
    ctx.note("find", n, pick, [s.name() for s in syms])
    ctx.eq(got, [i for i in pick if i < n], "find-indices", "positions of %s in a vector of %d" % (pick, n))
    # an element that occurs twice is found at both places
    if n:
        j = ctx.randint(0, n - 1)
        w = ca.vertcat(v, syms[j])
        ctx.eq(sorted(find_variables_indices_in_vector(syms[j], w)), [j, n], "find-indices", "repeated element")


@scenario("C08", quick=400, thorough=2000)
def removal(ctx):
    n = ctx.randint(1, 8)
    syms = pool(ctx, n + 2)
    v = ca.vertcat(*syms[:n])
    pick = ctx.sample(range(n), ctx.randint(1, n))
    q = ca.vertcat(*[syms[i] for i in pick])
    r = remove_variables_from_vector(q, v)
    keep = [i for i in range(n) if i not in pick]
    ctx.note("remove", n, pick)
    ctx.eq(ident(r, syms), keep, "remove-variables", "what is left")
    ctx.eq(r.shape[1] if keep else r.numel(), 1 if keep else 0, "remove-variables", "shape")
    ctx.eq(ident(v, syms), list(range(n)), "inputs-unchanged", "the vector given")
    with ctx.raises("remove-absent", "removing something that is not there", ValueError):
        remove_variables_from_vector(syms[n], v)
    # the result of emptying a vector can grow again
    e = remove_variables_from_vector(v, v)
    ctx.eq(ca.vertcat(e, syms[n]).shape, (1, 1), "remove-variables", "growing an emptied vector")
    # by position, symbols or numbers, positive or negative
    idx = [i if ctx.chance(0.7) else i - n for i in pick]
    if ctx.chance(0.2):
        idx = idx + idx[:1]
    fr = Frozen(ctx, idx=idx)
    r2 = remove_variables_from_vector_by_indices(idx, v)
    ctx.eq(ident(r2, syms), keep, "remove-by-position", "what is left after removing %s of %d" % (idx, n))
    vals = ctx.rng.uniform(-1, 1, n)
    r3 = remove_variables_from_vector_by_indices(idx, dm(vals))
    fr.verify("remove by position")
    ctx.close(arr(r3).reshape(-1), vals[keep], "remove-by-position", "numbers left")
    ctx.eq(ident(remove_variables_from_vector_by_indices([], v), syms), list(range(n)), "remove-by-position", "removing nothing")
    for bad in (n, n + 3, -n - 1):
        with ctx.raises("out-of-range", "position %d of %d" % (bad, n), ValueError):
            remove_variables_from_vector_by_indices([bad], v)
    # column of an MX (bounds and multipliers are handled so too)
    mxv = ca.MX.sym("w", n)
    r4 = remove_variables_from_vector_by_indices(idx, mxv)
    f = ca.Function("f", [mxv], [r4])(dm(vals))
    ctx.close(arr(f).reshape(-1), vals[keep], "remove-by-position", "MX left")


@scenario("C08", quick=240, thorough=1000)
def by_name(ctx):
    n = ctx.randint(0, 8)
    syms = pool(ctx, n)
    v = ca.vertcat(*syms) if n else ca.SX(0, 1)
    names = [s.name() for s in syms]
    qs = ctx.sample(["a", "b", "x", "x_1", "x_10", "tank_h", "zz", "x_.*", "^x$", ".*h$", "[ab]"], ctx.randint(1, 3))
    exact = ctx.chance()
    arg = qs if len(qs) > 1 or ctx.chance() else qs[0]
    fr = Frozen(ctx, arg=arg)
    got = find_variables_in_vector_by_name(arg, v, exact=exact)
    fr.verify("look-up by name")
    want = [i for q in qs for i in range(n) if (names[i] == q if exact else re.match(q, names[i]))]
    ctx.note("names", names, qs, "exact" if exact else "regex")
    ids = [next((j for j, s in enumerate(syms) if ca.is_equal(g, s, 0)), None) for g in got]
    ctx.eq(ids, want, "by-name", "%s in %s" % (qs, names))


@scenario("C08", quick=240, thorough=960)
def relations(ctx):
    """Equalities and inequalities are told apart, for SX and MX."""
    for cls in (ca.SX, ca.MX):
        x, y = cls.sym("x"), cls.sym("y")
        a = ctx.choice([x, x + y, ca.sin(x), 2 * x])
        b = ctx.choice([y, y * 3, ca.cos(y) + 1])
        c = round(ctx.uniform(0.5, 2), 3)
        table = [
            (a == b, True, False),
            (a == c, True, False),
            (a <= b, False, True),
            (a < b, False, True),
            (a >= b, False, True),
            (a > c, False, True),
            (a <= c, False, True),
            (a + b, False, False),
            (a, False, False),
            (a * c, False, False),
            (a != b, False, False),
        ]
        for e, eq, ineq in table:
            ctx.eq(bool(is_equality(e)), eq, "is-equality", str(e))
            ctx.eq(bool(is_inequality(e)), ineq, "is-inequality", str(e))
        ctx.note("relations", str(a), str(b), c)
    for v in (1, 2.0, "a", None, ca.DM(1)):
        ctx.eq(bool(is_equality(v)), False, "is-equality", repr(v))
        ctx.eq(bool(is_inequality(v)), False, "is-inequality", repr(v))
