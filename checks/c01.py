import contextlib
import io

from vfw.core import scenario
from vfw.shadow import KINDS, Machine, observe_queries

RULE = (
    "Random histories of create/include/remove/look-up/equation operations on a model (five kinds of variables, "
    "scalar, vector and matrix sizes, name prefixes), compared after every operation with a shadow model."
)
ASSUMPTIONS = ["CasADi evaluates expressions correctly", "operations documented as errors must be rejected and leave the model unchanged"]


def history(ctx, n_ops, prefix=False):
    mc = Machine(ctx, name=ctx.choice(["m", "tank", "a_b"]), prefix=prefix, reuse=ctx.turn([0.0, 0.2]))
    ops = [mc.create] * 5 + [mc.include] * 4 + [mc.remove] * 4 + [mc.duplicate_state, mc.remove_absent, mc.reject_partly] + [mc.parametrize] * ctx.turn([0, 0, 1])
    ops += [mc.ode_keyword, mc.ode_named, mc.ode_der, mc.alg_keyword]
    mc.observe()
    for _ in range(n_ops):
        ctx.choice(ops)()
        ctx.event("operations")
        mc.observe()
        if ctx.chance(0.3):
            observe_queries(ctx, mc.m, mc.s, mc.uni)
    observe_queries(ctx, mc.m, mc.s, mc.uni)
    return mc


@scenario("C01", quick=400, thorough=1600)
def variable_histories(ctx):
    history(ctx, 12 if ctx.tier == "quick" else 25)


@scenario("C01", quick=100, thorough=400)
def prefixed_histories(ctx):
    history(ctx, 8, prefix=True)


@scenario("C01", quick=150, thorough=600)
def fill_and_empty(ctx):
    """Grow one kind of variables and take everything out again, in random order."""
    mc = Machine(ctx)
    kind = ctx.choice(KINDS)
    for _ in range(ctx.randint(1, 4)):
        ctx.choice([mc.create, mc.include])(kind)
        mc.observe()
    other = ctx.choice(KINDS)
    mc.create(other)
    while mc.s.v[kind] and mc.removable(kind):
        mc.remove(kind)
        mc.observe()
    mc.create(kind)
    mc.observe()
    observe_queries(ctx, mc.m, mc.s, mc.uni)


@scenario("C01", quick=60, thorough=240)
def models_do_not_share(ctx):
    """Interleaved histories of two models: what is done to one never shows in the other."""
    a, b = Machine(ctx, name="a"), None
    b = Machine(ctx, name="b", uni=a.uni)
    b.tag = "b"
    for _ in range(14):
        mc = ctx.choice([a, b])
        ctx.choice([mc.create, mc.include, mc.remove, mc.ode_named, mc.ode_der, mc.alg_keyword])()
        ctx.event("operations")
        a.observe("a")
        b.observe("b")
    ctx.check(a.m.t is not b.m.t and a.m.t.name() == "t", "variable-vectors", "time variable")


def said(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return out.getvalue()


@scenario("C01", quick=60, thorough=240)
def listings(ctx):
    """What the printed summaries say is what the model contains."""
    mc = history(ctx, ctx.randint(3, 9))
    m, s = mc.m, mc.s
    rows = [l.split(" | ") for l in said(m.print_variables).splitlines() if " | " in l]
    cols = {k: [] for k in KINDS}
    for i, r in enumerate(rows):
        for kind, cell in zip(("x", "y", "u", "p", "theta"), r):
            if cell.strip():
                cols[kind].append([q.strip() for q in cell.split(":", 1)])
    for kind in KINDS:
        ctx.eq(cols[kind], [[str(i), mc.uni.name[k]] for i, k in enumerate(s.v[kind])], "listing", "printed %s variables" % kind)
    text = " ".join(said(m.print_summary).replace("|", " ").split())
    for word, k in (("states (x)", len(s.v["x"])), ("algebraic (y)", len(s.v["y"])), ("controls (u)", len(s.v["u"])), ("parameters (p)", len(s.v["p"])),
                    ("finite elem. param. (theta)", len(s.v["theta"])), ("ODE", m.ode.numel()), ("algebraic eq.", len(s.alg))):
        ctx.check(("Number of %s: %d " % (word, k)) in text + " ", "listing", lambda: "%d %s, printed: %s" % (k, word, text))
    ctx.check(m.name in text and m.name in str(m), "listing", "the name")
    ctx.event("listings")
