import concurrent.futures
import io
import os
import pickle
import signal
import sys
import time

import casadi as ca
import numpy as np

from vfw import expr
from vfw.core import scenario
from yaocptool.util import Timer, timeout

RULE = (
    "Random symbolic expressions travel through the process-transport pickler (in process and through real worker "
    "processes, several messages, several threads); what arrives is compared by name, shape and evaluation, including "
    "the identity of symbols shared inside a message. Time-limited blocks run bodies that finish, overrun, fail or "
    "swallow the interruption, and the outcome, the flag, the pending alarm and the signal handler are observed."
)
ASSUMPTIONS = ["limits are whole seconds in the main thread (the interface's own restriction)", "timeout blocks are not nested"]

S = sys.modules["yaocptool.util.serializer"]


def echo(a):
    return a


def halves(a):
    """Work on what arrived: gradient of the second with respect to the first."""
    return [str(ca.jacobian(a[1], a[0]).shape), a[1] + 1, a[0]]


def message(ctx):
    """[symbols, expression of them] and a numeric function of the expression."""
    kind = ctx.choice([ca.SX, ca.SX, ca.MX])
    n = ctx.randint(1, 3)
    x = kind.sym(ctx.choice(["x", "a b", "very_long_name_of_a_symbol", "q_1"]), n)
    c = ctx.rng.uniform(-2, 2, n)
    e = ca.dot(ca.DM(c), x) + ca.sin(x[0]) * ctx.uniform(0.5, 2)
    if ctx.chance():
        e = ca.vertcat(e, x * 2)
    return x, e


def check(ctx, sent, got, what):
    x, e = sent
    X, E = got
    ctx.event("objects", 2)
    ctx.eq((type(X), X.shape, type(E), E.shape), (type(x), x.shape, type(e), e.shape), "transport", what + ": types and shapes")
    ctx.eq(str(X), str(x), "transport", what + ": names")
    p = ctx.rng.uniform(-1, 1, x.shape[0])
    try:
        F = ca.Function("F", [X], [E])
    except Exception as ex:
        ctx.check(False, "shared-symbols", "%s: the expression that arrived does not depend on the symbols that arrived with it (%s)" % (what, str(ex)[:80]))
        return
    ctx.close(F(p).full(), ca.Function("f", [x], [e])(p).full(), "transport", what + ": values", atol=1e-12)


@scenario("C18", quick=200, thorough=3000)
def pickled(ctx):
    for k in range(ctx.randint(1, 4)):
        # one message per pickler, as the process pools of the standard library do
        m = [message(ctx) for _ in range(ctx.randint(1, 3))]
        b = io.BytesIO()
        S.NewForkingPickler(b).dump([list(q) for q in m] + [{"n": 3, "d": ca.DM([1.0, 2.0])}])
        out = pickle.loads(b.getvalue())
        for i, q in enumerate(m):
            check(ctx, q, out[i], "message %d object %d" % (k, i))
        ctx.eq(out[-1]["n"], 3, "transport", "plain data")
        ctx.close(out[-1]["d"].full(), [[1.0], [2.0]], "transport", "numeric data")
        if ctx.chance():
            # several messages in flight, read out of order
            raw = []
            for q in m:
                b = io.BytesIO()
                S.NewForkingPickler(b).dump(list(q))
                raw.append(b.getvalue())
            for i in ctx.perm(range(len(m))):
                check(ctx, m[i], pickle.loads(raw[i]), "out of order %d" % i)
            ctx.event("reordered", len(m))


@scenario("C18", quick=200, thorough=2000)
def dumps_loads(ctx):
    c = S.CasadiPicklerDepickler()
    other = S.CasadiPicklerDepickler()
    alive = []  # a stream of CasADi's serializer refers to earlier objects: they must stay alive
    for k in range(ctx.randint(1, 5)):
        a, b = (c, other) if ctx.chance() else (other, c)
        q = message(ctx)
        alive.append(q)
        s = [a.dumps(i) for i in q]
        r = b.dumps(q[0])
        got = [a.loads(i) for i in s]
        check(ctx, q, got, "dumps/loads %d" % k)
        ctx.eq(str(b.loads(r)), str(q[0]), "transport", "a second serializer in between")


@scenario("C18", quick=4, thorough=30, timeout=120)
def workers(ctx):
    """Real processes; the library replaced multiprocessing's pickler when it was imported."""
    n = ctx.randint(2, 3)
    with concurrent.futures.ProcessPoolExecutor(n) as ex:
        sent, futs = [], []
        for _ in range(ctx.randint(4, 12)):
            q = message(ctx)
            sent.append(q)
            futs.append((ex.submit(echo, list(q)), ex.submit(halves, list(q))))
        for k, (q, (f, g)) in enumerate(zip(sent, futs)):
            check(ctx, q, f.result(timeout=60), "worker echo %d" % k)
            h = g.result(timeout=60)
            check(ctx, (q[0], q[1] + 1), (h[2], h[1]), "worker result %d" % k)
            ctx.eq(h[0], str((q[1].numel(), q[0].numel())), "transport", "worked on in the other process")
    ctx.event("messages", 4 * len(sent))


class Mine(Exception):
    pass


@scenario("C18", quick=24, thorough=200)
def limited(ctx):
    mine = lambda s, f: None
    old = signal.signal(signal.SIGALRM, mine)
    try:
        for k in range(ctx.randint(2, 4)):
            kind = ctx.choice(["finish", "finish", "overrun", "fail", "swallow", "wrapped"])
            if k and kind in ("overrun", "swallow", "wrapped") and ctx.chance(0.6):
                kind = "finish"
            raise_exc = ctx.chance()
            ctx.event("block-" + kind)
            if k == 0 or ctx.chance():
                t = timeout(seconds=1, raise_exc=raise_exc, error_message="too long")
            else:
                raise_exc = t.raise_exc  # the same limit, used again
            seen, after = None, False
            start = time.monotonic()
            try:
                with t as inside:
                    if kind in ("overrun", "swallow", "wrapped"):
                        try:
                            while time.monotonic() - start < 8:
                                time.sleep(0.02)
                        except TimeoutError as ex:
                            if kind == "overrun":
                                raise
                            if kind == "wrapped":
                                raise Mine() from ex
                    elif kind == "fail":
                        raise Mine()
                    after = True
            except BaseException as ex:
                seen = ex
            took = time.monotonic() - start
            what = "%s, raise_exc=%s" % (kind, raise_exc)
            ctx.check(took < 5, "limit", lambda: "%s: the block ran %.1f s with a limit of 1 s" % (what, took))
            ctx.eq(signal.alarm(0), 0, "alarm-cleared", what)
            ctx.check(signal.getsignal(signal.SIGALRM) is mine, "handler-restored", what)
            if kind == "finish":
                ctx.check(seen is None and after, "finished", lambda: "%s: %r" % (what, seen))
                ctx.check(not t.timedout, "flag", what)
            elif kind == "fail":
                ctx.check(isinstance(seen, Mine), "errors-propagate", lambda: "%s: %r" % (what, seen))
                ctx.check(not t.timedout, "flag", what)
            elif kind == "swallow":
                ctx.check(seen is None and after, "finished", lambda: "%s: %r" % (what, seen))
                ctx.check(bool(t.timedout), "flag", what)
            else:
                ctx.check(bool(t.timedout), "flag", what)
                if raise_exc:
                    ctx.check(isinstance(seen, Mine if kind == "wrapped" else TimeoutError), "limit-raises", lambda: "%s: %r" % (what, seen))
                    if kind == "overrun":
                        ctx.eq(str(seen), "too long", "limit-raises", "message")
                else:
                    ctx.check(seen is None, "limit-silent", lambda: "%s: %r" % (what, seen))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@scenario("C18", quick=40, thorough=300)
def timed(ctx):
    t = Timer()
    with ctx.raises("timer", "elapsed before the block ended"):
        t.elapsed
    d = ctx.uniform(0, 0.05)
    a = time.perf_counter()
    try:
        with t:
            with ctx.raises("timer", "elapsed inside the block"):
                t.elapsed
            time.sleep(d)
            if ctx.chance(0.3):
                raise Mine()
    except Mine:
        ctx.event("failed-blocks")
    b = time.perf_counter()
    ctx.check(d * 0.99 - 1e-3 <= t.elapsed <= b - a + 1e-3, "timer", lambda: "%g s for %g..%g" % (t.elapsed, d, b - a))
    ctx.close([t.elapsed_milisecs], [t.elapsed * 1000], "timer", "milliseconds")
