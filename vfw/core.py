"""Scenario registry, case context (monitors) and small numeric helpers.

A *scenario* is a generator of workloads on the real code: ``fn(ctx)`` draws its
inputs from ``ctx.rng`` and reports to monitors through ``ctx.check`` and
friends.  A *case* is (scenario, index); everything random in it comes from
(VERIF_SEED, scenario, index), so that a case can be replayed alone.
"""
import contextlib
import hashlib
import zlib

import numpy as np

SCENARIOS = {}


class Violation(Exception):
    def __init__(self, mech, msg):
        Exception.__init__(self, "[%s] %s" % (mech, msg))
        self.mech = mech
        self.msg = msg


class Skip(Exception):
    pass


class Scenario:
    def __init__(self, prop, name, fn, quick, thorough, timeout, known):
        self.prop, self.name, self.fn = prop, name, fn
        self.quick, self.thorough = quick, thorough
        self.timeout = timeout
        self.known = known or {}


def scenario(prop, quick=10, thorough=100, timeout=90, known=None):
    def deco(fn):
        SCENARIOS.setdefault(prop, {})[fn.__name__] = Scenario(
            prop, fn.__name__, fn, quick, thorough, timeout, known
        )
        return fn

    return deco


def case_seed(seed, prop, name, i):
    return [int(seed) & 0x7FFFFFFF, zlib.crc32((prop + "/" + name).encode()), int(i)]


class Ctx:
    """What a scenario sees: randomness, the monitors, and the event log."""

    def __init__(self, seed, prop, name, index, tier):
        self.rng = np.random.default_rng(case_seed(seed, prop, name, index))
        self.index, self.tier, self.name, self.prop = index, tier, name, prop
        self.events = {}
        self.monitors = {}
        self.violations = []
        self.log = []
        self._sig = hashlib.sha256()
        self.nontrivial = False

    # ---- recording
    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def note(self, *parts):
        """A line of the history of this case (kept for the replay and the sample)."""
        s = " ".join(str(p) for p in parts)
        if len(self.log) < 200:
            self.log.append(s[:300])
        self._sig.update(s.encode())

    def signature(self):
        return self._sig.hexdigest()[:16]

    # ---- monitors
    def check(self, cond, mech, msg=""):
        self.monitors[mech] = self.monitors.get(mech, 0) + 1
        if not bool(cond):
            if callable(msg):
                msg = msg()
            self.violations.append((mech, str(msg)[:1000]))
        return bool(cond)

    def eq(self, a, b, mech, msg=""):
        return self.check(a == b, mech, lambda: "%s: got %r, expected %r" % (msg, a, b))

    def close(self, got, want, mech, msg="", rtol=1e-7, atol=1e-9):
        self.monitors[mech] = self.monitors.get(mech, 0) + 1
        try:
            g, w = arr(got), arr(want)
            if g.shape != w.shape:
                if g.size == w.size and 1 in (g.ndim, w.ndim):
                    g, w = g.ravel(), w.ravel()
                elif 1 in (g.size, w.size) and g.size == w.size:
                    g, w = g.ravel(), w.ravel()
                else:
                    self.violations.append(
                        (mech, "%s: shape %s, expected %s" % (msg, g.shape, w.shape))
                    )
                    return False
            # equal infinities agree; any NaN is a disagreement
            ok = np.isclose(g, w, rtol=rtol, atol=atol) & ~np.isnan(g)
        except Violation:
            raise
        if not np.all(ok):
            bad = np.argwhere(~ok)[:4].tolist()
            self.violations.append(
                (
                    mech,
                    "%s: got %s, expected %s (first differences at %s; rtol=%g atol=%g)"
                    % (msg, fmt(g), fmt(w), bad, rtol, atol),
                )
            )
            return False
        return True

    def le(self, a, b, mech, msg="", tol=1e-6):
        self.monitors[mech] = self.monitors.get(mech, 0) + 1
        a, b = arr(a), arr(b)
        if not np.all(a <= b + tol):
            self.violations.append(
                (mech, "%s: %s not <= %s (tol %g)" % (msg, fmt(a), fmt(b), tol))
            )
            return False
        return True

    def raises(self, mech, msg, exc=Exception):
        return _Raises(self, mech, msg, exc)

    def skip(self, why):
        raise Skip(why)

    # ---- randomness
    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def turn(self, seq):
        """Every option in turn (case i takes option i): none is left out by chance."""
        return seq[self.index % len(seq)]

    def chance(self, p=0.5):
        return bool(self.rng.random() < p)

    def randint(self, a, b):
        """inclusive"""
        return int(self.rng.integers(a, b + 1))

    def uniform(self, a, b, *shape):
        r = self.rng.uniform(a, b, shape or None)
        return float(r) if not shape else r

    def sample(self, seq, k):
        idx = self.rng.permutation(len(seq))[:k]
        return [seq[int(j)] for j in idx]

    def perm(self, seq):
        return self.sample(list(seq), len(seq))


class _Raises(contextlib.AbstractContextManager):
    def __init__(self, ctx, mech, msg, exc):
        self.ctx, self.mech, self.msg, self.exc = ctx, mech, msg, exc

    def __exit__(self, typ, val, tb):
        if typ is None:
            self.ctx.check(False, self.mech, "%s: accepted, an error was expected" % self.msg)
            return False
        if issubclass(typ, self.exc):
            self.ctx.check(True, self.mech)
            return True
        return False


def arr(v):
    import casadi as ca

    if isinstance(v, (ca.SX, ca.MX)):
        v = ca.DM(v)
    if isinstance(v, ca.DM):
        v = np.array(v.full(), dtype=float)
        if v.shape[1] == 1:
            v = v[:, 0]
        return v
    if isinstance(v, (list, tuple)):
        parts = [arr(i) for i in v]
        if parts and all(p.shape == parts[0].shape for p in parts):
            return np.array(parts, dtype=float)
        return np.concatenate([p.ravel() for p in parts]) if parts else np.zeros(0)
    return np.array(v, dtype=float)


def fmt(a):
    a = np.asarray(a)
    if a.size > 12:
        return np.array2string(a.ravel()[:12], precision=8) + "...(%d)" % a.size
    return np.array2string(a, precision=10).replace("\n", " ")
