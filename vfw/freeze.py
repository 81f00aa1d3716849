"""Argument-mutation monitor: snapshots of what the caller passed, compared after the call."""
import copy

import casadi as ca
import numpy as np


def snap(v):
    if isinstance(v, dict):
        return ("dict", [(k, snap(v[k])) for k in v])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(i) for i in v])
    if isinstance(v, ca.DM):
        return ("DM", v.shape, np.array(v.full()).tobytes())
    if isinstance(v, np.ndarray):
        return ("np", v.shape, v.tobytes())
    if isinstance(v, (ca.SX, ca.MX)):
        return ("sym", str(v))
    if isinstance(v, (int, float, str, bool, type(None))):
        return ("val", repr(v))
    return ("obj", id(v))


class Frozen:
    def __init__(self, ctx, mech="inputs-unchanged", **args):
        self.ctx, self.mech, self.args = ctx, mech, args
        self.before = {k: snap(v) for k, v in args.items()}

    def verify(self, what=""):
        for k, v in self.args.items():
            now = snap(v)
            self.ctx.check(now == self.before[k], self.mech, lambda: "%s: argument %s was changed: %s" % (what, k, v))
