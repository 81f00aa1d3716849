import os
import pickle
import shutil
import tempfile

import casadi as ca
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from vfw.core import scenario
from vfw.env import dm
from vfw.freeze import Frozen
from yaocptool.modelling import DataSet, SimulationResult

RULE = (
    "Random histories of creating entries, inserting single samples and blocks, sorting, copying, extending, saving and "
    "loading run on data sets and simulation results; after every operation every entry of every live data set (copies "
    "included) is compared with a plain list of samples kept on the side, and tables and plots drawn from it with the same list."
)
ASSUMPTIONS = ["plots: piecewise-constant style (the other style is drawn by seaborn, which re-aggregates)", "tables: distinct times within an entry"]


class Shadow:
    def __init__(self):
        self.e = {}  # name -> [size, names, [(t, column)]]

    def copy(self):
        s = Shadow()
        s.e = {k: [a, list(b), list(c)] for k, (a, b, c) in self.e.items()}
        return s


def observe(ctx, ds, sh, what):
    ctx.eq(list(ds.data), list(sh.e), "entries", what)
    for k, (size, names, data) in sh.e.items():
        t, val = ds.get_entry(k)
        ctx.eq(ds.get_entry_size(k), size, "entries", "%s: size of %s" % (what, k))
        ctx.eq(list(ds.get_entry_names(k)), names, "entries", "%s: names of %s" % (what, k))
        ctx.eq(int(t.numel()), len(data), "samples", "%s: number of times in %s" % (what, k))
        if data:
            ctx.close(np.array(t.full()).ravel(), [a for a, _ in data], "samples", "%s: times of %s" % (what, k), atol=0)
            ctx.close(np.array(val.full()), np.array([c for _, c in data]).T, "samples", "%s: values of %s" % (what, k), atol=0)
    ctx.event("observations")


def block(ctx, size, unique=None):
    m = ctx.randint(1, 4)
    t = [round(ctx.uniform(-2, 5), 2) for _ in range(m)]
    if unique is not None:
        t = [unique.pop() for _ in range(m)]
    elif ctx.chance(0.2):
        t = [t[0]] * m
    elif ctx.chance(0.2):
        # hardly apart, in any order
        d = ctx.choice([1e-12, 1e-9, 1e-7, 1e-4])
        t = [t[0] + j * d for j in ctx.perm(range(m))]
    return t, ctx.rng.uniform(-3, 3, (size, m))


def insert(ctx, ds, sh, k, unique=None):
    size = sh.e[k][0]
    t, val = block(ctx, size, unique)
    how = ctx.choice(["list", "DM", "single"])
    if how == "single":
        t, val = t[:1], val[:, :1]
        if unique is None and ctx.chance(0.3):
            t = [ctx.randint(-2, 5)]
        tt = ctx.choice([t[0], dm(t[0])]) if unique is None or isinstance(t[0], float) else t[0]
    elif how == "list":
        if unique is None and ctx.chance(0.3):
            t = [int(q) if ctx.chance() else q for q in t]
        tt = list(t)
    else:
        tt = dm(t).T
    V = dm(val)
    fr = Frozen(ctx, time=tt, value=V)
    ds.insert_data(k, tt, V)
    fr.verify("insert_data")
    # what was handed in may be used again for something else
    V[0, 0] = 1e6
    if isinstance(tt, ca.DM):
        tt[0, 0] = 1e6
    sh.e[k][2].extend((a, val[:, i]) for i, a in enumerate(t))
    return "insert %s (%s)" % (k, how)


def order(sh, keys=None):
    for k in keys if keys is not None else sh.e:
        sh.e[k][2].sort(key=lambda s: s[0])


@scenario("C17", quick=450, thorough=2500)
def histories(ctx):
    live = [(DataSet(name="d"), Shadow())]
    where = tempfile.mkdtemp(prefix="vds")
    try:
        for step in range(ctx.randint(6, 16)):
            i = ctx.randint(0, len(live) - 1)
            ds, sh = live[i]
            op = ctx.choice(["create", "insert", "insert", "insert", "sort", "copy", "copy", "extend", "save", "wrong", "other", "write", "write"])
            if op == "create" or not sh.e:
                k, size = ctx.choice(["x", "y", "u", "est", "q 1"]), ctx.choice([1, 2, 3] * 4 + [11])
                names = None if ctx.chance() else ["%s%s" % (k, c) for c in "abcdefghijk"[:size]]
                fr = Frozen(ctx, names=names)
                ds.create_entry(k, size=size, **({} if names is None else {"names": names}))
                fr.verify("create_entry")
                sh.e[k] = [size, names or ["%s_%d" % (k, j) for j in range(size)], []]
                what = "create %s" % k
            elif op == "insert":
                what = insert(ctx, ds, sh, ctx.choice(list(sh.e)))
            elif op == "sort":
                some = None if ctx.chance(0.6) else ctx.sample(list(sh.e), ctx.randint(1, len(sh.e)))
                ds.sort(*([] if some is None else [some]))
                order(sh, some)
                what = "sort %s" % some
            elif op == "copy" and len(live) < 4:
                live.append((ds.get_copy(), sh.copy()))
                what = "copy"
            elif op == "other" and len(live) < 4:
                live.append((DataSet(name="o"), Shadow()))
                what = "new data set"
            elif op == "extend":
                od, os_ = live[ctx.randint(0, len(live) - 1)]
                if od is ds:
                    continue
                if any(k in sh.e and sh.e[k][0] != os_.e[k][0] for k in os_.e):
                    with ctx.raises("size-mismatch", "extending with an entry of another size"):
                        ds.extend(od)
                    observe(ctx, ds, sh, "rejected extension")
                    observe(ctx, od, os_, "source of a rejected extension")
                    continue
                ds.extend(od)
                for k, (size, names, data) in os_.e.items():
                    if k not in sh.e:
                        sh.e[k] = [size, list(names), []]
                    sh.e[k][2].extend(data)
                order(sh)
                what = "extend"
            elif op == "save":
                path = os.path.join(where, *(["sub%d" % step] if ctx.chance() else []), "file%d.p" % step)
                ds.save(path)
                with open(path, "rb") as f:
                    back = pickle.load(f)
                observe(ctx, back, sh, "saved and loaded")
                ctx.eq(type(back), type(ds), "saved", "type")
                ctx.eq(back.name, ds.name, "saved", "name")
                if len(live) < 4:
                    live.append((back, sh.copy()))
                what = "save"
            elif op == "write":
                # in place, as the attributes allow: only this data set may change
                k = ctx.choice(list(sh.e))
                e = ds.data[k]
                if sh.e[k][2] and ctx.chance(0.8):
                    c, r = ctx.randint(0, len(sh.e[k][2]) - 1), ctx.randint(0, sh.e[k][0] - 1)
                    t, col = sh.e[k][2][c]
                    new = ctx.uniform(10, 20)
                    if ctx.chance(0.3):
                        e.time[0, c] = t = round(new, 2)
                    else:
                        e.values[r, c] = new
                        col = np.array(col)
                        col[r] = new
                    sh.e[k][2][c] = (t, col)
                else:
                    r = ctx.randint(0, sh.e[k][0] - 1)
                    ds.data[k].names[r] = sh.e[k][1][r] = "new%d" % step
                what = "write in place in %s" % k
            elif op == "wrong":
                k = ctx.choice(list(sh.e))
                if ctx.chance():
                    # the right number of samples, of another size; or times that are not a row
                    n, size = ctx.randint(1, 3), sh.e[k][0]
                    with ctx.raises("wrong-rows", "samples of another size, or times in a column"):
                        if ctx.chance(0.7):
                            ds.insert_data(k, ca.DM.zeros(1, n), ca.DM.ones(size + (1 if size < 2 or ctx.chance() else -1), n))
                        else:
                            ds.insert_data(k, ca.DM.zeros(2, n), ca.DM.ones(size, n))
                    observe(ctx, ds, sh, "wrong rows")
                a, b = ctx.choice([(2, 3), (3, 2), (1, 2), (2, 1), (1, 0), (3, 0), (0, 1)])
                with ctx.raises("wrong-columns", "%d times, %d samples" % (a, b)):
                    ds.insert_data(k, ca.DM(1, a) if a != 1 or ctx.chance() else 0.5, ca.DM(sh.e[k][0], b) if b == 0 else dm(np.zeros((sh.e[k][0], b))))
                what = "wrong insert"
            else:
                continue
            ctx.event(op)
            ctx.note("%d: %s" % (i, what))
            for j, (d, s) in enumerate(live):
                observe(ctx, d, s, "%s, data set %d" % (what, j))
    finally:
        shutil.rmtree(where, ignore_errors=True)


@scenario("C17", quick=300, thorough=1200)
def tables(ctx):
    ds, sh = DataSet(), Shadow()
    grid = ctx.choice([0.25, 0.25, 1e-8, 1e5])
    for k in ctx.sample(["x", "y", "u", "est"], ctx.randint(1, 3)):
        size = ctx.choice([1, 2, 3] * 4 + [11])
        ds.create_entry(k, size=size)
        sh.e[k] = [size, ["%s_%d" % (k, j) for j in range(size)], []]
        times = [grid * j for j in ctx.perm(range(24))]
        for _ in range(ctx.randint(1, 4)):
            insert(ctx, ds, sh, k, times)
    if ctx.chance(0.3):
        ds.create_entry("none", size=2)
        sh.e["none"] = [2, ["none_0", "none_1"], []]
    df = ds.as_dataframe()
    ctx.eq(df.index.name, "time", "table", "index name")
    want = {}
    for k, (size, names, data) in sh.e.items():
        for t, c in data:
            for j in range(size):
                want[(t, k, names[j])] = c[j]
    cols = [(k, n) for k in sh.e if sh.e[k][2] for n in sh.e[k][1]]
    ctx.eq(sorted(c for c in df.columns if c[0] != "none"), sorted(cols), "table", "columns")
    ctx.eq(sorted(float(t) for t in df.index), sorted({t for t, _, _ in want}), "table", "rows")
    for t, row in df.iterrows():
        for k, n in cols:
            w = want.get((float(t), k, n))
            g = float(row[(k, n)])
            ctx.check(np.isnan(g) if w is None else g == w, "table", lambda: "%s %s at %g: %g instead of %s" % (k, n, t, g, w))
    observe(ctx, ds, sh, "as_dataframe")


@scenario("C17", quick=150, thorough=600)
def plots(ctx):
    ds, sh = DataSet(), Shadow()
    for k in ("x", "y", "u"):
        size = ctx.randint(1, 3)
        names = ["%s%s" % (k, c) for c in ctx.sample(["_a", "_b", "_ab", "lpha"], size)]
        ds.create_entry(k, size=size, names=names, plot_style="step")
        sh.e[k] = [size, names, []]
        for _ in range(ctx.randint(1, 3)):
            insert(ctx, ds, sh, k)
    plt.close("all")
    want = []
    if ctx.chance(0.3):
        args = ctx.choice([[], ["all"]])
        want = [[(k, i) for i in range(sh.e[k][0])] for k in ("x", "y", "u")]
        figs = ds.plot(*args, show=False)
    else:
        pl = []
        for _ in range(ctx.randint(1, 3)):
            d, w = {}, []
            for k in ctx.sample(["x", "y", "u"], ctx.randint(1, 3)):
                size, names, _ = sh.e[k]
                how = ctx.choice(["all", "indices", "names", "regex"])
                if how == "all":
                    d[k] = "all"
                    w += [(k, i) for i in range(size)]
                elif how == "indices":
                    d[k] = ctx.sample(list(range(size)), ctx.randint(1, size))
                    w += [(k, i) for i in d[k]]
                elif how == "names":
                    nm = ctx.choice(names)
                    d[k] = [nm + "$"]
                    w += [(k, names.index(nm))]
                else:
                    d[k] = [k + ".*"]
                    w += [(k, i) for i in range(size)]
            pl.append(d)
            want.append(w)
        args = pl
        keep = [dict((k, list(q) if isinstance(q, list) else q) for k, q in d.items()) for d in pl]
        figs = ds.plot(pl, show=False) if ctx.chance() else ds.plot(*pl, show=False)
        ctx.eq(pl, keep, "inputs-unchanged", "the selection of the caller")
    ctx.eq(len(figs), len(want), "plots", "one figure per selection")
    for fig, w in zip(figs, want):
        got = [(q.get_label(), np.asarray(q.get_xdata(), float).ravel(), np.asarray(q.get_ydata(), float).ravel()) for q in fig.axes[0].get_lines()]
        exp = []
        for k, i in w:
            size, names, data = sh.e[k]
            exp.append((names[i], np.array([t for t, _ in data]), np.array([c[i] for _, c in data])))
        key = lambda q: (q[0], q[1].size, tuple(q[2]))
        got.sort(key=key)
        exp.sort(key=key)
        ctx.eq([q[0] for q in got], [q[0] for q in exp], "plots", "curves")
        for a, b in zip(got, exp):
            ctx.check(a[1].shape == b[1].shape and np.array_equal(a[1], b[1]) and np.array_equal(a[2], b[2]), "plots", lambda: "data of curve %s" % a[0])
    observe(ctx, ds, sh, "plot")
    plt.close("all")


@scenario("C17", quick=240, thorough=960)
def simulation_results(ctx):
    n = [ctx.randint(1, 2), ctx.randint(0, 2), ctx.randint(0, 2)]
    names = [["%s%d" % (c, i) for i in range(k)] for c, k in zip("xyu", n)]
    cut = sorted(round(ctx.uniform(0, 10), 2) for _ in range(ctx.randint(2, 4)))
    total = None
    pieces = []
    for a, b in zip(cut[:-1], cut[1:]):
        fe = ctx.randint(1, 4)
        s = SimulationResult(*n, x_names=names[0], y_names=names[1], u_names=names[2], t_0=a, t_f=b, delta_t=(b - a) / fe, finite_elements=fe)
        sh = Shadow()
        sh.e = {c: [k, nm, []] for c, k, nm in zip("xyu", n, names)}
        for c in "xyu":
            if sh.e[c][0]:
                for _ in range(ctx.randint(1, 2)):
                    insert(ctx, s, sh, c)
        pieces.append((s, sh, a, b, fe))
    order_ = ctx.perm(range(len(pieces)))
    s, sh, a, b, fe = pieces[order_[0]]
    for j in order_[1:]:
        o, osh, oa, ob, ofe = pieces[j]
        keep = osh.copy()
        s.extend(o)
        for c in "xyu":
            sh.e[c][2].extend(osh.e[c][2])
        order(sh)
        a, b, fe = min(a, oa), max(b, ob), fe + ofe
        observe(ctx, o, keep, "the simulation appended")
    observe(ctx, s, sh, "extended")
    ctx.close([s.t_0, s.t_f], [a, b], "span", "t_0, t_f", atol=0)
    ctx.eq(s.finite_elements, fe, "span", "finite_elements")
    ctx.eq([s.n_x, s.n_y, s.n_u], n, "views", "sizes")
    ctx.eq([list(s.x_names), list(s.y_names), list(s.u_names)], names, "views", "names")
    for c, got in (("x", s.x), ("y", s.y), ("u", s.u)):
        data = sh.e[c][2]
        if sh.e[c][0]:
            ctx.eq(len(got), len(data), "views", c)
            for g, (_, w) in zip(got, data):
                ctx.close(np.array(g.full()).ravel(), w, "views", c, atol=0)
    ctx.close(np.array(s.t.full()).ravel(), [t for t, _ in sh.e["x"][2]], "views", "t", atol=0)
    if all(n):
        fc = s.final_condition()
        for c in "xyu":
            ctx.close(np.array(fc[c].full()).ravel(), sh.e[c][2][-1][1], "views", "final_condition " + c, atol=0)
    bad = SimulationResult(n[0] + 1, n[1], n[2])
    with ctx.raises("size-mismatch", "extending with another model's simulation"):
        s.extend(bad)
    observe(ctx, s, sh, "rejected extension")
