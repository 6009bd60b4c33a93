"""Sizes: every dimension of a training taken far beyond the small grids, one and two at a time.

The grids of the checks are exhaustive over small values; a defect can also hide behind a size
(a second batch of nodes, a tenth host, more bins than some table holds).  Here the data is a
fixed function of the sizes, and the sizes are enumerated: every value of every dimension with
the others at their base, and every pair of dimensions at their extremes.
"""
import itertools
import os
import zlib

from mc import compat

BASE = dict(n=24, hosts=2, nf=2, bins=6, depth=4, rounds=2, classes=2, batch=65536, leaf=1, loss="cross_entropy", lr=0.3, stop=True)
AXES = dict(n=[2, 3, 7, 50, 130], hosts=[1, 3, 4, 6, 12], nf=[1, 5, 11], bins=[2, 3, 17, 33, 70], depth=[1, 2, 3, 5, 6, 7], rounds=[1, 3, 6, 11],
            classes=[3, 4, 7, 11], batch=[1, 2, 3, 5, 8], leaf=[2, 3, 6], loss=["lse", "lae", "huber", "fair", "log_cosh"], lr=[0.01, 1.0, 2.5])
HIGH = dict(n=70, hosts=4, nf=6, bins=33, depth=6, rounds=5, classes=5, batch=3, leaf=4, loss="lse")

# one dimension further than any table or counter a defect could hide behind
FAR = [dict(rounds=26, hosts=1, stop=False), dict(rounds=26, hosts=1, loss="lse", stop=False), dict(n=340, bins=300, nf=3, hosts=1, rounds=1, loss="lse"),
       dict(nf=140, hosts=1, rounds=1), dict(n=130, depth=10, hosts=1, rounds=1, loss="lse"), dict(n=130, depth=7, batch=5, rounds=1, loss="lse"),
       dict(n=1100, hosts=1, depth=2, rounds=1, loss="lae"), dict(rounds=9, lr=2.5, stop=False), dict(n=40, hosts=17, nf=1, rounds=1, loss="lse"),
       dict(n=1400, depth=14, hosts=1, nf=4, bins=50, rounds=1, loss="lse")]


def h(*k):
    return zlib.crc32(repr(k).encode())


def value(i, f, n, salt):
    kind = (f + salt) % 3
    if kind == 0:
        return float(h(i, f, salt) % 11 - 5)
    if kind == 1:
        return (h(i, f, salt) % 997) / 8.0 - 40.0
    return float(h(i, f, salt) % 4) if h(i, f) % 3 else 0.0


def real(s):
    """The first rows of one of the repository's own data sets, columns dealt as its files deal them."""
    def read(path):
        with open(path) as f:
            return [ln.split(",") for ln in f.read().split()][1:]
    files = csvs(s["csv"])
    tables = [{r[0]: r[1:] for r in read(f)} for f in files]
    ids = [r[0] for r in read(files[0]) if all(r[0] in t for t in tables)][:s["n"]]
    y = [tables[0][i][0] for i in ids]
    tables[0] = {i: r[1:] for i, r in tables[0].items()}
    parts = [[[float(v) for v in t[i]] for i in ids] for t in tables]
    return parts, [int(v) for v in y] if s["loss"] == "cross_entropy" else [float(v) for v in y]


def csvs(name):
    d = os.path.join(compat.REPO, "data", name)
    hosts = sorted(f for f in os.listdir(d) if "_host" in f) if os.path.isdir(d) else []
    many = [f for f in hosts if "_host_" in f]
    return [os.path.join(d, f) for f in [name + "_guest.csv"] + (many or hosts)]


REAL = [dict(csv="breast_hetero_mini", n=569, bins=32, depth=4, rounds=3), dict(csv="breast_hetero", n=300, bins=16, rounds=2), dict(csv="vehicle_scale_hetero", n=250, bins=16, depth=3, rounds=2),
        dict(csv="motor_hetero", n=400, bins=32, loss="lse", rounds=3), dict(csv="motor_hetero", n=200, bins=10, loss="huber"), dict(csv="dvisits_hetero", n=500, bins=32, loss="lse", depth=3),
        dict(csv="dvisits_hetero", n=200, bins=8, loss="fair", lr=1.0)]


def make(**s):
    s = dict(BASE, **s)
    if "csv" in s:
        parts, y = real(s)
        return finish(s, parts, y)
    n = s["n"]
    parts = [[[value(i, f, n, p * 5) for f in range(s["nf"])] for i in range(n)] for p in range(s["hosts"] + 1)]
    sig = [sum(r[i][0] for r in parts) + parts[-1][i][-1] for i in range(n)]
    if s["loss"] == "cross_entropy":
        c = s["classes"]
        y = [int(abs(v) // 2 + (h(i, "y") % 5 == 0)) % c for i, v in enumerate(sig)]
        for k in range(min(c, n)):
            y[k] = k
    else:
        y = [v / 4.0 + (h(i, "y") % 9) / 3.0 for i, v in enumerate(sig)]
    return finish(s, parts, y)


def finish(s, parts, y):
    return dict(scale=s, guest=parts[0], hosts=parts[1:], y=y,
                conf=dict(p=dict(num_trees=s["rounds"], lr=s["lr"], tol=0.0, bin_num=s["bins"], n_iter_no_change=s["stop"]), tree=dict(max_depth=s["depth"], max_split_nodes=s["batch"], min_leaf_node=s["leaf"])),
                **({} if s["loss"] == "cross_entropy" else dict(loss=s["loss"])))


def sizes(big=False):
    yield {}
    for a, vs in AXES.items():
        for v in vs:
            yield {a: v}
    for stop in (True, False):
        yield dict(loss="lse", lr=2.5, rounds=5, stop=stop)            # the loss rises from round to round
    yield dict(stop=False, rounds=4)
    yield dict(stop=False, lr=1.0, rounds=4, loss="lae")
    yield from FAR
    for a, b in itertools.combinations(HIGH, 2):
        if {a, b} == {"classes", "loss"}:
            continue
        yield {a: HIGH[a], b: HIGH[b]}
    if big:
        for a, b in itertools.combinations(AXES, 2):
            if {a, b} == {"classes", "loss"}:
                continue
            for v, w in itertools.product(AXES[a], AXES[b]):
                if {a, b} <= {"n", "hosts", "nf", "rounds", "classes"} and (v, w) == (AXES[a][-1], AXES[b][-1]):
                    continue
                yield {a: v, b: w}


def cases(big=False):
    """Cases as small as their sizes: the data is made when the case runs."""
    for s in sizes(big):
        yield dict(scale=s)
    for s in REAL:
        if all(os.path.exists(f) for f in csvs(s["csv"])):
            yield dict(scale=s)


def fill(case):
    return dict(make(**case["scale"]), **{k: v for k, v in case.items() if k != "scale"}) if "scale" in case else case
