"""C13 - loss functions: gradients and hessians are the derivatives, means are means, starts are right."""
import itertools
import math

from mc import compat, core, ref, scale
from mc.core import expect, close, Violation
import numpy as np
from computing.d_table import DTable
from ml.loss import cross_entropy as ce, regression_loss as rl
from ml.optim import activation

META = dict(
    title="Each loss's gradient and hessian are the derivatives of the loss it reports",
    statement="For every objective, label and score, the gradient is the derivative of the loss that the same class computes, and the hessian the derivative of the gradient (for softmax per class; 1 for the absolute error; 0 gradient at an exact prediction); hessians are not negative and softmax gradients sum to zero. Scalars, one-element arrays and arrays give the same numbers and no argument is changed. The loss of a table is the mean of the losses of its rows, in any row order. The starting score is 0 for the cross entropies, the median label for the absolute error and the mean label otherwise. Sigmoid, softmax and the other activations are the functions they name: within range, monotone, normalised and without overflow.",
    quantifier=dict(over=["inputs", "configurations"], text="all objectives with several shape parameters, all label/score pairs of a grid from tiny to huge scores, all tables of up to four rows over small grids, all label lists up to length five, all score vectors of two to four classes over a grid; tables of up to 11003 rows and score vectors of up to 64 classes, sizes enumerated on fixed values"),
    why_tests_cant="No test covers the losses. A derivative must agree with its loss at every point, and overflow, sign and exact-prediction cases lie at the edges.",
    anchors=dict(files=["ml/loss/cross_entropy.py", "ml/loss/regression_loss.py", "ml/optim/activation.py"],
                 state=[dict(name="none", meaning="pure functions", where="ml.loss")],
                 mechanism=[dict(name="gradients and hessians", where="compute_grad, compute_hess"), dict(name="loss", where="compute_loss"),
                            dict(name="starting score", where="initialize"), dict(name="link", where="predict, ml.optim.activation")],
                 observe_at=["returned numbers"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive enumeration of labels, scores, shapes and tables against closed formulas and difference quotients of the loss itself",
    level_note="Exhaustive over the stated grid. The Tweedie loss is a known finding (its gradient is not the derivative of its loss).",
    bounds=dict(quick=dict(rows=4, labels=5, classes=4), thorough=dict(rows=4, labels=6, classes=5)),
    rule="a case is an objective with points, a table, a label list or an activation argument; states are distinct cases; outcomes are distinct results",
    assumptions=["a cross entropy is judged where the probability of the label is above 1e-13 (it is computed from the probability)"],
)


def make(name, a):
    """The loss, with another one of its class made after it."""
    obj = construct(name, a)
    if name in ("huber", "fair", "tweedie"):
        construct(name, 1.9 if a != 1.9 else 1.2)
    else:
        construct(name, a)
    return obj


def construct(name, a):
    return {"cross_entropy": lambda: ce.SigmoidBinaryCrossEntropyLoss(), "softmax": lambda: ce.SoftmaxCrossEntropyLoss(),
            "lse": lambda: rl.LeastSquaredErrorLoss(), "lae": lambda: rl.LeastAbsoluteErrorLoss(),
            "huber": lambda: rl.HuberLoss(a), "fair": lambda: rl.FairLoss(a), "log_cosh": lambda: rl.LogCoshLoss(),
            "tweedie": lambda: rl.TweedieLoss(a)}[name]()


def num(x):
    x = np.asarray(x)
    expect(x.size == 1, "a number is expected, not %r", x)
    return float(x.reshape(-1)[0])


def table_loss(obj, ys, ps):
    n = len(ys)
    return obj.compute_loss(DTable(True, [("r%d" % i, ys[i]) for i in range(n)]), DTable(True, [("r%d" % i, ps[i]) for i in range(n)]))


def formula(name, a):
    a = 1e-6 if name in ("huber", "fair") and (a is None or abs(a) < 1e-6) else a
    return ref.objective("cross_entropy" if name == "softmax" else name, [a], 3 if name == "softmax" else 2)


def run_point(case):
    name, a, y, f = case["loss"], case["a"], case["y"], case["f"]
    obj = make(name, a)
    loss, grad, hess = formula(name, a)
    out = []
    link = lambda v: obj.predict(v)               # noqa: E731
    p = link(f)
    if name == "cross_entropy":
        expect(0 <= p <= 1 and close(p, ref._sig(f), 1e-9, 1e-15), "the probability of score %r is %r", f, p)
    else:
        expect(num(p) == f, "the prediction of score %r is %r", f, p)
    g, h = num(obj.compute_grad(y, p)), num(obj.compute_hess(y, p))
    wg, wh = grad(y, [f])[0], hess(y, [f])[0]
    expect(close(g, wg, 1e-9, 1e-12), "%s(%r): the gradient at label %r, score %r is %r instead of %r", name, a, y, f, g, wg)
    expect(close(h, wh, 1e-9, 1e-12), "%s(%r): the hessian at label %r, score %r is %r instead of %r", name, a, y, f, h, wh)
    expect(h >= 0, "%s(%r): the hessian at label %r, score %r is %r", name, a, y, f, h)
    # arrays
    for arr in (np.asarray([f]), np.asarray([f, f + 0.5])):
        if name == "cross_entropy":
            pa = np.asarray([obj.predict(v) for v in arr])
        else:
            pa = link(arr.copy())
        keep = pa.copy()
        ga, ha = np.asarray(obj.compute_grad(y, pa)), np.asarray(obj.compute_hess(y, pa))
        expect(np.array_equal(keep, pa), "%s: the predictions were changed", name)
        expect(ga.shape == pa.shape and ha.shape == pa.shape, "%s: arrays of %d give %r and %r", name, len(pa), ga, ha)
        for k in range(len(arr)):
            expect(close(ga[k], grad(y, [arr[k]])[0], 1e-9, 1e-12) and close(ha[k], hess(y, [arr[k]])[0], 1e-9, 1e-12),
                   "%s(%r): in an array, label %r, score %r gives gradient %r, hessian %r", name, a, y, arr[k], ga[k], ha[k])
    # the loss itself
    L = num(table_loss(obj, [y], [p]))
    if name != "cross_entropy" or abs(f) < 30:
        expect(close(L, loss(y, [f]), 1e-9, 1e-9), "%s(%r): the loss of label %r, score %r is %r instead of %r", name, a, y, f, L, loss(y, [f]))
    expect(L == L and L > -1e-12, "%s: the loss of label %r, score %r is %r", name, y, f, L)
    # whole numbers as ints, numpy scalars
    kinds = [np.float64] + ([int, np.int64] if y == int(y) and f == int(f) and name != "cross_entropy" else [])
    for kind in kinds:
        yk, pk = kind(y) if name != "cross_entropy" else y, kind(p)
        gk, hk, Lk = num(obj.compute_grad(yk, pk)), num(obj.compute_hess(yk, pk)), num(table_loss(obj, [yk], [pk]))
        expect(close(gk, g, 1e-9, 1e-12) and close(hk, h, 1e-9, 1e-12) and close(Lk, L, 1e-9, 1e-12),
               "%s(%r): label %r and score %r given as %s have gradient %r, hessian %r, loss %r instead of %r, %r, %r", name, a, y, f, kind.__name__, gk, hk, Lk, g, h, L)
    out += [round(g, 9), round(h, 9), round(L, 9) if L < 1e9 else "big"]
    # difference quotients of the code's own loss and gradient
    if case.get("fd"):
        e = 1e-4
        lp, lm = (num(table_loss(obj, [y], [link(f + s)])) for s in (e, -e))
        expect(abs((lp - lm) / (2 * e) - g) <= 1e-5 * (1 + abs(g)) + (1e-4 if name == "huber" else 1e-5),
               "%s(%r): at label %r, score %r the loss rises at a rate of %r, the gradient is %r", name, a, y, f, (lp - lm) / (2 * e), g)
        if name != "lae":
            gp, gm = (num(obj.compute_grad(y, link(f + s))) for s in (e, -e))
            expect(abs((gp - gm) / (2 * e) - h) <= 2e-4 * (1 + abs(h)),
                   "%s(%r): at label %r, score %r the gradient rises at a rate of %r, the hessian is %r", name, a, y, f, (gp - gm) / (2 * e), h)
    return out


def run_softmax(case):
    f, obj = case["f"], make("softmax", None)
    loss, grad, hess = formula("softmax", None)
    x = np.asarray(f, dtype=float)
    p = obj.predict(x.copy())
    expect(p.shape == x.shape and np.all(p >= 0) and close(p.sum(), 1.0), "the probabilities of %r are %r", f, p)
    for a, b in zip(p, ref._soft(f)):
        expect(close(a, b, 1e-9, 1e-12), "the probabilities of %r are %r", f, p)
    q = obj.predict(x + 3.0)
    expect(np.allclose(p, q, rtol=1e-9, atol=1e-12), "shifting all scores by 3 changes the probabilities from %r to %r", p, q)
    for y in range(len(f)):
        keep = p.copy()
        g, h = obj.compute_grad(y, p), obj.compute_hess(y, p)
        expect(np.array_equal(p, keep), "computing the gradient changed the probabilities")
        expect(g is not p and h is not p, "the gradient shares memory with the probabilities")
        for k in range(len(f)):
            expect(close(g[k], grad(y, f)[k], 1e-9, 1e-12), "gradient %r of class %d of %r for label %d", g[k], k, f, y)
            expect(close(h[k], hess(y, f)[k], 1e-9, 1e-12), "hessian %r of class %d of %r for label %d", h[k], k, f, y)
        expect(abs(g.sum()) < 1e-9, "the gradients of %r sum to %r", f, g.sum())
        L = num(table_loss(obj, [y], [p]))
        if max(f) - min(f) < 30:
            expect(close(L, loss(y, f), 1e-9, 1e-9), "the loss of %r for label %d is %r", f, y, L)
            for k in range(len(f)):
                d = np.zeros(len(f))
                d[k] = 1e-4
                r = (num(table_loss(obj, [y], [obj.predict(x + d)])) - num(table_loss(obj, [y], [obj.predict(x - d)]))) / 2e-4
                expect(abs(r - g[k]) < 1e-5, "softmax loss of %r, label %d rises at %r in class %d, the gradient is %r", f, y, r, k, g[k])
    return [round(float(v), 9) for v in p]


def widen(case):
    """Many rows (or classes): the values follow from the sizes."""
    if "wide" not in case:
        return case
    n, c, h, name = case["wide"], case.get("dims", 3), scale.h, case["loss"]
    if name == "softmax":
        y, f = [h(i, "y") % c for i in range(n)], [[(h(i, k) % 81 - 40) / 8.0 for k in range(c)] for i in range(n)]
    elif name == "cross_entropy":
        y, f = [h(i, "y") % 2 for i in range(n)], [(h(i, "f") % 161 - 80) / 8.0 for i in range(n)]
    else:
        y, f = [(h(i, "y") % 4001 - 2000) / 16.0 for i in range(n)], [(h(i, "y") % 4001 - 2000) / 16.0 + (h(i, "f") % 81 - 40) / 8.0 for i in range(n)]
    return dict(case, y=y, f=f)


def run_table(case):
    case = widen(case)
    name, a = case["loss"], case["a"]
    obj = make(name, a)
    ys, fs = case["y"], case["f"]
    ps = [obj.predict(np.asarray(f, dtype=float)) if name == "softmax" else obj.predict(f) for f in fs]
    if name not in ("softmax", "cross_entropy"):
        back = obj.predict(np.asarray(fs, dtype=float))
        expect(np.array_equal(back, np.asarray(fs, dtype=float)) and all(num(p) == f for p, f in zip(ps, fs)), "%s: the predictions of scores %r are %r and %r", name, fs[:5], ps[:5], back)
    single = [num(table_loss(obj, [y], [p])) for y, p in zip(ys, ps)]
    want = sum(single) / len(single)
    n = len(ys)
    for perm in itertools.permutations(range(n)) if n < 6 else (range(n), range(n)[::-1], sorted(range(n), key=lambda i: (i * 7) % 11)):
        yt = DTable(True, [("r%d" % i, ys[i]) for i in range(n)])
        pt = DTable(True, [("r%d" % i, ps[i]) for i in perm])
        L = num(obj.compute_loss(yt, pt))
        expect(close(L, want, 1e-9, 1e-12), "%s: the loss of rows with losses %r is %r", name, single, L)
        if name not in ("softmax", "cross_entropy"):
            La = num(obj.compute_loss(yt, pt.mapValues(lambda v: np.asarray([v]))))
            expect(close(La, want, 1e-9, 1e-12), "%s: the loss of one-element predictions is %r instead of %r", name, La, want)
    return round(want, 9)


def run_init(case):
    case = widen(case)
    name, ys = case["loss"], case["y"]
    obj = make(name, 1.0)
    t = DTable(True, [("r%d" % i, y) for i, y in enumerate(ys)])
    t.schema = {"header": ["something"]}
    if name == "softmax":
        tab, v = obj.initialize(t, case["dims"])
        want = [0.0] * case["dims"]
    else:
        tab, v = obj.initialize(t)
        want = None
    v = np.asarray(v, dtype=float).reshape(-1)
    n = len(ys)
    if name == "cross_entropy":
        want = [0.0]
    if want is not None:
        expect(list(v) == want, "%s starts at %r", name, v)
    elif name == "lae":
        s = sorted(ys)
        lo, hi = sum(1 for y in s if y < v[0]) + 1, sum(1 for y in s if y <= v[0])
        # an approximate median: the rank is ceil(n/2), at most one off for an error of 0.001
        off = 1 + 0.001 * n
        expect(hi >= lo and lo <= math.ceil(n / 2) + off and hi >= math.ceil(n / 2) - off, "the absolute error starts at %r for labels %r", v[0], ys)
    else:
        expect(len(v) == 1 and close(v[0], sum(ys) / n, 1e-9, 1e-9), "%s starts at %r for labels %r", name, v, ys)
    rows = dict(tab.collect())
    expect(sorted(rows) == sorted("r%d" % i for i in range(n)), "%s: starting scores for rows %r", name, sorted(rows))
    for k, r in rows.items():
        expect(np.array_equal(np.asarray(r, dtype=float).reshape(-1), v), "%s: row %s starts at %r instead of %r", name, k, r, v)
    expect(dict(t.collect()) == {"r%d" % i: y for i, y in enumerate(ys)}, "the labels changed")
    # one row's scores are its own
    first = next((k for k in rows if isinstance(rows[k], np.ndarray)), None)
    if first is not None and np.asarray(rows[first]).ndim and np.asarray(rows[first]).flags.writeable:
        rows[first] += 1.0
        for k, r in rows.items():
            expect(k == first or np.array_equal(np.asarray(r, dtype=float).reshape(-1), v), "%s: rows %s and %s share their starting scores", name, first, k)
    return [float(x) for x in v]


def run_activation(case):
    x = case["x"]
    A = activation
    s, sn = A.sigmoid(x), A.sigmoid(-x)
    expect(0 <= s <= 1 and close(s, ref._sig(x), 1e-9, 1e-300) and close(s + sn, 1.0), "sigmoid(%r) = %r, sigmoid(%r) = %r", x, s, -x, sn)
    ll = A.log_logistic(x)
    w = -math.log1p(math.exp(-x)) if x > 0 else x - math.log1p(math.exp(x))
    expect(close(ll, w, 1e-9, 1e-12), "log_logistic(%r) = %r instead of %r", x, ll, w)
    expect(close(A.hard_sigmoid(x), min(1.0, max(0.0, 0.2 * x + 0.5))), "hard_sigmoid(%r) = %r", x, A.hard_sigmoid(x))
    expect(close(A.softsign(x), x / (1 + abs(x))), "softsign(%r) = %r", x, A.softsign(x))
    expect(close(A.tanh(x), math.tanh(x)), "tanh(%r) = %r", x, A.tanh(x))
    expect(close(A.softplus(x), max(x, 0.0) + math.log1p(math.exp(-abs(x))), 1e-12, 1e-12), "softplus(%r) = %r", x, A.softplus(x))
    for y in XS:
        if x < y:
            for fn in (A.sigmoid, A.hard_sigmoid, A.softsign, A.softplus, A.tanh, A.log_logistic):
                expect(fn(x) <= fn(y), "%s(%r) = %r > %s(%r) = %r", fn.__name__, x, fn(x), fn.__name__, y, fn(y))
    two = A.softmax(np.asarray([0.0, x]))
    expect(close(two[1], s, 1e-9, 1e-300), "softmax of 0 and %r gives %r, sigmoid %r", x, two[1], s)
    m = A.softmax(np.asarray([[0.0, x], [x, 1.0]]))
    expect(m.shape == (2, 2) and close(m[0].sum(), 1) and close(m[1].sum(), 1) and close(m[0][1], s, 1e-9, 1e-300), "row-wise softmax gives %r", m)
    return float(s)


def run_tweedie(case):
    """The gradient is to be the derivative of the loss and the hessian that of the gradient."""
    rho, y, f = case["a"], case["y"], case["f"]
    obj = make("tweedie", rho)
    g, h = num(obj.compute_grad(y, f)), num(obj.compute_hess(y, f))
    if rho == 1.0:
        sig = "tweedie rho=1: the loss divides by zero"
        try:
            ok = math.isfinite(num(table_loss(obj, [y], [f])))
        except ZeroDivisionError:
            ok = False
        if not ok:
            raise Violation(sig, finding=sig)
        return sig
    e = 1e-5
    r = (num(table_loss(obj, [y], [f + e])) - num(table_loss(obj, [y], [f - e]))) / (2 * e)
    rg = (num(obj.compute_grad(y, f + e)) - num(obj.compute_grad(y, f - e))) / (2 * e)
    ok = abs(r - g) <= 1e-4 * (1 + abs(g)) and abs(rg - h) <= 1e-4 * (1 + abs(h))
    sig = "tweedie rho=%r y=%r f=%r: loss slope %s, gradient %s, gradient slope %s, hessian %s" % (rho, y, f, *("%.4g" % v for v in (r, g, rg, h)))
    if not ok:
        raise Violation(sig, finding=sig)
    return sig


RUN = dict(point=run_point, softmax=run_softmax, table=run_table, init=run_init, activation=run_activation, tweedie=run_tweedie)
XS = sorted({s * v for v in (0.0, 1e-9, 1e-6, 0.1, 0.5, 1.0, 2.0, 2.5, 3.0, 5.0, 7.0, 10.0, 15.0, 16.0, 17.0, 20.0, 25.0, 30.0, 36.0, 37.0, 40.0, 50.0, 60.0, 100.0, 300.0, 700.0, 709.0, 710.0, 745.0, 800.0, 1e4) for s in (1, -1)})
REG = [("lse", None), ("lae", None), ("huber", 0.5), ("huber", 1.0), ("huber", 3.0), ("huber", None), ("huber", 0.0), ("huber", 1e-9), ("fair", 0.5), ("fair", 1.0), ("fair", 3.0), ("fair", None), ("fair", 0.0), ("fair", 1e-9), ("log_cosh", None)]
TWEEDIE = [("tweedie", 1.5), ("tweedie", 1.1)]          # tables only: the derivatives are a known finding
LBL = [-7.0, -1.0, -0.25, 0.0, 0.5, 1.0, 2.0, 100.0]
DIF = sorted({s * v for v in (0.0, 0.001, 0.01, 0.3, 0.5, 1.0, 1.5, 2.0, 4.0, 10.0, 50.0, 200.0, 350.0, 711.0, 1e4, 1e7) for s in (1, -1)})


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of, big=big) for i in range(of))
    add(b="point", of=4)
    add(b="softmax", of=8)
    add(b="table", of=8)
    add(b="init", of=8)
    add(b="activation")
    add(b="tweedie")
    add(b="wide", of=4)
    return out


def cases(block):
    b, big = block["b"], block["big"]
    if b == "point":
        for f in XS:
            for y in (0, 1):
                yield dict(b="point", loss="cross_entropy", a=None, y=y, f=f, fd=abs(f) < 15)
        for name, a in REG:
            for y in LBL:
                for d in DIF:
                    smooth = abs(d) <= 200 and (abs(d) > 0.005 or name in ("lse", "log_cosh")) and not (name == "log_cosh" and abs(d) > 15)
                    yield dict(b="point", loss=name, a=a, y=y, f=y + d, fd=smooth and bool(a) and a > 1e-3 or (smooth and name in ("lse", "lae", "log_cosh")))
    elif b == "softmax":
        grid = [-50.0, -2.0, -0.5, 0.0, 0.5, 3.0, 800.0]
        for n in (2, 3, 4) + ((5,) if big else ()):
            for f in itertools.product(grid if n < 4 else grid[1:6:2] if n == 5 else grid[1:6], repeat=n):
                yield dict(b="softmax", f=list(f))
    elif b == "table":
        for name, a in [("cross_entropy", None)]:
            pts = [(0, -2.0), (0, 1.0), (1, 0.0), (1, 3.0)]
            for n in (1, 2, 3, 4):
                for rows in itertools.product(pts, repeat=n):
                    yield dict(b="table", loss=name, a=a, y=[r[0] for r in rows], f=[r[1] for r in rows])
        pts = [(0, [0.0, 1.0, -1.0]), (1, [0.0, 1.0, -1.0]), (2, [2.0, 0.0, 0.5])]
        for n in (1, 2, 3, 4):
            for rows in itertools.product(pts, repeat=n):
                yield dict(b="table", loss="softmax", a=None, y=[r[0] for r in rows], f=[r[1] for r in rows])
        pts = [(0.0, 0.0), (1.0, -1.5), (-2.0, 0.25), (3.0, 3.5)]
        for name, a in REG + TWEEDIE:
            for n in (1, 2, 3) + ((4,) if big else ()):
                for rows in itertools.product(pts, repeat=n):
                    yield dict(b="table", loss=name, a=a, y=[r[0] for r in rows], f=[r[1] for r in rows])
    elif b == "init":
        vals = [-1.5, 0.0, 2.0, 1e6]
        for n in range(1, 7 if big else 6):
            for ys in itertools.product(vals, repeat=n):
                for name in ("lse", "lae", "huber", "fair", "log_cosh", "tweedie"):
                    if n >= 5 and name not in ("lae", "lse"):
                        continue
                    yield dict(b="init", loss=name, y=list(ys))
        for n in range(1, 5):
            for ys in itertools.product((0, 1), repeat=n):
                yield dict(b="init", loss="cross_entropy", y=list(ys))
            for ys in itertools.product((0, 1, 2), repeat=n):
                for dims in (3, 4):
                    yield dict(b="init", loss="softmax", y=list(ys), dims=dims)
    elif b == "activation":
        for x in XS:
            yield dict(b="activation", x=x)
    elif b == "wide":
        for n in (5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 129, 300, 1025, 2500, 5000, 11003) + ((20011, 70001) if big else ()):
            for name, a in [("cross_entropy", None), ("softmax", None)] + REG + TWEEDIE[:1]:
                if a is None or a == 1.0 or name == "tweedie":
                    yield dict(b="table", loss=name, a=a, wide=n)
                    if name == "softmax":
                        for dims in (2, 3, 10, 33):
                            yield dict(b="table", loss=name, a=a, wide=n, dims=dims)
                            yield dict(b="init", loss=name, wide=n, dims=dims)
                    else:
                        yield dict(b="init", loss=name, wide=n)
        for n in (2, 3, 4):
            for f in itertools.product((0.0, 12.0, 17.5, 24.0, 29.0), repeat=n):
                yield dict(b="softmax", f=list(f))
        for n in (6, 7, 8, 10, 11, 17, 33, 64):
            for v in (0.0, 0.5, -2.0):
                yield dict(b="softmax", f=[v * ((k * 7) % n) / n for k in range(n)])
    elif b == "tweedie":
        for rho in (1.0, 1.1, 1.5, 1.9):
            for y, f in ((2.0, 0.5), (0.0, 1.0)):
                yield dict(b="tweedie", a=rho, y=y, f=f)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run_case(case))
        if r is not None:
            ctx.state(core.jsonable(case))
            ctx.outcome(r)


def run_case(case):
    return RUN[case["b"]](case)
