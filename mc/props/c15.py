"""C15 - labels in, labels out: what a prediction row says."""
import itertools

import numpy as np

from mc import core, fed, ref, scale
from mc.core import expect, close
from computing.d_table import DTable
from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as AloneGuest
from ml.utils.classfiy_label_checker import ClassifyLabelChecker, RegressionLabelChecker

META = dict(
    title="A prediction names the right class of the user's labels, with its probability",
    statement="Class labels may be any sortable values: they are numbered in sorted order, and results speak of the user's values. A binary result holds the row's own label, the second class exactly when its probability exceeds the threshold and the first otherwise, that probability (the sigmoid of the score), and both probabilities, summing to one. A multi-class result holds the class of the largest softmax probability, that probability, and the probability of every class under its name. A regression result holds the score itself. The standalone trainer answers in the same way. On separable data every training row is predicted as its own label. More than 1000 classes, or non-numeric regression labels, are refused.",
    quantifier=dict(over=["inputs", "configurations"], text="all assignments of two to four class values to four rows for a set of label alphabets (integers with gaps, negatives, floats, strings, booleans), thresholds below, at and above every probability reached, all regression objectives, labelled and unlabelled prediction rows; up to thirteen classes and a hundred rows, sizes enumerated"),
    why_tests_cant="No test predicts. A swapped class, a threshold compared the wrong way or probabilities under the wrong name yield well-formed results; which label values trip it depends on their order of appearance.",
    anchors=dict(files=["ml/tree/hetero_secureboosting_tree_guest.py", "xgboost/hetero_secureboosting_tree_guest.py", "ml/utils/classfiy_label_checker.py", "ml/param/predict_param.py"],
                 state=[dict(name="classes_", meaning="class values in order", where="HeteroSecureBoostingTreeGuest.classes_")],
                 mechanism=[dict(name="label mapping", where="check_label"), dict(name="result rows", where="predict"), dict(name="label checks", where="ClassifyLabelChecker, RegressionLabelChecker")],
                 observe_at=["prediction results"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive enumeration of label alphabets, assignments and thresholds over real federated trainings and predictions",
    level_note="Exhaustive over the stated space, default schedule, identity encryption. The scores themselves are C05's business: the results are judged against the scores the model holds. The binary probability dictionary is keyed 0/1 by class number.",
    bounds=dict(quick=dict(rows=4, classes=4), thorough=dict(rows=5, classes=4)),
    rule="a case is (labels, threshold, task); states are distinct cases; outcomes are distinct result tables",
    assumptions=["labels of one data set are mutually sortable"],
)
CL = dict(int=[0, 1], gap=[7, 3], neg=[-1, 1], flt=[0.0, 1.0], str=["yes", "no"], bool=[True, False], one=[1, 2], ten=[10, 2],
          minus=[-2, -10], wide=["a", "B"], ftext=[100.0, 9.5], m_ten=[10, 9, 100], m_minus=[-1, -10, 2],
          m_int=[0, 1, 2], m_gap=[5, -2, 3], m_str=["b", "c", "a"], m_num=["10", "9", "1"], m_flt=[0.5, 2.5, -1.0], m4=[3, 1, 0, 2],
          near=[1.25, 1.75], frac=[-0.5, 0.5], tiny=[1e-12, 0.0], far=[2 ** 53 + 1, 2 ** 53], case=["A", "a"], prefix=["ab", "a"], same=["1.0", "1"], blank=["", " "],
          m_near=[1.25, 1.75, 1.5], m_far=[2 ** 53 + 1, 2 ** 53, 2 ** 53 + 2], m_same=["1", "1.0", "01"], m_case=["A", "a", "Aa"])


ALPHA = dict(int=lambda i: i, gap=lambda i: (i * 37) % 101 - 50, num=lambda i: str(i), flt=lambda i: i / 2.0 - 2, word=lambda i: "%s%d" % ("bca"[i % 3], i))


def widen(case):
    """Many classes and rows: labels and features follow from the sizes."""
    if "wide" not in case:
        return case
    c, n, cl = case["wide"], case["rows"], [ALPHA[case["alpha"]](i) for i in range(case["wide"])]
    k = [scale.h(i, c) % c if i >= c else (i * 7 + 3) % c if c % 7 else i for i in range(n)]
    return dict(case, y=[cl[i] for i in k], g=[float(i // 2) + (scale.h(j) % 7 == 0) for j, i in enumerate(k)], h=[float(i % 4) - (scale.h(j, 1) % 5 == 0) for j, i in enumerate(k)])


class Alone:
    """The standalone trainer with all columns, behind the interface of fed.Boost."""
    class sim:
        steps = 1

    def __init__(self, ids, guest, y, hosts, param, test):
        self.args, self.models, self.out = (ids, [list(g) + h for g, h in zip(guest, hosts[0])], y, param, test), {}, {}

    def run(self):
        ids, rows, y, param, test = self.args
        m = self.models["g"] = AloneGuest()
        m._init_model(param)
        m.fit(fed.dense_table(ids, rows, y))
        res = m.predict(fed.dense_table(test["ids"], [list(g) + h for g, h in zip(test["guest"], test["hosts"][0])], test["labels"]))
        self.out["pred"] = dict(res.collect())
        self.out["pred_F"] = {k: np.array(v, dtype=float).ravel() for k, v in m.F.collect()}


def run(case):
    case = widen(case)
    y, n = case["y"], len(case["y"])
    cls = case.get("task") != "regression"
    kw = dict(num_trees=case.get("trees", 1), lr=case.get("lr", 1.0), tol=0.0, threshold=case.get("threshold", 0.5), bin_num=case.get("bins", 8))
    if not cls:
        kw.update(task="regression", objective=case["loss"], params=case.get("params"))
    ids = ["r%d" % i for i in range(n)]
    gx, hx = case["g"], case["h"]
    test = dict(ids=ids + ["u", "v"], guest=[[v] for v in gx] + [[-5.0], [99.0]], hosts=[[[v] for v in hx] + [[3.0], [-7.0]]],
                labels=None if case.get("unlabelled") else list(y) + [y[0], "other" if cls else 4.5])
    b = (Alone if case.get("alone") else fed.Boost)(ids, [[v] for v in gx], y, [[[v] for v in hx]], fed.boost_param(tree=fed.tree_param(max_depth=case.get("depth", 4)), **kw), test=test)
    with fed.FakeKeys.on():
        b.run()
    g = b.models["g"]
    pred, F = b.out["pred"], b.out["pred_F"]
    expect(list(sorted(pred)) == sorted(test["ids"]), "results for the rows %r", sorted(pred))
    out = {}
    classes = sorted(set(y)) if cls else None
    for j, k in enumerate(test["ids"]):
        r, f = pred[k], [float(x) for x in F[k]]
        expect(len(r) == 4, "a result row is %r", r)
        lab = None if test["labels"] is None else test["labels"][j]
        expect(r[0] == lab and type(r[0]) is type(lab), "row %s has the label %r, the result says %r", k, lab, r[0])
        if not cls:
            expect(len(f) == 1 and close(r[1], f[0]) and close(r[2], f[0]) and set(r[3]) == {"label"} and close(r[3]["label"], f[0]),
                   "row %s has the score %r, the result says %r", k, f, r)
            out[k] = round(float(r[1]), 9)
            continue
        if len(classes) == 2:
            p = ref._sig(f[0])
            expect(close(r[2], p, 1e-9, 1e-12), "row %s has the score %r, its probability is given as %r", k, f, r[2])
            t = case.get("threshold", 0.5)
            want = classes[1] if r[2] > t else classes[0]
            expect(set(map(str, r[3])) == {"0", "1"} and close(r[3]["1"], p, 1e-9, 1e-12) and close(r[3]["0"], 1 - p, 1e-9, 1e-12),
                   "row %s has the probability %r, the table says %r", k, p, r[3])
            expect(r[1] == want and type(r[1]) is type(want), "row %s has probability %r of %r (threshold %r), the result is %r", k, p, classes[1], t, r[1])
        else:
            p = ref._soft(f)
            top = max(p)
            expect(close(r[2], top, 1e-9, 1e-12), "row %s has the probabilities %r, the result says %r", k, p, r[2])
            expect({str(a): None for a in r[3]} == {str(c): None for c in classes}, "row %s has probabilities for %r, the classes are %r", k, list(r[3]), classes)
            for c, q in zip(classes, p):
                expect(close(r[3][str(c)], q, 1e-9, 1e-12), "row %s: class %r has probability %r, the table says %r", k, c, q, r[3])
            expect(any(r[1] == c and type(r[1]) is type(c) and q >= top - 1e-9 for c, q in zip(classes, p)), "row %s has the probabilities %r of %r, the result is %r", k, p, classes, r[1])
        out[k] = (repr(r[1]), round(float(r[2]), 9))
    if case.get("separable"):
        for i, k in enumerate(ids):
            expect(pred[k][1] == y[i], "the training rows %r are separable, but row %d of class %r is predicted as %r", list(zip(gx, hx, y)), i, y[i], pred[k][1])
    return b, out


def run_threshold(case):
    """Every probability the model reaches, as the threshold itself and just beside it."""
    _, first = run(dict(case, threshold=0.5))
    probs = sorted({p for _, p in first.values()})
    out = []
    for p in probs:
        for t in (p, p - 1e-7, p + 1e-7):
            if 0 <= t <= 1:
                out.append(sorted(run(dict(case, threshold=t))[1].items()))
    return out


def run_check(case):
    kind, labels = case["check"], case["labels"]
    t = DTable(True, [(i, v) for i, v in enumerate(range(labels) if isinstance(labels, int) else labels)])
    if kind == "classes":
        want = set(v for _, v in t.collect())
        try:
            num, cl = ClassifyLabelChecker.validate_y(t)
        except ValueError:
            expect(len(want) > 1000, "%d classes are refused", len(want))
            return "refused"
        expect(len(want) <= 1000, "%d classes are accepted", len(want))
        expect(num == len(want) and set(cl) == want, "the classes of %r are given as %r, %r", labels, num, list(cl))
        return num
    ok = True
    for v in labels:
        try:
            float(v)
        except (TypeError, ValueError):
            ok = False
    try:
        RegressionLabelChecker.validate_y(t)
    except ValueError:
        expect(not ok, "the labels %r are refused", labels)
        return "refused"
    expect(ok, "the labels %r are accepted", labels)
    return "ok"


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of, big=big) for i in range(of))
    for a in CL:
        add(b="labels", alpha=a, of=3 if len(CL[a]) > 2 else 1)
    add(b="mixed", of=4)
    add(b="threshold", of=4)
    add(b="regression", of=3)
    add(b="check")
    add(b="wide", of=4)
    return out


def cases(block):
    b, big = block["b"], block["big"]
    if b == "labels":
        cl = CL[block["alpha"]]
        n = 5 if big and len(cl) < 4 else 4
        for y in itertools.product(cl, repeat=n):
            if len(set(y)) == 1 and block["alpha"] not in ("int", "m_str"):
                continue
            # one feature value per class: separable by the guest, by the host, or jointly
            pos = {c: i for i, c in enumerate(cl)}
            for who in ("guest", "host", "both"):
                gx = [float(pos[v]) if who != "host" else 1.0 for v in y]
                hx = [2.5 - pos[v] if who != "guest" else 0.0 for v in y]
                yield dict(y=list(y), g=gx, h=hx, separable=True, unlabelled=(who == "both"))
    elif b == "mixed":
        # not separable, several rounds
        for a in ("int", "str", "m_int", "m_num"):
            cl = CL[a]
            for y in itertools.product(cl, repeat=4):
                if len(set(y)) < 2:
                    continue
                yield dict(y=list(y), g=[0.0, 1.0, 0.0, 1.0], h=[0.0, 0.0, 2.0, 2.0], trees=2, lr=0.3, depth=2)
                yield dict(y=list(y), g=[0.0, 0.0, 0.0, 1.0], h=[1.0, 1.0, 2.0, 2.0], trees=2, lr=0.3, depth=2, unlabelled=True)
                # scores that hardly differ
                for lr in (1e-3, 1e-5, 1e-7):
                    yield dict(y=list(y), g=[0.0, 1.0, 0.0, 1.0], h=[0.0, 0.0, 2.0, 2.0], trees=1, lr=lr, depth=3)
    elif b == "threshold":
        for a in ("int", "neg", "str", "gap"):
            for y in itertools.product(CL[a], repeat=4):
                if len(set(y)) == 2:
                    yield dict(thr=True, y=list(y), g=[0.0, 1.0, 1.0, 2.0], h=[0.0, 3.0, 0.0, 3.0], trees=2, lr=0.3, depth=3)
        for t in (0.0, 1.0, 0.5):
            # no split at all: every probability is 0.5
            for a in ("int", "str"):
                yield dict(y=[CL[a][0], CL[a][1]], g=[1.0, 1.0], h=[1.0, 1.0], threshold=t)
                yield dict(y=[CL[a][1], CL[a][0], CL[a][1]], g=[1.0, 1.0, 2.0], h=[1.0, 1.0, 0.0], threshold=t)
    elif b == "regression":
        for loss, params in (("lse", None), ("lae", None), ("huber", [1.0]), ("fair", [0.5]), ("log_cosh", None), ("tweedie", [1.5])):
            for y in itertools.product((0.0, 1.0, 2.5, 7), repeat=3):
                yield dict(task="regression", loss=loss, params=params, y=list(y) + [1.0], g=[0.0, 1.0, 2.0, 3.0], h=[1.0, 1.0, 2.0, 0.0], trees=2, lr=0.3, unlabelled=y[0] == 0.0)
    elif b == "wide":
        for c in (3, 5, 6, 7, 9, 10, 11, 12, 13) + ((17, 26, 33) if big else ()):
            for a in ALPHA:
                for n in (c, 2 * c, 3 * c + 1) if big else (2 * c,):
                    yield dict(wide=c, rows=n, alpha=a, trees=2, lr=0.5, depth=4, bins=16, unlabelled=n % 2 == 0)
        for a in ALPHA:
            for n in (9, 17, 40, 101):
                yield dict(wide=2, rows=n, alpha=a, trees=3, lr=0.5, depth=3)
                yield dict(wide=2, rows=n, alpha=a, trees=3, lr=0.5, depth=3, threshold=0.35, unlabelled=True)
    elif b == "check":
        for n in (1, 2, 999, 1000, 1001, 2000):
            yield dict(check="classes", labels=n)
        for n in (1, 2, 3, 4):
            for y in itertools.product(["a", 1, 2.5, -1], repeat=n):
                yield dict(check="classes", labels=list(y))
        for n in (1, 2, 3):
            for y in itertools.product([1, 2.5, "x", -1.0, None], repeat=n):
                yield dict(check="numeric", labels=list(y))


def both(block):
    """Every case in the federation and, where there is something to train, alone."""
    for case in cases(block):
        yield case
        yield None if case.get("check") else dict(case, alone=True)


def explore(ctx, block):
    for i, case in enumerate(both(block)):
        if i // 2 % block["of"] != block["part"]:
            continue
        if case is None:
            continue
        r = ctx.case(case, lambda: run_case(case), steps=0)
        if r is not None:
            ctx.state(core.jsonable(case))
            if isinstance(r, tuple):
                ctx.step(r[0].sim.steps)
                r = sorted(r[1].items())
            else:
                ctx.step()
            ctx.outcome(r)


def run_case(case):
    if case.get("check"):
        return run_check(case)
    return run_threshold(case) if case.get("thr") else run(case)
