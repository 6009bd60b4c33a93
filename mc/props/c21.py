"""C21 - column statistics and label checks."""
import itertools
import math
import pickle
from fractions import Fraction

import numpy as np

from mc import compat, core, fed, scale
from mc.core import expect
from mc.parts import PartTable
from mc.props import c09
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.statistic import data_overview
from ml.statistic.statics import MultivariateStatisticalSummary, SummaryStatistics
from ml.utils import abnormal_detection, consts
from ml.utils.classfiy_label_checker import ClassifyLabelChecker, RegressionLabelChecker
from ml.tree.boosting_tree import BoostingTree

META = dict(
    title="Column statistics are those of the data; unusable tables and labels are refused",
    statement="For every table of rows (instances, lists or arrays), every choice of columns and list of abnormal values, the statistics of a column are those of exactly its values that are not abnormal: mean, variance, standard deviation (never negative or failing, values below the zero threshold counting as 0), minimum and maximum, median and quantile points within the promised rank error - whichever are asked, in whatever order and for whichever columns, and however the values are split over partitions that are merged. Asking changes neither the table nor later answers; a column index outside the table is refused. A table is found sparse exactly when its rows are; an empty table is refused. Classification labels are counted and listed once each, more than the supported number refused; labels of a regression must be numbers.",
    quantifier=dict(over=["inputs", "histories", "configurations"], text="all value streams of up to five over a pool with large, equal, negative and abnormal values, all splits into up to three merged parts, all small two-column tables with every column choice, all orders of up to three questions, all label lists over a pool; tables of up to 3000 rows and 26 columns, sizes enumerated on fixed values"),
    why_tests_cant="No test covers the statistics, from which the starting score of every regression is computed. An abnormal value counted once, a merge that loses an extreme or a column mapped to the wrong index shows only for particular tables and splits.",
    anchors=dict(files=["ml/statistic/statics.py", "ml/statistic/data_overview.py", "ml/utils/abnormal_detection.py", "ml/utils/classfiy_label_checker.py", "ml/tree/boosting_tree.py", "ml/loss/regression_loss.py"],
                 state=[dict(name="SummaryStatistics", meaning="sums and extremes of a column", where="ml/statistic/statics.py")],
                 mechanism=[dict(name="accumulate and merge", where="add_value, merge"), dict(name="per partition", where="static_in_partition, aggregate_statics"), dict(name="quantiles", where="get_median, get_quantile_point"), dict(name="labels", where="validate_y")],
                 observe_at=["get_mean, get_variance, get_std_variance, get_min, get_max, get_median, get_quantile_point", "validate_y", "data_alignment"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive enumeration of tables, splits and question orders against exact rational statistics",
    level_note="Exhaustive over the stated pools; variances are compared within the rounding of sums of squares.",
    bounds=dict(quick=dict(stream=5, parts=3, rows=4, columns=2, questions=3), thorough=dict(stream=6, parts=3, rows=5, columns=2, questions=4)),
    rule="a case is a split stream, a table with a column choice and a question order, or a label list; states are distinct cases",
    assumptions=["columns hold numbers or listed abnormal values, and at least one number"],
)

TINY = consts.FLOAT_ZERO


def exact(vals):
    fr = [Fraction(float(v)) for v in vals]
    n = len(fr)
    mean = sum(fr) / n
    return mean, sum((v - mean) ** 2 for v in fr) / n, max(abs(v) for v in fr)


def near(got, want, tol, what):
    expect(isinstance(got, (int, float, np.number)) and math.isfinite(got), "%s is %r", what, got)
    expect(abs(Fraction(float(got)) - want) <= tol, "%s is %r instead of %r", what, got, float(want))


def check_stats(name, vals, got):
    mean, var, big = exact(vals)
    what = "%s of %r" % (name, vals)
    if name == "mean":
        near(got, mean, Fraction(1, 10 ** 12) * big, what)
    elif name == "min":
        expect(got == min(float(v) for v in vals), "%s is %r", what, got)
    elif name == "max":
        expect(got == max(float(v) for v in vals), "%s is %r", what, got)
    else:
        tol = Fraction(1, 10 ** 12) * big * big + Fraction(TINY) * Fraction(101, 100)
        sq = got
        if name == "std":
            expect(not isinstance(got, complex) and got >= 0, "%s is %r", what, got)
            sq = Fraction(float(got)) ** 2
        else:
            expect(got >= 0, "%s is %r", what, got)
        near(float(sq), var, tol, what + (" (squared)" if name == "std" else ""))


ANSWERS = ("mean", "variance", "std_variance", "min_value", "max_value")


def ask(s):
    if s.count:
        for a in ANSWERS:
            getattr(s, a)


def run_stream(case):
    out = [run_split(case, asked) for asked in (False, True)]
    expect(out[0] == out[1], "asked on the way, the statistics are %r instead of %r", out[1], out[0])
    return out[0]


def run_split(case, asked):
    """Values are added and parts merged; when asked, every answer is asked for after every step."""
    abn = case["abnormal"]
    parts = []
    for seg in case["parts"]:
        s = SummaryStatistics(abnormal_list=abn)
        for v in seg:
            s.add_value(v)
            if asked:
                ask(s)
        parts.append(s)
    vals = [v for seg in case["parts"] for v in seg if not (abn and v in abn) and v is not None]
    keep = [pickle.dumps(p.__dict__) for p in parts[1:]]
    if case["tree"] == "right" and len(parts) == 3:
        parts[1].merge(parts[2])
        if asked:
            ask(parts[1])
        parts[0].merge(parts[1])
    else:
        for p in parts[1:]:
            parts[0].merge(p)
            if asked:
                ask(parts[0])
        expect([pickle.dumps(p.__dict__) for p in parts[1:]] == keep, "merging changed the merged part")
    s = parts[0]
    expect(s.count == len(vals), "%d values are counted, not %d", s.count, len(vals))
    if not vals:
        return 0
    for _ in range(1 if asked else 2):
        for name, got in (("mean", s.mean), ("variance", s.variance), ("std", s.std_variance), ("min", s.min_value), ("max", s.max_value)):
            check_stats(name, vals, got)
    return [round(float(x), 6) for x in (s.mean, s.variance, s.min_value, s.max_value)]


ASK = dict(mean="get_mean", variance="get_variance", std="get_std_variance", min="get_min", max="get_max", median="get_median")


def make_table(case):
    rows = case["rows"]
    kind = case["kind"]
    has_none = any(v is None or isinstance(v, str) for r in rows for v in r)
    arr = (lambda r: np.array(r, dtype=object)) if has_none else np.array
    if kind == "inst":
        items = [(10 + i, Instance(inst_id=i, features=arr(r), label=i)) for i, r in enumerate(rows)]
    elif kind == "array":
        items = [(10 + i, arr(r)) for i, r in enumerate(rows)]
    else:
        items = [(10 + i, list(r)) for i, r in enumerate(rows)]
    if case.get("part"):
        t = PartTable(True, items, {10 + i: k for i, k in enumerate(case["part"])}, 3)
    else:
        t = DTable(True, items)
    t.schema = {"header": ["col%d" % (9 - c) for c in range(len(rows[0]))]}
    return t


def widen(case):
    """Many rows and columns: the values follow from the sizes."""
    if "wide" not in case:
        return case
    n, w, h = case["wide"], case["width"], scale.h
    rows = [[(h(i, c) % 7 - 3) * 1.0 if c % 3 == 0 else (h(i, c) % 20001 - 10000) / 16.0 if c % 3 == 1 else 1e6 + h(i, c) % 100 / 8.0 for c in range(w)] for i in range(n)]
    for c in range(w):
        rows[0][c] += 0.0 if rows[0][c] != 1.0 else 4.0        # one value at least is not abnormal
    return dict(case, rows=rows, part=[h(i, "p") % 3 for i in range(n)] if case.get("split") else None)


AS = dict(numpy=lambda cols: list(np.array(cols, dtype=np.int64)), int32=lambda cols: list(np.array(cols, dtype=np.int32)), tuple=tuple, whole=lambda cols: [float(c) for c in cols])


def run_table(case):
    case = widen(case)
    t = make_table(case)
    head = list(t.schema["header"])
    abn = case["abnormal"]
    expect(data_overview.get_header(t) == head, "the header is %r", data_overview.get_header(t))
    before = repr(list(t.collect()))
    cols = range(len(head)) if case["cols"] == -1 else [int(c) for c in case["cols"]]
    vals = {head[c]: [r[c] for r in case["rows"] if not (abn and r[c] in abn)] for c in cols}
    m = MultivariateStatisticalSummary(t, cols_index=AS[case["as"]](case["cols"]) if case.get("as") else case["cols"], abnormal_list=abn)
    # a summary of another table is asked in turn
    other = DTable(True, [(i, Instance(inst_id=i, features=np.array([4.0 * i]))) for i in range(3)])
    other.schema = {"header": ["other"]}
    om = MultivariateStatisticalSummary(other, cols_index=-1)
    got = []
    for q in case["ask"]:
        expect(om.get_mean() == {"other": 4.0} and om.get_max() == {"other": 8.0}, "the other table's mean and maximum are %r, %r", om.get_mean(), om.get_max())
        expect(list(om.get_median()) == ["other"] and om.get_median()["other"] in (0.0, 4.0, 8.0), "the other table's median is %r", om.get_median())
        name, p, sub = q
        some = None if sub is None else {head[c]: c for c in sub}
        want = [c for c in (vals if some is None else some) if c in vals]
        ans = m.get_quantile_point(p, some) if name == "quantile" else getattr(m, ASK[name])(some)
        expect(sorted(ans) == sorted(want), "%s of %r answers for %r", name, want, sorted(ans))
        for c in want:
            if name in ("quantile", "median"):
                c09.judge([float(v) for v in vals[c]], 0.5 if name == "median" else p, consts.DEFAULT_RELATIVE_ERROR, ans[c])
            else:
                check_stats(name, vals[c], ans[c])
        got.append(sorted((c, round(float(v), 6)) for c, v in ans.items()))
    expect(repr(list(t.collect())) == before and t.schema == {"header": head}, "asking changed the table")
    return got


def run_index(case):
    t = make_table(case)
    try:
        m = MultivariateStatisticalSummary(t, cols_index=case["cols"])
        m.get_mean()
    except (ValueError, IndexError):
        return "refused"
    expect(False, "the columns %r of a table with %d are answered: %r", case["cols"], len(case["rows"][0]), m.get_mean())


def run_label(case):
    items = list(enumerate(case["labels"]))
    y = PartTable(True, items, dict(enumerate(case["part"])), 3) if case.get("part") else DTable(True, items)
    if case["task"] == "regression":
        ok = True
        for v in case["labels"]:
            try:
                float(v)
            except (TypeError, ValueError):
                ok = False
        try:
            RegressionLabelChecker.validate_y(y)
        except ValueError:
            expect(not ok, "the labels %r are refused", case["labels"])
            return "refused"
        expect(ok, "the labels %r are taken for numbers", case["labels"])
        return "fine"
    distinct = set(case["labels"])
    try:
        n, labels = ClassifyLabelChecker.validate_y(y)
    except ValueError:
        expect(len(distinct) > consts.MAX_CLASSNUM, "%d classes are refused", len(distinct))
        return "refused"
    expect(len(distinct) <= consts.MAX_CLASSNUM, "%d classes are taken", len(distinct))
    labels = list(labels)
    expect(n == len(distinct) and len(labels) == n and set(labels) == distinct, "the classes of %r are %r (%r)", case["labels"], labels, n)
    return [n, sorted(map(repr, labels))]


def run_shape(case):
    rows = case["rows"]
    if not rows:
        t = DTable(True, [])
        t.schema = {"header": ["a"]}
        for f in (lambda: abnormal_detection.empty_table_detection(t), lambda: BoostingTree().data_alignment(t)):
            try:
                f()
            except ValueError:
                continue
            expect(False, "an empty table is used")
        return "refused"
    ids = list(range(len(rows)))
    t = (fed.raw_sparse_table if case["kind"] == "sparse" else fed.dense_table)(ids, rows)
    if case["kind"] in ("list", "array"):
        t = DTable(True, [(i, (np.array(r) if case["kind"] == "array" else list(r))) for i, r in zip(ids, rows)])
    expect(bool(data_overview.is_sparse_data(t)) == (case["kind"] == "sparse"), "a table of %s rows is called %s", case["kind"], data_overview.is_sparse_data(t))
    abnormal_detection.empty_table_detection(t)
    if case["kind"] in ("list", "array"):
        return "fine"
    before = repr(list(t.collect()))
    a = BoostingTree().data_alignment(t)
    expect(a.schema == t.schema, "the header becomes %r", a.schema)
    expect(repr(list(t.collect())) == before, "aligning changed the table")
    items = dict(a.collect())
    expect(sorted(items) == ids, "the rows are %r", sorted(items))
    expect(data_overview.is_sparse_data(a), "the aligned table is not sparse")
    for i in ids:
        f = items[i].features
        expect(f.get_shape() == len(rows[i]), "row %r has %r columns", rows[i], f.get_shape())
        for c, v in enumerate(rows[i]):
            got = f.get_data(c, 0)
            expect(got == v or abs(v) < TINY and got == 0, "column %d of row %r becomes %r", c, rows[i], got)
        expect(items[i].inst_id == i, "row %d is %r", i, items[i].inst_id)
    return "fine"


# ---------------------------------------------------------------------- enumeration

POOL = [0.0, 1.0, -2.5, 1000000.1, None]
POOLS = [[0.0, 1.0, -2.5, 3], [1000000.1, 1000000.7, 0.1], [7.0, -1.0, None, 5.0], [0.1, 0.1 + 2e-4, 3e7]]
ABN = [None, [], [-1.0], [1.0, 7.0], [0, 3], [0.0]]


def splits(vals, k):
    n = len(vals)
    for cut in itertools.combinations_with_replacement(range(n + 1), k - 1):
        b = (0,) + cut + (n,)
        yield [list(vals[x:y]) for x, y in zip(b, b[1:])]


def tasks(tier):
    big = tier != "quick"
    out = [dict(b="stream", pool=i, n=n, part=p, of=2 if n > 4 else 1) for i in range(len(POOLS)) for n in range(1, 7 if big else 6) for p in range(2 if n > 4 else 1)]
    out += [dict(b="table", kind=k, n=n, part=i, of=8) for k in ("inst", "list", "array") for n in ((1, 2, 3, 4, 5) if big else (1, 2, 3, 4)) for i in range(8)]
    out += [dict(b="asks", deep=big, part=i, of=8) for i in range(8)]
    out += [dict(b="parts", big=big, part=i, of=8) for i in range(8)]
    out += [dict(b="rest")]
    out += [dict(b="wide", big=big, part=i, of=4) for i in range(4)]
    return out


ASKS = [("mean", 0, None), ("variance", 0, None), ("std", 0, None), ("min", 0, None), ("max", 0, None), ("median", 0, None),
        ("quantile", 0.0, None), ("quantile", 0.25, None), ("quantile", 0.9, None), ("quantile", 1.0, None),
        ("mean", 0, [1]), ("median", 0, [0]), ("quantile", 0.5, [1]), ("max", 0, [0]), ("std", 0, [1, 0])]
COLS = [-1, [0], [1], [1, 0], ["1"], [0, 1]]


def cases(block):
    b = block["b"]
    if b == "stream":
        for vals in itertools.product(POOLS[block["pool"]], repeat=block["n"]):
            for k in (1, 2, 3):
                for parts in splits(vals, k):
                    if k == 3 and block["n"] > 4 and any(not p for p in parts):
                        continue
                    for tree in ("left", "right") if k == 3 else ("left",):
                        for abn in ABN if block["n"] < 4 and k < 3 else ABN[::2 if sum(map(len, parts[:1])) % 2 else 3] if block["n"] < 5 else ABN[:1] + ABN[sum(map(len, parts[:1])) % 2 + 2::3]:
                            yield dict(k="stream", parts=parts, tree=tree, abnormal=abn)
    elif b == "table":
        n = block["n"]
        a = [0.0, 1.0, -2.5] if n < 4 else [0.0, -2.5]
        c = [4.0, 1000000.1, 1.0] if n < 4 else [4.0, 1.0]
        for x in itertools.product(a, repeat=n):
            for y in itertools.product(c, repeat=n):
                for cols in COLS:
                    for abn in (None, [1.0]) if n < 4 else (None,) if cols != -1 else (None, [1.0]):
                        chosen = range(2) if cols == -1 else [int(q) for q in cols]
                        if abn and any(all(v in abn for v in (x, y)[q]) for q in chosen):
                            continue
                        yield dict(k="table", kind=block["kind"], rows=[list(r) for r in zip(x, y)], cols=cols, abnormal=abn, ask=ASKS if cols == -1 else ASKS[:10])
    elif b == "parts":
        # rows in up to three partitions, some of them empty
        for n in range(1, 5 if block["big"] else 4):
            for x in itertools.product([0.0, 1.0, -2.5], repeat=n):
                y = [4.0 + ((7 * i) % 5) * (-1) ** i for i in range(n)]
                for part in itertools.product(range(3), repeat=n):
                    for abn in (None, [1.0]):
                        if not abn or not all(v in abn for v in x):
                            yield dict(k="table", kind=("inst", "list", "array")[sum(part) % 3], rows=[list(r) for r in zip(x, y)], cols=-1 if n % 2 else [1, 0],
                                       abnormal=abn, ask=ASKS, part=list(part))
        for n in range(1, 5):
            for lab in itertools.product((0, "a", 2.5), repeat=n):
                for part in itertools.product(range(3), repeat=n):
                    yield dict(k="label", task="classification", labels=list(lab), part=list(part))
    elif b == "wide":
        for n in (6, 7, 8, 9, 10, 11, 12, 16, 17, 33, 64, 101, 257, 1001, 3001) + ((10007,) if block["big"] else ()):
            for w in (1, 2, 5, 11, 26) if n < 300 else (3,):
                for kind in ("inst", "list", "array"):
                    ask = [a for a in ASKS if a[2] is None] + [("mean", 0, [w - 1, 0] if w > 1 else [0]), ("quantile", 0.3, [w // 2]), ("quantile", 0.01, None), ("max", 0, None)]
                    if w > 2:
                        ask += [(a, 0, o) for a in ("min", "variance", "median") for o in ([1, w - 1, 0], [0, 1, w - 1])] + [("quantile", 0.7, o) for o in ([1, w - 1, 0], [0, 1, w - 1])]
                    for cols in (-1, [w - 1], list(range(0, w, 2))[::-1]):
                        yield dict(k="table", wide=n, width=w, kind=kind, cols=cols, abnormal=None if n % 2 else [1.0], ask=ask, split=(n + w) % 2)
        for n in (6, 9, 17, 40, 300, 2000):
            for parts in (1, 2, 3, 5):
                cut = [n * i // parts for i in range(parts + 1)]
                vals = [(scale.h(i, n) % 4001 - 2000) / 8.0 if i % 5 else -1.0 for i in range(n)]
                for abn in (None, [-1.0]):
                    yield dict(k="stream", parts=[vals[a:b] for a, b in zip(cut, cut[1:])], tree="left", abnormal=abn)
    elif b == "asks":
        tables = [[[0.0, 4.0], [1.0, 4.0], [-2.5, 1.0]], [[1.0, -2.0], [1.0, 3.5], [1.0, 2.0], [1.0, -7.0], [2.0, 0.0]], [[3.0, 1.0]]]
        for rows in tables:
            for cols in (-1, [1, 0]):
                for ask in itertools.permutations(ASKS, 3 if not block["deep"] else 4):
                    yield dict(k="table", kind="inst", rows=rows, cols=cols, abnormal=None, ask=list(ask))
        # columns nobody asked to summarise, before, between and after those that were
        rows = [[0.0, 4.0, 7.5], [1.0, 4.0, -1.0], [-2.5, 1.0, 0.25]]
        for cols in ([0], [1], [2], [0, 2], [2, 1], [1, 0], -1):
            for k in (1, 2, 3):
                for sub in itertools.permutations(range(3), k):
                    ask = [(a, 0, list(sub)) for a in ASK] + [("quantile", q, list(sub)) for q in (0.0, 0.4, 1.0)]
                    for at in range(len(ask)):
                        yield dict(k="table", kind=("inst", "list", "array")[at % 3], rows=rows, cols=cols, abnormal=None, ask=ask[at:] + ask[:at])
        # columns chosen by numbers that are no plain ints
        for how in AS:
            for k in (1, 2, 3):
                for cols in itertools.permutations(range(3), k):
                    for kind in ("inst", "list", "array"):
                        yield dict(k="table", kind=kind, rows=rows, cols=list(cols), abnormal=None, ask=[a for a in ASKS if a[2] is None], **{"as": how})
        # abnormal values that are no numbers
        for bad in (None, "", "NA"):
            for pos in itertools.product((0, 1), repeat=4):
                rows = [[bad if p else 1.5 * i, float(i)] for i, p in enumerate(pos)] + [[2.0, 9.0]]
                for kind in ("inst", "list", "array"):
                    yield dict(k="table", kind=kind, rows=rows, cols=-1, abnormal=[bad], ask=ASKS)
    else:
        for rows in ([[1.0, 2.0]], [[1.0, 2.0], [0.0, 5.0]]):
            for cols in ([2], [0, 2], ["5"], ["x"], [7, 0]):
                for kind in ("inst", "list"):
                    yield dict(k="index", kind=kind, rows=rows, cols=cols)
        for n in range(0, 5):
            for lab in itertools.product((0, 1, "a", "1", 2.5, True, ""), repeat=n):
                yield dict(k="label", task="classification", labels=list(lab))
            for lab in itertools.product((0, "1.5", -2.5, "x", None, ""), repeat=n):
                yield dict(k="label", task="regression", labels=list(lab))
        for n in (consts.MAX_CLASSNUM - 1, consts.MAX_CLASSNUM, consts.MAX_CLASSNUM + 1, consts.MAX_CLASSNUM + 7):
            for tail in ([], [0, 0, 1]):
                yield dict(k="label", task="classification", labels=list(range(n)) + tail)
        yield dict(k="shape", rows=[], kind="dense")
        for kind in ("dense", "sparse", "list", "array"):
            for n in (1, 2, 3):
                for a in itertools.product((0.0, 1.0, -3.0, 1e-7), repeat=n):
                    yield dict(k="shape", kind=kind, rows=[[v, 2.0, 0.0] for v in a])
                    yield dict(k="shape", kind=kind, rows=[[v] for v in a])


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block.get("of", 1) != block.get("part", 0):
            continue
        r = ctx.case(case, lambda: run_case(case), steps=sum(map(len, case.get("parts", [[0]]))) + len(case.get("ask", ())))
        if r is not None:
            ctx.state(case)
            ctx.outcome(r)


def run_case(case):
    return dict(stream=run_stream, table=run_table, index=run_index, label=run_label, shape=run_shape)[case["k"]](case)
