"""C20 - running a component: configuration and data sets decide exactly what is fitted and scored."""
import copy
import itertools

import numpy as np

from mc import compat, core, fed, sim
from mc.core import expect, close
from mc.scale import h
from computing.d_table import DTable
from ml.model_base import ModelBase
from ml.param.base_param import BaseParam

META = dict(
    title="Running a component fits and scores exactly the data sets it is given",
    statement="Running a component applies the configuration to its parameters and checks them, then does what the inputs ask and nothing else: training data is fitted once and scored, giving its predictions with 'train' appended, together with those of evaluation data with 'validation' appended; evaluation data alone is scored with 'test' appended; other data is fitted, or transformed when a model is given; a given model is loaded first; without data nothing is run; a component that need not run passes its data through; cross-validation and one-vs-rest get the training data instead. The output holds every prediction unchanged under its key, with the prediction header and the id name of the input, whatever keys the data sets come under. Every phase runs under its own flow id: task id, then phase. The same holds for whole federated trainings started this way.",
    quantifier=dict(over=["inputs", "configurations", "histories"], text="all combinations of flags, given models, present data sets and where they stand, parties with and without predictions, all histories of two runs; whole federated and standalone runs over small label patterns, configurations and one and two hosts; and listed runs up to 70 rows, five classes, eleven rounds and five hosts"),
    why_tests_cant="No test runs a component. Which data is fitted, scored or skipped depends on the combination of flags, models and data sets; a branch that scores the wrong one or drops rows shows only for its combination.",
    anchors=dict(files=["ml/model_base.py", "ml/tree/boosting_tree.py", "ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "xgboost/hetero_secureboosting_tree_guest.py", "ml/utils/param_extract.py"],
                 state=[dict(name="data_output, flowid", meaning="result of the run and tag of the phase", where="ModelBase")],
                 mechanism=[dict(name="dispatch", where="ModelBase.run, _run_data")],
                 observe_at=["calls the component receives", "save_data()", "metrics handed to the tracker"], hook_needed=None),
    level="model_checking",
    technique="exhaustive enumeration of run histories against a reference dispatcher, and of whole federated runs against direct fitting and prediction",
    level_note="Exhaustive over the stated spaces; federated runs use identity encryption and the default schedule.",
    bounds=dict(quick=dict(runs=2, rows=70, hosts=5), thorough=dict(runs=3, rows=70, hosts=6)),
    rule="a case is a history of runs or one federated run; states are distinct cases, outcomes distinct call sequences and outputs",
    assumptions=["training and evaluation data of one run have different keys"],
)


class Cv(BaseParam):
    def __init__(self):
        self.need_cv = False


class Ovr(BaseParam):
    def __init__(self):
        self.need_one_vs_rest = False


class StubParam(BaseParam):
    def __init__(self):
        self.level = 1
        self.need_run = True
        self.cv_param = Cv()
        self.one_vs_rest_param = Ovr()
        self.checked = []

    def check(self):
        self.checked.append(self.level)
        if self.level == 13:
            raise ValueError("level 13 is not supported")
        return True


class BareParam(BaseParam):
    def __init__(self):
        self.level = 1
        self.checked = []

    def check(self):
        self.checked.append(self.level)
        return True


class Tags:
    def __init__(self):
        self.flowid = None

    def set_flowid(self, flowid):
        self.flowid = flowid


class Stub(ModelBase):
    """Records what it is asked to do; scores a row as [label, key, round]."""

    def __init__(self, bare, scores):
        super().__init__()
        self.model_param = BareParam() if bare else StubParam()
        self.transfer_variable = Tags()
        self.calls = []
        self.scores = scores
        self.given = []

    def note(self, what, x, flow=True):
        if flow:
            expect(self.transfer_variable.flowid == self.flowid, "%s runs under flow id %r, messages under %r", what, self.flowid, self.transfer_variable.flowid)
        self.calls.append((what, getattr(x, "mark", x), self.flowid if flow else None))

    def _init_model(self, param):
        self.calls.append(("init", param.level, None))

    def _load_model(self, d):
        self.calls.append(("load", d.get("model", d.get("isometric_model")), None))

    def table(self, x, what):
        if x is None or x.mark not in self.scores:
            return None
        t = x.mapValues(lambda v: [v, what, len(self.calls)])
        self.given.append((t, dict(t.collect())))
        return t

    def fit(self, x):
        self.note("fit", x)
        return self.table(x, "fit")

    def predict(self, x):
        self.note("predict", x)
        return self.table(x, "predict")

    def transform(self, x):
        self.note("transform", x)
        return self.table(x, "transform")

    def cross_validation(self, x):
        self.note("cv", x, False)

    def one_vs_rest_fit(self, train_data=None):
        self.note("ovr_fit", train_data, False)

    def one_vs_rest_predict(self, x):
        self.note("ovr_predict", x, False)
        return self.table(x, "ovr_predict")


def data(kind, sid, run):
    """A table per kind; kinds have different keys. A table without rows is data, too."""
    base = dict(train_data=0, eval_data=10 ** 4, data=2 * 10 ** 4)[kind]
    vals = dict(train_data=["a", None, 0], eval_data=["b"], data=["c", ""])[kind]
    if kind in run.get("empty", ()):
        vals = []
    if kind in run.get("sizes", {}):
        vals = [vals[i % len(vals)] if i % 3 else i for i in range(run["sizes"][kind])]
    t = DTable(True, [(base + i, v) for i, v in enumerate(vals)])
    t.schema = {"header": ["x0"], "sid_name": sid}
    t.mark = kind
    return t


def expected(run, task, scores):
    """-> (calls, output as None / dict, schema or None); output 'any' where none is defined."""
    calls = [("init", run["level"], None)]
    flags = run["flags"]
    if flags.get("cv"):
        stage = "cv"
    elif flags.get("ovr"):
        stage = "ovr"
        if run["args"].get("model"):
            calls.append(("load", "M", None))
    elif run["args"].get("model"):
        calls.append(("load", "M", None))
        stage = "transform"
    elif run["args"].get("iso"):
        calls.append(("load", "I", None))
        stage = "fit"
    else:
        stage = "fit"
    if run["data"] is None:
        return calls, "any", None
    present = dict((k, s) for s, ks in enumerate(run["data"]) for k in ks)
    if not flags.get("run", True):
        return calls, ("pass", "data" if "data" in present else None), None
    T = "train_data" if "train_data" in present else None
    E = "eval_data" if "eval_data" in present else None
    D = "data" if "data" in present else None
    parts = []

    def score(kind, what, tag, flow):
        calls.append((what, kind, flow))
        if kind in scores:
            parts.append((kind, what, len(calls), tag))

    f = lambda x: "%s.%s" % (task, x)    # noqa: E731
    schema = None
    if stage == "cv":
        calls.append(("cv", T, None))
        return calls, "any", None
    if stage == "ovr":
        if T:
            calls.append(("ovr_fit", T, None))
            score(T, "ovr_predict", "train", None)
            if E:
                score(E, "ovr_predict", "validation", None)
            schema = T
        elif E:
            score(E, "ovr_predict", "test", None)
            schema = E
        else:
            return calls, "any", None
    elif T:
        calls.append(("fit", T, f("train")))
        score(T, "predict", "train", f("predict"))
        if E:
            score(E, "predict", "validation", f("validate"))
        schema = T
    elif E:
        score(E, "predict", "test", f("predict"))
        schema = E
    else:
        what = "transform" if stage == "transform" else "fit"
        calls.append((what, D, f(what)))
        if D and D in scores:
            parts.append((D, what, len(calls), None))
    if not parts:
        return calls, None, None
    out = {}
    for kind, what, n, tag in parts:
        for k, v in data(kind, None, run).collect():
            out[k] = [v, what, n] + ([tag] if tag else [])
    return calls, out, schema


def config(run, bare):
    flags = run["flags"]
    if bare:
        return {"BareParam": {"level": run["level"]}, "Other": {"level": 99}}
    return {"StubParam": {"level": run["level"], "need_run": flags.get("run", True), "cv_param": {"need_cv": flags.get("cv", False)},
                          "one_vs_rest_param": {"need_one_vs_rest": flags.get("ovr", False)}, "unknown": 5}, "Other": {"level": 99}}


def run_hist(case):
    m = Stub(case["bare"], case["scores"])
    m.set_taskid(case["task"])
    total = 0
    for run in case["runs"]:
        m.calls = []
        given = {}
        sets = None
        if run["data"] is not None:
            sets = {}
            for s, kinds in enumerate(run["data"]):
                sets["set%d" % s] = {}
                for k in kinds:
                    given[k] = sets["set%d" % s][k] = data(k, "sid-" + k, run)
        args = {}
        if run["args"].get("model"):
            args["model"] = "M"
        if run["args"].get("iso"):
            args["isometric_model"] = "I"
        if sets is not None:
            args["data"] = sets
        elif run["args"].get("none"):
            args["data"] = None
        before = {k: list(t.collect()) for k, t in given.items()}
        conf = config(run, case["bare"])
        frozen = copy.deepcopy(conf)
        if run["level"] == 13:
            try:
                m.run(component_parameters=conf, args=args)
            except ValueError:
                pass
            else:
                core.expect(False, "settings that the check refuses are run")
            expect(m.calls == [], "refused settings were still used: %r", m.calls)
            continue
        m.run(component_parameters=conf, args=args)
        calls, out, schema = expected(run, case["task"], case["scores"])
        got = m.calls
        if run["flags"].get("cv"):
            got = [c for c in got if c[0] != "load"]
        expect(got == calls, "the run did %r instead of %r", got, calls)
        expect(m.model_param.checked[-1:] == [run["level"]], "the settings were checked as %r", m.model_param.checked)
        expect(conf == frozen, "the run changed the configuration to %r", conf)
        for k, t in given.items():
            expect(list(t.collect()) == before[k] and t.schema == {"header": ["x0"], "sid_name": "sid-" + k}, "the run changed its %s: %r, %r", k, list(t.collect()), t.schema)
        for t, was in m.given:
            expect(dict(t.collect()) == was, "the run changed predictions it was given: %r instead of %r", dict(t.collect()), was)
        total += len(calls)
        o = m.save_data()
        if out == "any":
            continue
        if out is None:
            expect(o is None, "the output is %r instead of nothing", o)
        elif isinstance(out, tuple):
            expect(o is given.get(out[1]), "the data passed through is %r instead of %r", o, given.get(out[1]))
        else:
            pairs = list(o.collect())
            expect(len(pairs) == len(out) and dict(pairs) == out, "the output is %r instead of %r", pairs, out)
            if schema is not None:
                expect(o.schema == {"header": ["label", "predict_result", "predict_score", "predict_detail", "type"], "sid_name": "sid-" + schema},
                       "the output is described as %r", o.schema)
    return total, [c[0] for c in m.calls], repr(m.save_data())


class Tracker:
    def __init__(self):
        self.got = []

    def set_metric_meta(self, metric_name, metric_namespace, metric_meta):
        self.got.append(("meta", metric_name, metric_namespace, dict(metric_meta.metas)))

    def log_metric_data(self, metric_name, metric_namespace, metrics):
        self.got.append(("data", metric_name, metric_namespace, metrics))


class Meta:
    def __init__(self):
        self.metas = {"unit": "x"}

    def update_metas(self, d):
        self.metas.update(d)


def run_metric(case):
    m = ModelBase()
    t = Tracker()
    m.set_tracker(t)
    m.set_taskid(case["task"])
    m.transfer_variable = Tags() if case["tags"] else None
    if case["cv"] is not None:
        m.need_cv = case["cv"]
    if case["fold"] is not None:
        m.set_cv_fold(case["fold"])
    if case["flow"] is not None:
        m.set_flowid(case["flow"])
        expect(m.flowid == "%s.%s" % (case["task"], case["flow"]), "the flow id is %r", m.flowid)
        if case["tags"]:
            expect(m.transfer_variable.flowid == m.flowid, "messages run under %r", m.transfer_variable.flowid)
    fold = case["fold"] or 0
    name = "loss.%d" % fold if case["cv"] else "loss"
    m.callback_metric("loss", "train", [1, 2])
    expect(t.got == [("data", name, "train", [1, 2])], "the tracker got %r", t.got)
    t.got = []
    m.callback_meta("loss", "train", Meta())
    want = {"unit": "x"}
    if not case["cv"]:
        want["curve_name"] = "loss"
    elif case["flow"] is not None:
        want["curve_name"] = str(case["flow"])
    expect(t.got == [("meta", name, "train", want)], "the tracker got %r instead of %r", t.got, want)
    got = m.get_metric_name("auc")
    expect(got == ("auc_%s" % m.flowid if case["cv"] else "auc"), "the metric is called %r", got)
    m.set_predict_data_schema(None, {"sid_name": 1})
    return got, t.got


# -------------------------------------------------------------------- real components

def conf_of(c):
    return {"BoostingTreeParam": {"task_type": c["task"], "objective_param": {"objective": c["objective"], "params": c.get("params")}, "num_trees": c["trees"],
                                  "learning_rate": c["lr"], "bin_num": 4, "subsample_feature_rate": 1.0, "tree_param": {"criterion_params": [0.1], "max_depth": c["depth"], "min_sample_split": 2, "min_impurity_split": 1e-3},
                                  "encrypt_param": {"key_length": 256}, "predict_param": {"threshold": c["threshold"]}, "tol": 1e-9}}


def param_of(c):
    return fed.boost_param(task=c["task"], objective=c["objective"], params=c.get("params"), num_trees=c["trees"], lr=c["lr"], bin_num=4, threshold=c["threshold"],
                           tree=fed.tree_param(max_depth=c["depth"]), tol=1e-9)


def same(a, b, what):
    expect(set(a) == set(b), "%s: rows %r instead of %r", what, sorted(a), sorted(b))
    for k in a:
        x, y = list(a[k]), list(b[k])
        expect(len(x) == len(y) and x[0] == y[0] and (x[1] == y[1] or (isinstance(x[1], float) and close(x[1], y[1]))) and close(float(x[2]), float(y[2])), "%s: row %r is %r instead of %r", what, k, x, y)
        expect(set(x[3]) == set(y[3]) and all(close(float(x[3][q]), float(y[3][q])) for q in x[3]), "%s: row %r is %r instead of %r", what, k, x, y)
        expect(x[4:] == y[4:], "%s: row %r is marked %r instead of %r", what, k, x[4:], y[4:])


def run_real(case):
    c, n, hosts = case["conf"], len(case["labels"]), case["hosts"]
    ids = list(range(n))
    guest = [[float(v)] for v in case["guest"]]
    hrows = [[[float(v)] for v in h] for h in hosts]
    test = dict(ids=[100, 101, 102], guest=[[-1.0], [0.5], [3.0]], hosts=[[[2.0], [0.0], [1.0]] for _ in hosts], labels=[case["labels"][0]] * 3)
    tids, tguest, thosts, tlab = test["ids"], test["guest"], test["hosts"], test["labels"]
    plan = case["plan"]
    with fed.FakeKeys.on():
        ref_eval = fed.Boost(ids, guest, case["labels"], hrows, param_of(c), test=test).run().out["pred"] if plan != "train" else {}
        ref_train = fed.Boost(ids, guest, case["labels"], hrows, param_of(c), test=dict(ids=ids, guest=guest, hosts=hrows, labels=case["labels"])).run().out["pred"]
        s = sim.Sim(None, horizon=3000000)
        from federation.transfer_inst import TransferInstGuest, TransferInstHost
        from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
        from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
        outs = {}

        def go(m, tr, ev, who):
            m.set_taskid("job7")
            confs = conf_of(c)
            first = {"train_data": tr}
            if plan == "both":
                first["eval_data"] = ev
            if plan == "split":
                m.run(component_parameters=confs, args={"data": {"one": first, "two": {"eval_data": ev}}})
            else:
                m.run(component_parameters=confs, args={"data": {"one": first}})
            o = m.save_data()
            outs[who] = [None if o is None else dict(o.collect()), None if o is None else o.schema]
            if plan == "later":
                m.run(component_parameters=confs, args={"data": {"one": {"eval_data": ev}}})
                o = m.save_data()
                outs[who] += [None if o is None else dict(o.collect()), None if o is None else o.schema]

        def g():
            m = HeteroSecureBoostingTreeGuest()
            m.set_transfer_inst(TransferInstGuest(12345, len(hosts)))
            go(m, fed.dense_table(ids, guest, case["labels"]), fed.dense_table(tids, tguest, tlab), "g")

        def h(i):
            m = HeteroSecureBoostingTreeHost()
            m.set_transfer_inst(TransferInstHost(port=12345))
            m.set_runtime_idx(i)
            go(m, fed.dense_table(ids, hrows[i]), fed.dense_table(tids, thosts[i]), i)

        s.spawn("guest", g)
        for i in range(len(hosts)):
            s.spawn("host%d" % i, lambda i=i: h(i))
        fed.run_parties(s)
    want = {k: list(v) + ["train"] for k, v in ref_train.items()}
    if plan in ("both", "split"):
        want.update({k: list(v) + ["validation"] for k, v in ref_eval.items()})
    same(outs["g"][0], want, "the run's output")
    head = {"header": ["label", "predict_result", "predict_score", "predict_detail", "type"], "sid_name": None}
    expect(outs["g"][1] == head, "the output is described as %r", outs["g"][1])
    if plan == "later":
        same(outs["g"][2], {k: list(v) + ["test"] for k, v in ref_eval.items()}, "the second run's output")
        expect(outs["g"][3] == head, "the output is described as %r", outs["g"][3])
    for i in range(len(hosts)):
        expect(all(x is None for x in outs[i]), "host %d ends with %r", i, outs[i])
    return sorted((k, round(float(v[2]), 9), v[4]) for k, v in want.items())


def run_alone(case):
    from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as Alone
    c, n = case["conf"], len(case["labels"])
    ids, tids = list(range(n)), [100, 101, 102]
    rows = [[float(v), float(w)] for v, w in zip(case["guest"], case["hosts"][0])]
    trows = [[-1.0, 2.0], [0.5, 0.0], [3.0, 1.0]]
    tr = lambda: fed.dense_table(ids, rows, case["labels"])     # noqa: E731
    ev = lambda: fed.dense_table(tids, trows, [case["labels"][0]] * 3)  # noqa: E731
    with fed.FakeKeys.on():
        m = Alone()
        m._init_model(param_of(c))
        m.fit(tr())
        want = {k: list(v) + ["train"] for k, v in m.predict(tr()).collect()}
        test = {k: list(v) for k, v in m.predict(ev()).collect()}
        m = Alone()
        m.set_taskid("job7")
        d = {"one": {"train_data": tr()}}
        if case["plan"] == "both":
            d["one"]["eval_data"] = ev()
        elif case["plan"] == "split":
            d = {"zero": {"eval_data": ev()}, "one": d["one"]}
        m.run(component_parameters=conf_of(c), args={"data": d})
        if case["plan"] in ("both", "split"):
            want.update({k: v + ["validation"] for k, v in test.items()})
        same(dict(m.save_data().collect()), want, "the run's output")
        if case["plan"] == "later":
            m.run(component_parameters=conf_of(c), args={"data": {"one": {"eval_data": ev()}}})
            same(dict(m.save_data().collect()), {k: v + ["test"] for k, v in test.items()}, "the second run's output")
    return sorted((k, round(float(v[2]), 9), v[4]) for k, v in want.items())


# ---------------------------------------------------------------------- enumeration

KINDS = ("train_data", "eval_data", "data")
CONFS = [dict(task="classification", objective="cross_entropy", trees=2, lr=0.5, depth=2, threshold=0.5),
         dict(task="classification", objective="cross_entropy", trees=1, lr=0.3, depth=3, threshold=0.55),
         dict(task="regression", objective="lse", trees=2, lr=0.7, depth=2, threshold=0.5),
         dict(task="regression", objective="huber", params=[0.6], trees=1, lr=1.0, depth=2, threshold=0.5)]


# which kinds of data the component has predictions for (a host has none)
SCORES = [list(KINDS), []] + [[k] for k in KINDS] + [[k for k in KINDS if k != x] for x in KINDS]


def runs(flags=True):
    combos = [{}]
    if flags:
        combos = [dict(run=r, cv=c, ovr=o) for r in (True, False) for c in (False, True) for o in (False, True)]
    argss = [dict(), dict(model=1), dict(iso=1), dict(model=1, iso=1)]
    datas = [None]
    for r in range(4):
        for ks in itertools.combinations(KINDS, r):
            datas.append([list(ks)])
            if r > 1:
                datas.append([[k] for k in ks])
                datas.append([[k] for k in reversed(ks)])
            if r == 3:
                datas += [[[ks[0], ks[2]], [ks[1]]], [[ks[1]], [], [ks[0], ks[2]]]]
    for f, a, d in itertools.product(combos, argss, datas):
        yield dict(flags=f, args=a, data=d, level=5)
    for f in combos:
        yield dict(flags=f, args=dict(none=1), data=None, level=6)
        yield dict(flags=f, args=dict(), data=[["train_data"]], level=13)


def tasks(tier):
    big = tier != "quick"
    out = [dict(b="one", scores=s, bare=b) for s in SCORES for b in (True, False)]
    out += [dict(b="two", scores=s, part=i, of=4, deep=big) for s in (SCORES if big else SCORES[:2]) for i in range(4)]
    out += [dict(b="metric")]
    out += [dict(b="sizes", scores=s) for s in SCORES]
    out += [dict(b="real", hosts=h, n=n, part=i, of=4) for h in (1, 2) for n in ((4, 5) if big else (4,)) for i in range(4)]
    out += [dict(b="alone", n=5 if big else 4)]
    out += [dict(b="wide", part=i, of=4, deep=big) for i in range(4)]
    return out


def wide(big):
    """Runs beyond the small patterns: more rows, classes, rounds, depths and hosts."""
    sizes = [dict(n=a, hosts=b, classes=c, trees=d, depth=e) for a, b, c, d, e in
             [(12, 1, 2, 3, 3), (30, 3, 2, 2, 4), (20, 4, 2, 11, 2), (24, 2, 3, 2, 3), (30, 1, 5, 2, 3), (70, 5, 2, 1, 5)]]
    if big:
        sizes += [dict(n=a, hosts=b, classes=c, trees=d, depth=e) for a, b, c, d, e in itertools.product((9, 40), (1, 3, 6), (2, 4), (1, 4), (1, 3, 6))]
    for z in sizes:
        for ci, c in enumerate(CONFS):
            n = z["n"]
            if c["task"] == "classification":
                labs = [i % z["classes"] if i < z["classes"] else h(i, ci) % z["classes"] for i in range(n)]
            elif z["classes"] > 2:
                continue
            else:
                labs = [(h(i, ci) % 11) / 4.0 for i in range(n)]
            for plan in ("train", "both", "split", "later"):
                yield dict(conf=dict(c, trees=z["trees"], depth=z["depth"]), labels=labs, guest=[h(i, "g") % 7 for i in range(n)],
                           hosts=[[h(i, p) % 9 for i in range(n)] for p in range(z["hosts"])], plan=plan)


def cases(block):
    b = block["b"]
    if b == "one":
        for r in runs(not block["bare"]):
            if block["bare"] and r["level"] == 13:
                continue
            for task in ("", "job7"):
                yield dict(k="hist", task=task, scores=block["scores"], bare=block["bare"], runs=[r])
            ks = sorted({k for s in r["data"] or () for k in s})
            for m in range(1, 2 ** len(ks)):
                yield dict(k="hist", task="job7", scores=block["scores"], bare=block["bare"], runs=[dict(r, empty=[k for i, k in enumerate(ks) if m >> i & 1])])
    elif b == "sizes":
        # data sets of any size, and each much larger than the other
        for r in runs(False):
            ks = sorted({k for s in r["data"] or () for k in s})
            for ns in itertools.product((0, 1, 5, 40, 300) if len(ks) < 3 else (1, 40), repeat=len(ks)):
                if ks:
                    yield dict(k="hist", task="job7", scores=block["scores"], bare=False, runs=[dict(r, flags=dict(ovr=sum(ns) % 2 == 0), sizes=dict(zip(ks, ns)))])
    elif b == "two":
        few = [r for r in runs() if (r["data"] is None or len(r["data"]) <= 2) and not (r["args"].get("model") and r["args"].get("iso"))
               and not (r["flags"].get("cv") and r["flags"].get("ovr"))]
        few = few[::5]
        for x in itertools.product(few, repeat=2):
            yield dict(k="hist", task="t", scores=block["scores"], bare=False, runs=list(x))
        if block["deep"]:
            for x in itertools.product(few[::2], repeat=3):
                yield dict(k="hist", task="t", scores=block["scores"], bare=False, runs=list(x))
    elif b == "metric":
        for cv, fold, flow, task, tags in itertools.product((None, False, True), (None, 0, 3), (None, "train", "0", 5, "a.b"), ("", "job7"), (False, True)):
            yield dict(k="metric", cv=cv, fold=fold, flow=flow, task=task, tags=tags)
    elif b == "wide":
        for c in wide(block["deep"]):
            if len(c["hosts"]) == 1:
                yield dict(c, k="alone")
            yield dict(c, k="real")
    else:
        n = block["n"]
        for ci, c in enumerate(CONFS):
            labs = [l for l in itertools.product((0, 1), repeat=n) if 0 < sum(l) < n] if c["task"] == "classification" else [l for l in itertools.product((0.0, 1.0, 2.5), repeat=n) if len(set(l)) > 1 and l[0] == 0.0]
            for li, lab in enumerate(labs):
                for plan in ("train", "both", "split", "later"):
                    if b == "alone":
                        yield dict(k="alone", conf=c, labels=list(lab), guest=[0, 1, 2, 0, 1][:n], hosts=[[1, 1, 0, 2, 0][:n]], plan=plan)
                    elif (li + ci) % 2 == 0 or n == 4 and ci == 0:
                        hosts = [[1, 1, 0, 2, 0][:n]] + ([[0, 2, 1, 1, 2][:n]] if block["hosts"] == 2 else [])
                        yield dict(k="real", conf=c, labels=list(lab), guest=[0, 1, 2, 0, 1][:n], hosts=hosts, plan=plan)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block.get("of", 1) != block.get("part", 0):
            continue
        r = ctx.case(case, lambda: run_case(case), steps=len(case.get("runs", [1])))
        if r is not None:
            ctx.state(case)
            ctx.outcome(r)


def run_case(case):
    return dict(hist=run_hist, metric=run_metric, real=run_real, alone=run_alone)[case["k"]](case)
