"""C25 - lossless: splitting the columns over parties changes nothing against one party holding them all."""
import itertools

import numpy as np

from mc import compat, core, fed, ref, scale
from mc.core import expect, close
from mc.parts import PartTable
from mc.props import c05, c14
from xgboost.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as AloneGuest

META = dict(
    title="Federation loses nothing: split columns train and predict like joined ones",
    statement="The standalone variant, given all columns, grows in every round a tree that is the best over all its columns for the current gradients, with exact leaf weights, losses and stopping, and predicts every row as the sum of the leaves the row leads to. For every distribution of the same columns over a guest and its hosts, federated training ends with the same number of rounds, the same losses and the same score and predicted class for every row as the standalone variant, unless two different splits are equally good at some node (then both are still best).",
    quantifier=dict(over=["inputs", "configurations"], text="all distributions of three and four columns over a guest and up to two hosts, all label vectors and all small grids of values over up to six rows, all objectives, binary and multi-class, several depths, rates and round limits, every dimension swept far beyond the grids on fixed data"),
    why_tests_cant="The claim of SecureBoost relates two separate implementations over all data; no test trains either. A deviation in one party's candidates or a guest-only fix in one variant shows only where that party owns the best split.",
    anchors=dict(files=["xgboost/hetero_decision_tree_guest.py", "xgboost/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/splitter.py"],
                 state=[dict(name="F, history_loss, trees_", meaning="the model", where="both boosters")],
                 mechanism=[dict(name="standalone growth", where="xgboost.HeteroDecisionTreeGuest.fit"), dict(name="standalone boosting", where="xgboost.HeteroSecureBoostingTreeGuest.fit"), dict(name="standalone prediction", where="predict, traverse_tree")],
                 observe_at=["scores and losses after training", "prediction results", "exported trees"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive execution of standalone and federated trainings on the same data, compared with each other and with a greedy-optimal reference",
    level_note="Exhaustive over the stated grids on the default schedule with identity encryption; nodes with tied splits are recognised by the reference and end the comparison of that case.",
    bounds=dict(quick=dict(rows=6, columns=4, hosts=2, rounds=3), thorough=dict(rows=6, columns=4, hosts=2, rounds=3)),
    rule="a case is (columns, labels, parameters, distribution of columns); states are distinct (data, standalone trees); outcomes distinct losses",
    assumptions=["rate of sampled features 1"],
)


class Alone:
    """The standalone variant behind the interface of fed.Boost."""

    class _Steps:
        steps = 1

    def __init__(self, ids, guest_rows, labels, host_rows, param, test=None, form=None):
        assert not host_rows
        self.form = form or {}
        self.args = (ids, guest_rows, labels, param, test)
        self.nhosts, self.models, self.out, self.sim = 0, {}, {}, Alone._Steps()

    def run(self):
        ids, rows, labels, param, test = self.args
        plain = fed.raw_sparse_table if self.form.get("sparse") else fed.dense_table
        # the same rows under other keys, in another order, on several partitions: outputs are told by the plain ids
        names, parts, order = self.form.get("ids") or {}, self.form.get("parts"), self.form.get("order")
        name = {k: names[k] if k < len(names) else "u%d" % k for k in ids} if names else {k: k for k in ids}
        back = {v: k for k, v in name.items()}

        def table(ks, rs, ys):
            at = [i for i in order if i < len(ks)] if order else range(len(ks))
            at = list(at) + [i for i in range(len(ks)) if i not in at]
            t = plain([name.get(ks[i], ks[i]) for i in at], [rs[i] for i in at], [ys[i] for i in at])
            if parts:
                pt = PartTable(True, list(t.collect()), {name.get(ks[i], ks[i]): parts[i % len(parts)] for i in at}, 1 + max(parts))
                pt.schema = t.schema
                return pt
            return t

        def told(t):
            return {back.get(k, k): v for k, v in t.collect()}

        def scores(t):
            return {k: np.array(v, dtype=float).copy() for k, v in told(t).items()}
        m = AloneGuest()
        m._init_model(param)
        self.models["g"] = m
        m.fit(table(list(ids), rows, labels))
        self.out["train_F"] = scores(m.F)
        tids = list(ids) + (["t%d" % i for i in range(len(test))] if test else [])
        res = m.predict(table(tids, rows + (test or []), list(labels) + [labels[0]] * len(test or [])))
        self.out["pred"] = told(res)
        self.out["pred_F"] = scores(m.F)
        # other tables under the same keys, one after the other
        self.out["more"] = []
        for bids, brows in ([(list(ids), rows[1:] + rows[:1]), (list(ids), rows), (list(ids)[::-1], rows), (list(ids)[:1], rows[-1:])] if test else []):
            res = told(m.predict(table(bids, brows, [labels[0]] * len(bids))))
            self.out["more"].append((bids, brows, res, scores(m.F)))
        return self


def judge_predictions(b, rows, ids, lr, test):
    g = b.models["g"]
    tids = list(ids) + ["t%d" % i for i in range(len(test))]
    expect(set(b.out["pred"]) == set(tids), "predictions exist for %r", sorted(map(repr, b.out["pred"])))
    views = [fed.TreeView((None, t), []) for t in g.trees_]
    dim = len(np.ravel(g.init_score))
    for bids, brows, res, F in b.out["more"]:
        expect(set(res) == set(bids) and set(F) == set(bids), "in a later batch, predictions exist for %r instead of %r", sorted(map(repr, res)), bids)
        for k, r in zip(bids, brows):
            f = np.array(g.init_score, dtype=float).copy()
            for t, tv in enumerate(views):
                f[t % dim] += lr * tv.path([r]).weight
            expect(all(close(x, y, 1e-6, 1e-7) for x, y in zip(np.ravel(F[k]), f)), "in a later batch, row %r is predicted as %r, its leaves give %r", r, F[k].tolist(), f.tolist())
    for k, r in zip(tids, rows + test):
        f = np.array(g.init_score, dtype=float).copy()
        for t, tv in enumerate(views):
            f[t % dim] += lr * tv.path([r]).weight
        expect(all(close(x, y, 1e-6, 1e-7) for x, y in zip(np.ravel(b.out["pred_F"][k]), f)), "row %r is predicted as %r, its leaves give %r", r, b.out["pred_F"][k].tolist(), f.tolist())
        if k in b.out["train_F"]:
            expect(all(close(x, y, 1e-6, 1e-7) for x, y in zip(np.ravel(b.out["pred_F"][k]), np.ravel(b.out["train_F"][k]))),
                   "training row %r is predicted as %r, training ended with %r", k, b.out["pred_F"][k].tolist(), b.out["train_F"][k].tolist())


def deal(cols, owner, n):
    """cols[c][i] dealt to parties by owner[c]"""
    parts = max(owner) + 1
    return [[[cols[c][i] for c in range(len(cols)) if owner[c] == p] for i in range(n)] for p in range(parts)]


def joined(case):
    """All columns of a scaled case with the owners the case had."""
    c = scale.make(**case["scale"])
    parts = [c["guest"]] + c["hosts"]
    cols = [[r[f] for r in p] for p in parts for f in range(len(p[0]))]
    own = [k for k, p in enumerate(parts) for _ in p[0]]
    return dict(c, cols=cols, owners=[own, own[::-1]])


def run(case):
    case = joined(case) if "scale" in case else case
    cols, y = case["cols"], case["y"]
    n = len(y)
    rows = [[c[i] for c in cols] for i in range(n)]
    one = dict(conf=case["conf"], loss=case.get("loss", "cross_entropy"), p=case.get("p", {}), guest=rows, hosts=[], y=y)
    ties = []
    box = []

    def build(*a):
        test = [[9.0] * len(cols), [-9.0] * len(cols)] + [[cols[c][(i + c) % n] + (0.25 if i % 2 else 0.0) for c in range(len(cols))] for i in range(2)]
        box.append(test)
        return Alone(*a, test=test, form=case.get("form"))
    b, losses = c14.judge(one, build=build, ties=ties)
    p = fed.boost_param(**dict(c14.conf_of(case)["p"], **case.get("p", {})))
    judge_predictions(b, rows, list(range(n)), p.learning_rate, box[0])
    labels = {k: v[1] for k, v in b.out["pred"].items()}
    runs = 0
    if not ties:
        for owner in case["owners"]:
            parts = deal(cols, owner, n)
            kw = dict(c14.conf_of(case)["p"], **case.get("p", {}))
            loss = case.get("loss", "cross_entropy")
            if loss != "cross_entropy":
                kw.update(task="regression", objective=loss, params=c05.LOSSES.get(loss))
            fp = fed.boost_param(tree=fed.tree_param(**c14.conf_of(case)["tree"]), **kw)
            f = fed.Boost(list(range(n)), parts[0], y, parts[1:], fp, test=dict(ids=list(range(n)), guest=parts[0], hosts=parts[1:], labels=y))
            with fed.FakeKeys.on():
                f.run()
            runs += f.sim.steps
            g = f.models["g"]
            expect(len(g.trees_) == len(b.models["g"].trees_), "columns dealt as %r: %d trees, one party alone grows %d", owner, len(g.trees_), len(b.models["g"].trees_))
            expect(len(g.history_loss) == len(losses) and all(close(x, z, 1e-6, 1e-8) for x, z in zip(g.history_loss, losses)),
                   "columns dealt as %r: losses %r, one party alone has %r", owner, g.history_loss, losses)
            for k in range(n):
                x, z = np.ravel(f.out["train_F"][k]), np.ravel(b.out["train_F"][k])
                expect(len(x) == len(z) and all(close(u, w, 1e-6, 1e-7) for u, w in zip(x, z)), "columns dealt as %r: row %d scores %r, one party alone %r", owner, k, x.tolist(), z.tolist())
                q = f.out["pred"][k]
                same = q[1] == labels[k] if loss == "cross_entropy" else close(q[1], labels[k], 1e-6, 1e-7)
                if loss == "cross_entropy" and np.size(x) == 1 and abs(x[0]) < 1e-6 or np.size(x) > 1 and sorted(x)[-1] - sorted(x)[-2] < 1e-6:
                    same = True        # on the fence
                expect(same, "columns dealt as %r: row %d is predicted %r, one party alone says %r", owner, k, q[1], labels[k])
    return b, losses, ties, runs


def owners(m, hosts):
    """every way to give m columns to guest and hosts so that every party has one"""
    return [list(o) for o in itertools.product(range(hosts + 1), repeat=m) if set(o) == set(range(hosts + 1))]


C3 = [[0.0, 1.0, 2.0, 4.0, -1.0, 3.0], [2.0, -1.0, 0.0, 2.0, 1.0, -3.0], [5.0, 0.0, 1.0, -2.0, 0.0, 7.0], [1.0, 1.0, -4.0, 0.0, 6.0, 2.0]]


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of, big=big) for i in range(of))
    add(b="labels", conf="two", of=4 if not big else 8)
    add(b="labels", conf="deep", of=4 if not big else 8)
    add(b="grid", conf="two", n=4 if big else 3, of=6 if not big else 24)
    add(b="values", conf="deep", of=6)
    for loss in sorted(c05.LOSSES):
        add(b="reg", conf="two", loss=loss, of=3)
    add(b="multi", conf="two", of=4)
    add(b="rounds", conf="lr1", of=2)
    add(b="floor", of=4)
    add(b="sizes", of=4)
    add(b="bare", of=4)
    add(b="forms", of=4)
    add(b="scale", of=12)
    return out


def cases(block):
    b, conf, big = block["b"], block.get("conf"), block["big"]
    if b == "labels":
        for k, y in enumerate(itertools.product("ab", repeat=6)):
            if len(set(y)) > 1 and (big or y[0] == "a"):
                o = owners(4, 1) + owners(4, 2)
                yield dict(conf=conf, cols=C3, y=list(y), owners=o if big else o[k % 5::5])
    elif b == "grid":
        v = (-1.0, 0.0, 2.0)
        g = list(itertools.product(v, (0.0, 2.0), (0.0, 1.0), "ab"))
        for rows in itertools.combinations_with_replacement(g, block["n"]):
            if len({r[3] for r in rows}) > 1 and len(set(rows)) == len(rows):
                yield dict(conf=conf, cols=[[r[c] for r in rows] for c in range(3)], y=[r[3] for r in rows], owners=[[0, 1, 1], [0, 1, 2]])
    elif b == "values":
        for a in itertools.permutations((0.0, 1.0, -2.0, 3.0, 5.0)):
            yield dict(conf=conf, cols=[list(a), [0.0, 0.0, 1.0, 1.0, 2.0], [1.0, -1.0, 0.0, 1.0, 0.0]], y=["a", "b", "b", "a", "b"], owners=owners(3, 1) + owners(3, 2))
            yield dict(conf=conf, loss="lse", cols=[[0.0, 0.0, 1.0, 1.0, 2.0], list(a), [1.0, -1.0, 0.0, 1.0, 0.0]], y=[0.3, 1.1, -2.0, 4.5, 0.9], owners=owners(3, 1) + owners(3, 2))
    elif b == "reg":
        for y in itertools.product((0.0, 1.1, -2.3), repeat=4):
            y = list(y) + [1.7, 0.4]
            yield dict(conf=conf, loss=block["loss"], cols=C3[:3], y=y, owners=[[0, 1, 2], [1, 0, 0], [0, 0, 1]])
    elif b == "multi":
        for y in itertools.product("xyz", repeat=5 if not big else 6):
            y = (list(y) + ["z"])[:6]
            if len(set(y)) == 3:
                yield dict(conf=conf, cols=C3[:3], y=y, owners=[[0, 1, 2], [1, 1, 0]])
    elif b == "floor":
        # the gain a split needs, from nothing to more than there is, on labels of every size
        cols = [[-1.0, 0.0, 0.0, 2.0, 2.0, 1.0], [0.0, 2.0, -1.0, -1.0, 2.0, 1.0]]
        for low in (0.0, 1e-7, 1e-5, 1e-3, 0.01, 0.1, 0.5, 2.0):
            c = dict(p=dict(num_trees=2, lr=0.5, tol=0.0), tree=dict(max_depth=3, min_impurity_split=low))
            for unit in (0.01, 0.03, 0.1, 0.3, 1.0):
                for y in itertools.product((0.0, 1.0, 3.0), repeat=3):
                    yield dict(conf=c, loss="lse", cols=cols, y=[unit * v for v in list(y) + [2.0, 0.5, 1.0]], owners=[[0, 1], [1, 0]])
            for y in ("abbaba", "aabbbb", "ababab", "abcabb", "baccab"):
                yield dict(conf=c, cols=cols, y=list(y), owners=[[0, 1], [1, 0]])
    elif b == "sizes":
        cols = [[-1.0, 0.0, 0.0, 2.0, 2.0, 1.0], [0.0, 2.0, -1.0, -1.0, 2.0, 1.0]]
        for loss in sorted(c05.LOSSES):
            c = dict(p=dict(num_trees=3, lr=0.5, tol=0.0), tree=dict(max_depth=3))
            for unit in (1e-4, 1e4, 1e6):
                for off in (0.0, 1.0, -1e6):
                    for y in itertools.product((0.0, 1.0, 3.0), repeat=2):
                        yield dict(conf=c, loss=loss, cols=cols, y=[off + unit * v for v in list(y) + [2.0, 0.5, 1.0, 5.0]], owners=[[0, 1]])
    elif b == "bare":
        # parties without a single column: a guest with nothing but the labels, a host with nothing but the ids
        own = [list(o) for k in (1, 2, 3) for o in itertools.product(range(k + 1), repeat=3) if max(o) == k and len(set(o)) <= k]
        for c in ("two", "deep"):
            for y, loss in ((list("abbaba"), None), (list("aabbab"), None), (list("abcabb"), None), ([0.0, 1.1, -2.3, 1.7, 0.4, 9.0], "lse"), ([0.0, 1.1, -2.3, 1.7, 0.4, 9.0], "lae")):
                for k in range(0, len(own), 3):
                    yield dict(conf=c, cols=C3[:3], y=y, owners=own[k:k + 3], **(dict(loss=loss) if loss else {}))
    elif b == "forms":
        # the same data dense and sparse, in every order, under odd keys, on one to three partitions
        v = [(0.0, 2.0, 0.0), (2.0, 0.0, 1.0), (-1.5, -1.5, 0.0), (0.0, -1.5, 1.0)]
        for order in itertools.permutations(range(4)):
            for sparse in (False, True):
                for ids in (None, ["x", "", "10", "9"], [5, -1, "5", 3]):
                    for parts in (None, [0, 1], [1, 1, 0, 2]):
                        for y, loss in ((["a", "b", "b", "a"], None), (["a", "b", "c", "a"], None), ([0.5, 2.0, -1.0, 4.0], "lse")):
                            form = dict(sparse=sparse, order=list(order), ids=ids, parts=parts)
                            yield dict(conf="two", cols=[[r[c] for r in v] for c in range(3)], y=y, form=form, owners=[[0, 1, 0]] if order == (3, 1, 0, 2) else [], **(dict(loss=loss) if loss else {}))
        # values close to 0: absent entries count as exactly 0
        for u in (1e-6, 1e-4, 1e10):
            for y in (["a", "b", "b", "a"], ["a", "a", "b", "b"], ["b", "a", "a", "a"]):
                for a, c in ((-1.0, 0.0), (-3.0, 1.0), (-1.0, 2.0), (0.0, 2.0)):
                    for sparse in (False, True):
                        yield dict(conf="two", cols=[[a * u, a * u, c * u, c * u], [1.5] * 4], y=y, form=dict(sparse=sparse), owners=[[0, 1]])
    elif b == "scale":
        yield from scale.cases(big)
    elif b == "rounds":
        for nt in (1, 2, 3):
            for lr in (0.1, 0.5, 1.0, 3.0):
                for tol in (0.0, 0.05, 0.3, 10.0):
                    for early in (True, False):
                        pp = dict(num_trees=nt, lr=lr, tol=tol, n_iter_no_change=early)
                        for y in (["a", "b", "b", "a", "b", "a"], ["a", "b", "c", "a", "b", "b"]):
                            yield dict(conf=conf, cols=C3[:3], y=y, p=pp, owners=[[0, 1, 2], [1, 0, 0]])
                        yield dict(conf=conf, loss="lse", cols=C3[:3], y=[1.0, 2.0, 4.0, 2.5, 0.1, -1.3], p=pp, owners=[[0, 1, 2], [1, 0, 0]])
        # losses that rise and fall
        for nt in (4, 6):
            for lr in (1.7, 3.0, 4.0, 6.0):
                for tol in (1e-4, 0.01, 0.1, 0.5):
                    pp = dict(num_trees=nt, lr=lr, tol=tol)
                    yield dict(conf=conf, cols=[[0.0, 1.0, 2.0, 1.0], [2.0, 1.0, 3.0, 5.0]], y=["a", "b", "b", "a"], p=pp, owners=[[0, 1]])
                    for loss in ("lae", "huber", "fair"):
                        for y in ([1.0, 2.0, 4.0, 2.5], [0.0, 3.0, 3.0, 0.0]):
                            yield dict(conf=conf, loss=loss, cols=[[0.0, 1.0, 2.0, 1.0], [2.0, 1.0, 3.0, 5.0]], y=y, p=pp, owners=[])


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run(case), steps=0)
        if r is not None:
            b, losses, ties, steps = r
            ctx.step(steps + len(b.models["g"].trees_))
            ctx.counters["tied" if ties else "compared"] += 1
            ctx.state((core.jsonable(case) if "scale" in case else (case["cols"], case["y"]), [str(t) for t in b.models["g"].trees_]))
            ctx.outcome([round(x, 6) for x in losses])


def run_case(case):
    return run(case)
