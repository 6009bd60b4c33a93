"""C05 - what the model predicts is what it learned: training and prediction agree."""
import itertools

import numpy as np

from mc import core, fed, scale
from mc.core import expect, close
from arch.api.boosting_tree_model_meta_pb2 import DecisionTreeModelMeta
from arch.api.boosting_tree_model_param_pb2 import DecisionTreeModelParam

META = dict(
    title="Prediction reproduces the training scores and walks exactly the exported trees",
    statement="For every data set, the score a trained federated model gives to a training row at prediction time is the score training ended with for that row, and the score of any other row is the initial score plus, for every round, learning rate times the weight of the one leaf the row's joint guest and host features lead to in the exported trees (absent features count as 0, a value equal to a threshold goes left). Dense and sparse input, the order of the rows at each host, batches predicted together, alone or one after the other, and a model exported and loaded again all give the same scores.",
    quantifier=dict(over=["inputs", "configurations"], text="all small multisets of joint guest/host rows over values below, at, above and between the split points, including 0 and negatives, all objectives, binary and multi-class labels, tree depths, numbers of rounds, row orders, prediction batches including rows never seen and sequences of up to three batches, every dimension swept far beyond the grids on fixed data, up to 3 hosts (and 11 where their names matter); stored trees of every ownership of chains up to 5 and full trees up to 7 splits, and chains of up to 130 splits that change sides at every node"),
    why_tests_cant="Training routes rows through bin numbers, prediction routes them through thresholds on real values across parties; the two agree only if binning, thresholds, masks, host dispatch and score accumulation agree for every value and every path.",
    anchors=dict(files=["ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/boosting_tree.py", "ml/feature/binning/quantile_binning.py"],
                 state=[dict(name="F", meaning="score per row", where="HeteroSecureBoostingTreeGuest.F")],
                 mechanism=[dict(name="routing in training", where="dispatch_node, redispatch_node, assign_node"),
                            dict(name="routing in prediction", where="traverse_tree of both trees, predict loops"),
                            dict(name="score accumulation", where="update_f_value, predict_f_value"),
                            dict(name="threshold conversion", where="convert_bin_to_real, encode/decode")],
                 observe_at=["scores after fit", "predict results", "exported trees"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive execution of real federated trainings and predictions against a walk over the exported trees",
    level_note="Exhaustive over the stated grids, default schedule (C03 covers schedules), identity encryption (C07/C08 cover encryption). The reference walks the exported trees; that the trees themselves are right is C04.",
    bounds=dict(quick=dict(rows=8, hosts=11, rounds=3), thorough=dict(rows=8, hosts=11, rounds=3)),
    rule="a case is (rows, labels, parameters, prediction batch); states are distinct (data, exported trees); outcomes are distinct score vectors",
    assumptions=["the same feature order at training and prediction", "row keys are unique and common to all parties"],
)

LOSSES = {"lse": None, "lae": None, "huber": [1.5], "fair": [1.0], "log_cosh": None}

CONF = {
    "base": dict(p=dict(num_trees=2), tree=dict(max_depth=2)),
    "deep": dict(p=dict(num_trees=2), tree=dict(max_depth=3, max_split_nodes=1)),
    "one": dict(p=dict(num_trees=1, lr=1.0), tree=dict(max_depth=2)),
    "three": dict(p=dict(num_trees=3, lr=0.5, tol=0.0), tree=dict(max_depth=2)),
    "bin2": dict(p=dict(num_trees=2, bin_num=2), tree=dict(max_depth=2)),
    "cube": dict(p=dict(num_trees=1, lr=1.0), tree=dict(max_depth=4, max_split_nodes=2)),
    "cube1": dict(p=dict(num_trees=1, lr=1.0), tree=dict(max_depth=3)),
    "stop": dict(p=dict(num_trees=3, tol=10.0), tree=dict(max_depth=2)),
}


def param(case):
    c = case["conf"] if isinstance(case["conf"], dict) else CONF[case["conf"]]
    kw = dict(c["p"])
    if case.get("loss"):
        kw.update(task="regression", objective=case["loss"], params=LOSSES[case["loss"]])
    if "p" in case:
        kw.update(case["p"])
    return fed.boost_param(tree=fed.tree_param(**c["tree"]), **kw)


def score_by_walk(b, rows, dim, lr):
    g = b.models["g"]
    f = np.array(g.init_score, dtype=float).copy()
    expect(f.shape == (dim,), "the initial score has shape %r for %d trees a round", f.shape, dim)
    for t in range(len(g.trees_)):
        tv = b.views[t]
        f[t % dim] += lr * tv.path(rows).weight
    return f


def run_boost(case, **kw):
    p = param(case)
    ids = case.get("ids") or list(range(len(case["y"])))
    test = case["test"]
    tids = test.get("ids") or ["t%d" % i for i in range(len(test["guest"]))]
    tids = list(ids) + tids if case.get("with_train", True) else tids
    full = dict(ids=tids)
    pre = case.get("with_train", True)
    full["guest"] = (case["guest"] if pre else []) + test["guest"]
    full["hosts"] = [(case["hosts"][i] if pre else []) + test["hosts"][i] for i in range(len(case["hosts"]))]
    b = fed.Boost(ids, case["guest"], case["y"], case["hosts"], p, test=full, sparse=case.get("sparse", False),
                  host_order=case.get("host_order"), more=again(case, full), **kw)
    with fed.FakeKeys.on():
        b.run()
    return b, p, ids, full


def again(case, full):
    """The tables predicted afterwards with the same objects: other rows under the same or other keys."""
    out = []
    for what in case.get("again", ()):
        k = len(full["ids"])
        if what == "same":
            sel, ids = range(k), full["ids"]
        elif what == "back":
            sel, ids = range(k - 1, -1, -1), full["ids"]
        elif what == "turned":
            sel, ids = [(i + 1) % k for i in range(k)], ["u%d" % i for i in range(k)]
        else:
            sel, ids = [k - 1], full["ids"][:1]
        out.append(dict(ids=list(ids), guest=[full["guest"][i] for i in sel], hosts=[[rows[i] for i in sel] for rows in full["hosts"]]))
    return out


def scaled(case):
    """Rows never seen: mixtures of the training rows, between and beyond their values."""
    if "scale" not in case:
        return case
    case = scale.fill(case)
    n = len(case["y"])

    def mix(rows, k):
        return [[v + (0.0, 0.25, -0.25, 60.0, -60.0)[(i + f) % 5] for f, v in enumerate(rows[(i * k + 1) % n])] for i in range(min(n, 30))]
    return dict(case, test=dict(guest=mix(case["guest"], 1), hosts=[mix(r, 3 + 2 * j) for j, r in enumerate(case["hosts"])]))


def run(case):
    case = scaled(case)
    b, p, ids, full = run_boost(case)
    g = b.models["g"]
    ny = len(set(case["y"]))
    dim = 1 if case.get("loss") or ny <= 2 else ny
    expect(len(g.trees_) % dim == 0 and len(g.trees_) > 0, "%d trees were grown for %d trees a round", len(g.trees_), dim)
    b.views = [fed.TreeView((None, g.trees_[t]), [(None, b.models[i].trees_[t]) for i in range(b.nhosts)]) for t in range(len(g.trees_))]
    expect(set(b.out["train_F"]) == set(ids), "training scores exist for %r", sorted(map(repr, b.out["train_F"])))
    expect(set(b.out["pred_F"]) == set(full["ids"]), "predictions exist for %r, asked were %r", sorted(map(repr, b.out["pred_F"])), full["ids"])
    expect(set(b.out["pred"]) == set(full["ids"]), "prediction results have other keys than the data")
    for t, (pred, scores) in zip([full] + again(case, full), [(b.out["pred"], b.out["pred_F"])] + b.out["more"]):
        expect(set(pred) == set(scores) == set(t["ids"]), "predictions exist for %r, asked were %r", sorted(map(repr, scores)), t["ids"])
        for j, k in enumerate(t["ids"]):
            rows = [t["guest"][j]] + [t["hosts"][i][j] for i in range(b.nhosts)]
            want = score_by_walk(b, rows, dim, p.learning_rate)
            got = scores[k]
            expect(got.shape == want.shape and all(close(x, y, 1e-6, 1e-7) for x, y in zip(got, want)),
                   "row %r %r is predicted as %r, its leaves give %r", k, rows, got.tolist(), want.tolist())
    for k in ids:
        if k in b.out["pred_F"]:
            got, want = b.out["pred_F"][k], b.out["train_F"][k]
            expect(all(close(x, y, 1e-6, 1e-7) for x, y in zip(got, want)),
                   "training row %r is predicted as %r, training ended with %r", k, got.tolist(), want.tolist())
    return b


GV = (-1.5, 0.0, 2.0)
UNSEEN = (-9.0, -1.5, -0.75, 0.0, 1.0, 2.0, 9.0)


def run_shape(case):
    """A stored tree of a given shape and ownership, walked by rows that reach every part of it."""
    kids, own, nh = case["kids"], case["own"], case["hosts"]
    site = lambda o: "guest" if o == 0 else "host.%d" % (o - 1)     # noqa: E731
    nodes, inner = [], [k for k, lr in enumerate(kids) if lr]
    masks = [{} for _ in range(nh + 1)]
    for k, lr in enumerate(kids):
        o = own[k] if lr else 0
        nodes.append(dict(id=k, sitename=site(o), fid=case["fid"][k] if lr else 0, bid=0.0, weight=0.0 if lr else k + 0.25, is_leaf=not lr,
                          left_nodeid=lr[0] if lr else -1, right_nodeid=lr[1] if lr else -1))
        if lr:
            masks[o][k] = case["thr"][k]
    models = []
    for o in range(nh + 1):
        meta, pm = DecisionTreeModelMeta(max_depth=len(inner) + 1), DecisionTreeModelParam()
        for nd in nodes:
            pm.tree_.add(**nd)
        pm.split_maskdict.update(masks[o])
        models.append((meta, pm))
    rows = case["rows"]         # per row, per party, its features
    parts = [[r[o] for r in rows] for o in range(nh + 1)]
    ids = ["s%d" % i for i in range(len(rows))]
    out = fed.predict_tree(models, ids, parts[0], parts[1:], fed.tree_param(max_depth=len(inner) + 1))
    expect(sorted(out) == sorted(ids), "%d of %d rows are scored", len(out), len(ids))
    for i, r in enumerate(rows):
        k = 0
        while kids[k]:
            k = kids[k][0 if r[own[k]][case["fid"][k]] <= case["thr"][k] else 1]
        expect(out["s%d" % i] == k + 0.25, "row %r ends in leaf %r instead of %d", r, out["s%d" % i], k)
    return sorted(out.items())


def chain(owners, nh, turn):
    """Node k tests feature k mod 2 of its owner; the rows' features are all the row's number, so row i leaves at node i."""
    n = len(owners)
    kids, own, fid, thr = [], [], [], []
    for k in range(n):
        kids += [[2 * k + 1, 2 * k + 2], None] if not turn or k % turn else [[2 * k + 2, 2 * k + 1], None]
        own += [owners[k], 0]
        fid += [k % 2, 0]
        thr += [k + 0.5 if not turn or k % turn else -k - 0.5, 0.0]
    return dict(kids=kids + [None], own=own + [0], fid=fid + [0], thr=thr + [0.0], hosts=nh,
                rows=[[[float(i), float(i)] if not turn else [float(i * (-1) ** i), float(i)] for _ in range(nh + 1)] for i in range(n + 1)])


def full(owners, nh):
    n = len(owners)
    kids = [[2 * k + 1, 2 * k + 2] for k in range(n)] + [None] * (n + 1)
    vals = list(itertools.product((-1.0, 1.0), repeat=2 * (nh + 1)))
    return dict(kids=kids, own=list(owners) + [0] * (n + 1), fid=[k % 2 for k in range(2 * n + 1)], thr=[0.0, -0.5, 0.5, 0.25, -0.25, 0.75, -0.75][:n] + [0.0] * (n + 1 + max(0, n - 7)),
                hosts=nh, rows=[[list(v[2 * o:2 * o + 2]) for o in range(nh + 1)] for v in vals])


def unseen(ng, nhs):
    """Prediction rows: all value combinations of two features, others follow."""
    vals = list(itertools.product(UNSEEN, repeat=2))
    return dict(guest=[[a] * ng for a, _ in vals], hosts=[[[b] * nh for _, b in vals] for nh in nhs])


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of) for i in range(of))
    add(b="binary", conf="base", n=4 if big else 3, of=12 if big else 6)
    add(b="binary", conf="deep", n=4 if big else 3, of=12 if big else 6)
    add(b="binary", conf="three", n=3, of=4)
    add(b="binary", conf="bin2", n=3, of=4)
    for loss in LOSSES:
        add(b="reg", conf="base", loss=loss, n=3, of=4 if big else 2)
        add(b="regperm", conf="deep", loss=loss, of=1)
    add(b="multi", conf="base", n=4 if big else 3, of=6 if big else 3)
    add(b="wide", conf="deep", of=4)
    add(b="wide", conf="stop", of=2)
    add(b="forms", of=4)
    add(b="alone", of=2)
    add(b="hosts3", of=4)
    add(b="hosts11", of=2)
    add(b="again", of=4)
    add(b="scale", of=12, big=big)
    add(b="shape", of=4, big=big)
    return out


def cases(block):
    b, conf = block["b"], block.get("conf")
    if b == "binary":
        g = list(itertools.product(GV, GV, "ab"))
        t = unseen(1, [1])
        for rows in itertools.combinations_with_replacement(g, block["n"]):
            yield dict(conf=conf, guest=[[r[0]] for r in rows], hosts=[[[r[1]] for r in rows]], y=[r[2] for r in rows], test=t)
    elif b == "reg":
        g = list(itertools.product(GV, GV, (0.0, 1.0)))
        t = unseen(1, [1])
        for rows in itertools.combinations_with_replacement(g, block["n"]):
            yield dict(conf=conf, loss=block["loss"], guest=[[r[0]] for r in rows], hosts=[[[r[1]] for r in rows]],
                       y=[r[2] * (1 + i) for i, r in enumerate(rows)], test=t)
    elif b == "regperm":
        t = unseen(1, [1, 1])
        for y in itertools.permutations([0.0, 1.0, 3.0, -2.0, 0.5][:4]):
            for hv in itertools.permutations([-1.0, 0.0, 1.0, 2.0]):
                yield dict(conf=conf, loss=block["loss"], guest=[[0.0], [0.0], [2.0], [2.0]],
                           hosts=[[[v] for v in hv], [[-1.5], [0.0], [-1.5], [0.0]]], y=list(y), test=t)
    elif b == "multi":
        g = list(itertools.product((0.0, 2.0), (-1.5, 0.0), (0, 1, 2)))
        t = unseen(1, [1])
        for rows in itertools.combinations_with_replacement(g, block["n"]):
            yield dict(conf=conf, guest=[[r[0]] for r in rows], hosts=[[[r[1]] for r in rows]], y=[r[2] for r in rows], test=t)
    elif b == "wide":
        # 6 rows, 2 + 2 + 1 features, every labelling
        G = [[0.0, 1.0], [2.0, -1.5], [-1.5, 0.0], [0.0, 0.0], [2.0, 2.0], [1.0, -1.5]]
        H = [[[1.0, 0.0], [0.0, 2.0], [-1.5, -1.5], [2.0, 1.0], [0.0, 0.0], [9.0, 1.0]], [[0.5], [0.0], [0.5], [-0.5], [0.0], [-0.5]]]
        t = unseen(2, [2, 1])
        for y in itertools.product("ab", repeat=6):
            yield dict(conf=conf, guest=G, hosts=H, y=list(y), test=t)
        for y in itertools.product((0.0, 1.0, -2.5), repeat=4):
            yield dict(conf=conf, loss="lse", guest=G, hosts=H, y=list(y) + [1.0, 3.0], test=t)
    elif b == "forms":
        # the same data dense, sparse, with rows in every order at the host, with odd keys
        base = [(0.0, 2.0, "a"), (2.0, 0.0, "b"), (-1.5, -1.5, "b"), (0.0, -1.5, "a")]
        t = unseen(1, [1])
        for perm in itertools.permutations(range(4)):
            rows = [base[i] for i in perm]
            for sparse in (False, True):
                for order in itertools.permutations(range(4)):
                    for ids in (None, ["x", "", "10", "9"], [5, -1, "5", 3]):
                        yield dict(conf="base", guest=[[r[0]] for r in rows], hosts=[[[r[1]] for r in rows]], y=[r[2] for r in rows],
                                   test=t, sparse=sparse, host_order=[list(order)], ids=ids)
        # values close to 0: absent entries count as exactly 0
        for u in (1e-10, 1e-12, 1e10):
            for y in itertools.product("ab", repeat=4):
                if len(set(y)) == 2:
                    for gv, hv in ((-1.0, 0.0), (-3.0, 1.0), (-1.0, 2.0), (0.0, 2.0)):
                        for side in (0, 1):
                            vals = [[gv * u], [gv * u], [hv * u], [hv * u]]
                            flat = [[1.5]] * 4
                            tv = [[v * u] for v in (-9.0, -1.0, -0.5, 0.0, 0.5, 9.0)]
                            for sparse in (False, True):
                                yield dict(conf="base", guest=flat if side else vals, hosts=[vals if side else flat], y=list(y), sparse=sparse,
                                           test=dict(guest=[[1.5]] * 6 if side else tv, hosts=[tv if side else [[1.5]] * 6]))
    elif b == "again":
        # the same objects score one table after the other
        G, H = [[0.0], [2.0], [-1.5], [0.0]], [[[2.0], [0.0], [-1.5], [-1.5]]]
        t = dict(guest=[[9.0], [-1.5], [0.0]], hosts=[[[-9.0], [2.0], [9.0]]])
        for seq in itertools.product(("same", "back", "turned", "one"), repeat=2):
            for y in list(itertools.product((0, 1), repeat=4)) + [(0, 1, 2, 1), (2, 2, 0, 1)]:
                for sp in (False, True):
                    for train in (False, True):
                        yield dict(conf="base", guest=G, hosts=H, y=list(y), test=t, again=list(seq), sparse=sp, with_train=train,
                                   **({} if len(set(y)) > 1 else dict(loss="lse")))
    elif b == "hosts3":
        # every row of a cube, one dimension per host: paths change owner at every level
        bits = list(itertools.product((-1.5, 2.0), repeat=3))
        for k, y in enumerate(itertools.product((0.0, 1.0), repeat=8)):
            yield dict(conf="cube", loss="lse", guest=[[0.0]] * 8, hosts=[[[r[h]] for r in bits] for h in range(3)],
                       y=[(1 + i) * v for i, v in enumerate(y)], test=dict(guest=[[9.0]] * 8, hosts=[[[r[h] + 0.5] for r in bits] for h in range(3)]))
    elif b == "hosts11":
        # sites whose names are prefixes of one another
        for pair in ((1, 10), (0, 10), (2, 10)):
            for a, c in itertools.permutations(((0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 0), (1, 0, 0, 0)), 2):
                hosts = [[[float(a[i])] if h == pair[0] else [float(c[i])] if h == pair[1] else [0.0] for i in range(4)] for h in range(11)]
                yield dict(conf="cube1", loss="lse", guest=[[0.0]] * 4, hosts=hosts, y=[0.0, 1.0, 3.0, -2.0],
                           test=dict(guest=[[0.0]] * 4, hosts=hosts))
    elif b == "shape":
        for nh in (1, 2):
            for n in range(0, (6 if nh == 1 else 5) + block["big"]):
                for owners in itertools.product(range(nh + 1), repeat=n):
                    for turn in (0, 2):
                        yield chain(owners, nh, turn)
            for n in (3, 7):
                for i, owners in enumerate(itertools.product(range(nh + 1), repeat=n)):
                    if n * nh < 14 or i % (3 if block["big"] else 17) == 0:
                        yield full(owners, nh)
        # paths that change sides at every node
        for n in (8, 13, 21, 34, 60, 130):
            for nh in (1, 2, 3):
                for f in (lambda k: k % (nh + 1), lambda k: 1 + k % nh, lambda k: (k // 2) % (nh + 1), lambda k: nh - k % (nh + 1), lambda k: 0, lambda k: nh if k > n - 3 else 0):
                    yield chain([f(k) for k in range(n)], nh, 0)
    elif b == "scale":
        for c in scale.cases(block["big"]):
            yield c
            if len(c["scale"]) < 2:
                yield dict(c, sparse=True)
    elif b == "alone":
        # every prediction row alone and every pair
        G, H, y = [[0.0], [2.0], [-1.5], [0.0]], [[[2.0], [0.0], [-1.5], [-1.5]]], ["a", "b", "b", "a"]
        vals = list(itertools.product(UNSEEN, repeat=2))
        sets = [[v] for v in vals] + [list(p) for p in itertools.combinations(vals, 2)]
        for s in sets:
            yield dict(conf="deep", guest=G, hosts=H, y=y, with_train=False,
                       test=dict(guest=[[a] for a, _ in s], hosts=[[[c] for _, c in s]]))


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        if "kids" in case:
            r = ctx.case(case, lambda: run_shape(case))
            if r is not None:
                ctx.state(core.jsonable(case))
                ctx.outcome(r)
            continue
        r = ctx.case(case, lambda: run(case), steps=0)
        if r is not None:
            ctx.step(r.sim.steps)
            s = fed.summary(r)
            ctx.state((core.jsonable(case) if "scale" in case else (case["guest"], case["hosts"], case["y"]), s["trees"]))
            ctx.outcome(sorted(s["pred"].items()))


def run_case(case):
    return run_shape(case) if "kids" in case else run(case)
