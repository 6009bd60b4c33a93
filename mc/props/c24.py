"""C24 - feature importances count the splits (or their gains) of the exported trees."""
import itertools

from mc import core, fed, ref, scale
from mc.core import expect, close
from mc.props import c05, c14, c25

META = dict(
    title="Feature importances are the splits, or the gains, of exactly the trees grown",
    statement="After training, the guest's importances hold, for every party and feature that some tree splits on and for no other, the number of nodes split on it over all trees (type 'split') or the sum of the gains of those splits (type 'gain'): features with the same number at different parties are kept apart, and every tree of every round and class counts once. A single tree reports the same for itself, and the standalone variant reports the same of its own trees.",
    quantifier=dict(over=["inputs", "configurations"], text="all small data sets over value grids and labels with up to two features per party and up to two hosts, binary, three-class and regression objectives, both importance types, several depths, batch sizes and rounds, early stopping included, every dimension swept far beyond the grids on fixed data"),
    why_tests_cant="No test reads importances. A dropped tree, a gain taken from another node of the batch, or host and guest features confused give plausible numbers.",
    anchors=dict(files=["ml/tree/hetero_decision_tree_guest.py", "xgboost/hetero_decision_tree_guest.py", "xgboost/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/splitter.py"],
                 state=[dict(name="feature_importances_", meaning="(site, feature) -> number", where="tree and booster")],
                 mechanism=[dict(name="count per split", where="HeteroDecisionTreeGuest.update_feature_importance"), dict(name="sum over trees", where="HeteroSecureBoostingTreeGuest.update_feature_importance")],
                 observe_at=["feature_importances_", "get_feature_importance", "exported trees"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive real federated trainings, importances recomputed from the exported trees and routed rows",
    level_note="Exhaustive over the stated grids, default schedule, identity encryption. Counts come from the exported trees alone; gains from the rows routed through them (tolerance 1e-9).",
    bounds=dict(quick=dict(rows=5, hosts=2, rounds=3), thorough=dict(rows=5, hosts=2, rounds=3)),
    rule="a case is (rows, labels, parameters); states are distinct cases; outcomes are distinct importance tables",
    assumptions=["losses are finite"],
)


def key(k):
    return (str(k[0]), int(k[1]))


def counts(trees):
    out = {}
    for t in trees:
        for n in t.tree_:
            if not n.is_leaf:
                k = (n.sitename, n.fid)
                out[k] = out.get(k, 0) + 1
    return out


def run(case):
    case = scale.fill(case)
    imp = case["importance"]
    conf = c14.conf_of(case)
    kw = dict(conf["p"], **case.get("p", {}))
    loss = case.get("loss", "cross_entropy")
    params = c05.LOSSES.get(loss)
    if loss != "cross_entropy":
        kw.update(task="regression", objective=loss, params=params)
    p = fed.boost_param(tree=fed.tree_param(importance=imp, **conf["tree"]), **kw)
    n = len(case["y"])
    if case.get("alone"):
        b = c25.Alone(list(range(n)), case["guest"], case["y"], [], p)
    else:
        b = fed.Boost(list(range(n)), case["guest"], case["y"], case["hosts"], p, site_idx=case.get("site_idx"))
    with fed.FakeKeys.on():
        b.run()
    g = b.models["g"]
    got = {key(k): v for k, v in dict(g.feature_importances_).items()}
    cnt = counts(g.trees_)
    expect(set(got) == {key(k) for k in cnt}, "importances exist for %r, the trees split on %r", sorted(got), sorted(map(key, cnt)))
    if imp == "split":
        for k, v in cnt.items():
            expect(got[key(k)] == v, "%r is split on %d times, its importance is %r", k, v, got[key(k)])
        return b, sorted(got.items())
    # gains: route the rows, boosting along
    if loss == "cross_entropy":
        classes = sorted(set(case["y"]))
        y, nc = [classes.index(v) for v in case["y"]], len(classes)
        dim = 1 if nc <= 2 else nc
    else:
        y, nc, dim = list(case["y"]), 0, 1
    _, gradf, hessf = ref.objective(loss, params, nc)
    lam = conf["tree"].get("lam", 0.1)
    F = [list(map(float, g.init_score)) for _ in y]
    want = {}
    for t in range(len(g.trees_)):
        if t % dim == 0:
            G, H = [gradf(y[i], F[i]) for i in range(n)], [hessf(y[i], F[i]) for i in range(n)]
        k = t % dim
        tv = fed.TreeView((None, g.trees_[t]), [(None, b.models[j].trees_[t]) for j in range(b.nhosts)], site_idx=case.get("site_idx"))
        parts = [case["guest"]] + case["hosts"]

        def walk(nid, rows):
            nd = tv.nodes[nid]
            if nd.is_leaf:
                for i in rows:
                    F[i][k] += p.learning_rate * nd.weight
                return
            thr, who = tv.threshold(nd), tv.owner(nd)
            left = [i for i in rows if parts[who][i][nd.fid] <= thr]
            s = lambda X, sel: sum(X[i][k] for i in sel)        # noqa: E731
            x = ref.gain(s(G, rows), s(H, rows), s(G, left), s(H, left), lam)
            kk = key((nd.sitename, nd.fid))
            want[kk] = want.get(kk, 0.0) + x
            walk(nd.left_nodeid, left)
            walk(nd.right_nodeid, [i for i in rows if i not in left])
        walk(0, list(range(n)))
    for k, v in want.items():
        expect(close(got[k], v, 1e-9, 1e-9), "the splits on %r gain %r in total, its importance is %r", k, v, got[k])
    return b, sorted((k, round(float(v), 5)) for k, v in got.items())


def run_tree(case):
    """One tree: its own report equals its exported nodes."""
    nb = 3
    guest = fed.Party([[r[0]] for r in case["bins"]], nb)
    hosts = [fed.Party([[r[1], r[2]] for r in case["bins"]], nb)]
    gh = [(float(v), 1.0) for v in case["g"]]
    gt, hts, s = fed.fit_tree(list(range(len(gh))), guest, hosts, gh, fed.tree_param(importance=case["importance"], **case["tree"]))
    meta, pm = gt.get_model()
    cnt = counts([pm])
    got = {key(k): v for k, v in dict(gt.get_feature_importance()).items()}
    expect(set(got) == {key(k) for k in cnt}, "the tree reports importances for %r and splits on %r", sorted(got), sorted(map(key, cnt)))
    if case["importance"] == "split":
        expect(all(got[key(k)] == v for k, v in cnt.items()), "the tree splits %r times, it reports %r", cnt, got)
    else:
        expect(all(v > 0 for v in got.values()), "gains %r", got)
    return s, sorted((k, round(float(v), 6)) for k, v in got.items())


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of, big=big) for i in range(of))
    add(b="two", of=8)
    add(b="perm", of=8)
    add(b="multi", of=4)
    add(b="tree", of=4)
    add(b="alone", of=2)
    add(b="scale", of=8)
    add(b="many", of=8)
    return out


def cases(block):
    b, big = block["b"], block["big"]
    if b == "two":
        G = [[0.0, 1.0], [1.0, 1.0], [2.0, -1.0], [3.0, 2.0], [0.0, 2.0]]
        H = [[[1.0, 0.0], [0.0, 1.0], [0.0, 1.0], [1.0, 2.0], [2.0, 2.0]], [[0.0], [1.0], [0.0], [2.0], [1.0]]]
        for imp in ("split", "gain"):
            for conf in ("two", "deep", "leaf2"):
                for y in itertools.product("ab", repeat=5):
                    if len(set(y)) > 1:
                        yield dict(importance=imp, conf=conf, guest=G, hosts=H, y=list(y))
                        yield dict(importance=imp, conf=conf, guest=[r[:1] for r in G], hosts=H, y=list(y), site_idx=[1, 0])
                for y in itertools.product((0.0, 1.0, -2.0), repeat=5 if big else 4):
                    yield dict(importance=imp, conf=conf, loss="lse", guest=G, hosts=H, y=(list(y) + [1.5])[:5], p=dict(num_trees=3))
    elif b == "perm":
        for imp in ("split", "gain"):
            for loss in ("lse", "huber", "lae"):
                for hv in itertools.permutations([-1.0, 0.0, 1.0, 2.0]):
                    for y in itertools.permutations([0.0, 1.0, 3.0, -2.0]):
                        yield dict(importance=imp, conf="deep", loss=loss, guest=[[0.0], [0.0], [2.0], [2.0]], hosts=[[[v] for v in hv]], y=list(y),
                                   p=dict(num_trees=3, tol=1.0 if loss == "lse" else 0.0))
    elif b == "multi":
        for imp in ("split", "gain"):
            for y in itertools.product("abc", repeat=5):
                if len(set(y)) == 3:
                    yield dict(importance=imp, conf="two", guest=[[0.0], [1.0], [1.0], [2.0], [0.0]], hosts=[[[1.0, 0.0], [0.0, 1.0], [0.0, 0.0], [1.0, 1.0], [2.0, 0.0]]], y=list(y))
    elif b == "many":
        # trees that split on more features than there are parties, levels or rounds
        for s in (dict(n=130, nf=11, hosts=1, depth=7, rounds=1, loss="lse"), dict(n=130, nf=5, hosts=4, depth=6, rounds=2, loss="lse"), dict(n=200, nf=24, hosts=2, depth=8, rounds=1, loss="lse"),
                  dict(n=130, nf=9, hosts=1, depth=6, rounds=4), dict(n=90, nf=40, hosts=1, depth=7, rounds=1, loss="lae"), dict(n=130, nf=7, hosts=1, depth=6, rounds=2, classes=4)):
            c = scale.make(**s)
            for imp in ("split", "gain"):
                yield dict(c, importance=imp)
                yield dict({k: v for k, v in c.items() if k != "site_idx"}, importance=imp, alone=True, guest=[sum((h[i] for h in c["hosts"]), list(r)) for i, r in enumerate(c["guest"])], hosts=[])
    elif b == "scale":
        for c in scale.cases(big):
            for imp in ("split", "gain"):
                yield dict(c, importance=imp)
    elif b == "alone":
        G = [[0.0, 1.0, 1.0], [1.0, 1.0, 0.0], [2.0, -1.0, 0.0], [3.0, 2.0, 1.0], [0.0, 2.0, 2.0]]
        for imp in ("split", "gain"):
            for conf in ("two", "deep", "leaf2"):
                for y in itertools.product("ab", repeat=5):
                    if len(set(y)) > 1:
                        yield dict(alone=True, importance=imp, conf=conf, guest=G, hosts=[], y=list(y))
                for y in itertools.product("abc", repeat=5):
                    if len(set(y)) == 3 and (big or conf == "two"):
                        yield dict(alone=True, importance=imp, conf=conf, guest=G, hosts=[], y=list(y))
                for y in itertools.product((0.0, 1.0, -2.0), repeat=4):
                    yield dict(alone=True, importance=imp, conf=conf, loss="lse", guest=G, hosts=[], y=list(y) + [1.5], p=dict(num_trees=3))
    elif b == "tree":
        rows = list(itertools.product((0, 1, 2), (0, 2), (1, 2)))
        sel = [rows[i] for i in (0, 3, 5, 6, 8, 11)]
        for imp in ("split", "gain"):
            for g in itertools.product((-2.0, 1.0, 3.0), repeat=6 if big else 5):
                for tree in (dict(max_depth=3), dict(max_depth=4, max_split_nodes=1), dict(max_depth=3, min_leaf_node=2, max_split_nodes=2)):
                    yield dict(tree_case=True, importance=imp, bins=[list(r) for r in sel[:len(g)]], g=list(g), tree=tree)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run_case(case), steps=0)
        if r is not None:
            b, out = r
            ctx.step(getattr(b, "sim", b).steps)
            ctx.state(core.jsonable(case))
            ctx.outcome(out)


def run_case(case):
    return run_tree(case) if case.get("tree_case") else run(case)
