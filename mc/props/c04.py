"""C04 - a federated tree is the greedy optimum over everybody's features."""
import itertools

from mc import core, fed, ref, scale
from mc.core import expect, close

META = dict(
    title="Every federated split is the best over all parties; leaf weights are exact",
    statement="In every tree that guest and hosts grow together, or the standalone variant grows over all columns, each split has the largest gain among all admissible splits of all parties' usable features at that node (ties aside), a node stays a leaf only when a stopping rule applies (depth, minimum samples, minimum leaf size, minimum gain), and each leaf's weight is -G/(H+lambda) of exactly the training samples that reach it. Each sample ends in exactly one leaf, only the owner of a split keeps its threshold, and the threshold is the real value of the chosen bin. Feature importances count, per party and feature, the splits made or the gain they brought.",
    quantifier=dict(over=["inputs", "configurations"], text="all multisets of sample rows over small bin grids and gradients, with 1-3 hosts (and 11 and 12 where their names matter), 1-2 features per party, all stopping parameters from small sets, node batches of 1, 2 and all, sparse and dense rows, feature masks, regularisation values and importance types; every size (rows to 200, hosts to 12, features to 11, bins to 70, depth to 8, node batches) swept one and two at a time on fixed data"),
    why_tests_cant="No test builds a tree. Greedy optimality has to hold at every node for every distribution of samples, and errors in node batching, host merging or stop rules show only for particular trees.",
    anchors=dict(files=["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/splitter.py", "ml/tree/creterion.py", "ml/tree/feateur_histogram.py", "xgboost/hetero_decision_tree_guest.py"],
                 state=[dict(name="tree nodes", meaning="structure, owner, feature", where="HeteroDecisionTreeGuest.tree_"),
                        dict(name="split masks", meaning="thresholds kept by the split's owner", where="split_maskdict")],
                 mechanism=[dict(name="guest and host candidate search", where="Splitter.find_split*, find_host_split"),
                            dict(name="merge of guest's and hosts' best", where="merge_splitinfo, find_best_split_guest_and_host"),
                            dict(name="node queue update and dispatch", where="update_tree_node_queue, redispatch_node")],
                 observe_at=["get_model of both sides", "predict_weights", "get_feature_importance"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive lock-step: real guest and hosts grow every small tree, a node-by-node reference judges it",
    level_note="Exhaustive over the stated grids (rows as multisets; order-sensitive variants in separate blocks). Numbers pass unencrypted here (encryption is C07/C08); float comparisons use a tie tolerance of 2.5e-6. Trusts the 70-line reference in mc/ref.py.",
    bounds=dict(quick=dict(rows=8, bins=3, hosts=3, depth=4), thorough=dict(rows=8, bins=4, hosts=3, depth=4)),
    rule="a case is (rows with bins and gradients per party, parameters); states are distinct fitted trees with their row partition",
    assumptions=["lambda > 0 or positive hessians", "min_leaf_node >= 1"],
)

BASE = dict(max_depth=3, min_sample=2, min_leaf=1, min_impurity=1e-3, lam=0.1, batch=65536, imp="split")
CONF = {
    "std": {}, "d1": dict(max_depth=1), "d2": dict(max_depth=2), "d4b1": dict(max_depth=4, batch=1), "d4b2": dict(max_depth=4, batch=2),
    "d4b3": dict(max_depth=4, batch=3), "leaf2": dict(min_leaf=2), "leaf2b1": dict(min_leaf=2, batch=1, max_depth=4),
    "samp3": dict(min_sample=3), "samp4": dict(min_sample=4, max_depth=4), "imp1": dict(min_impurity=1.0), "imp3": dict(min_impurity=3.7, imp="gain"),
    "lam1": dict(lam=1.0, imp="gain"), "lam5": dict(lam=5, max_depth=4), "gain": dict(imp="gain", batch=1), "leaf3": dict(min_leaf=3, max_depth=2),
    "neg": dict(min_impurity=0, lam=2.0), "lam0": dict(lam=0, max_depth=4, batch=1),
}


def conf(name):
    return dict(BASE, **(name if isinstance(name, dict) else CONF[name]))


def scaled(case):
    """A tree on data that is a fixed function of its sizes."""
    s = dict(scale.BASE, mask=0, sparse=0, imp="split", sample=2)
    s.update(case["scale"])
    n, h = s["n"], scale.h
    parties = []
    for p in range(s["hosts"] + 1):
        nb = [1 + (s["bins"] - 1) // (1 + (f + p) % 3) for f in range(s["nf"])]
        d = dict(rows=[[min(nb[f] - 1, max(0, h(i, f, p) % (nb[f] + 1 + f % 2) - f % 2)) for f in range(s["nf"])] for i in range(n)], nbins=nb)
        if s["mask"]:
            d["valid"] = [h(f, p, "m") % 3 > 0 for f in range(s["nf"])]
        if s["sparse"]:
            d["sparse"] = [h(f, p, "s") % b for f, b in enumerate(nb)]
            d["dense"] = p % 2 == 1
        parties.append(d)
    gh = [[(h(i, "g") % 41 - 20) / 7.0 + parties[i % len(parties)]["rows"][i][0] / 2.0, (1 + h(i, "h") % 8) / 8.0] for i in range(n)]
    return dict(conf=dict(max_depth=s["depth"], batch=s["batch"], min_leaf=s["leaf"], imp=s["imp"], min_sample=s["sample"]), parties=parties, gh=gh,
                ids=case.get("ids") and ["row-%d" % (i * 7 % n if n % 7 else i) for i in range(n)])


def run_tree(case):
    """case: conf, parties [{rows, nbins, sparse, dense, valid}], gh, ids, alone"""
    case = scaled(case) if "scale" in case else case
    c = conf(case["conf"])
    parties = [fed.Party(**p) for p in case["parties"]]
    gh = [tuple(x) for x in case["gh"]]
    ids = case.get("ids") or list(range(len(gh)))
    site = case.get("site")
    prm = fed.tree_param(c["max_depth"], c["min_sample"], c["min_leaf"], c["min_impurity"], c["lam"], c["batch"], c["imp"])
    if case.get("alone"):        # the standalone tree over everybody's columns
        parties, site = [fed.joined_party(parties)], None
        gt, hts, s = fed.fit_alone(ids, parties[0], gh, prm), [], fed._OneStep
    else:
        gt, hts, s = fed.fit_tree(ids, parties[0], parties[1:], gh, prm, site_idx=site)
    gm, hms = gt.get_model(), [t.get_model() for t in hts]
    tv = fed.TreeView(gm, hms, site_idx=site)
    w = {ids.index(k): v for k, v in gt.predict_weights.collect()}
    leaf_of, splits = ref.check_tree(tv, parties, gh, c, weights=w)

    # thresholds live with their owner only
    owned = {}
    for nid, (who, f, x, rows) in splits.items():
        owned.setdefault(who, set()).add(nid)
    for j, name in enumerate(tv.masks):
        extra = set(tv.masks[name]) - owned.get(j, set())
        expect(not extra or j == 0 and not (extra & set(splits)), "party %s keeps thresholds of nodes %r it does not own", name, sorted(extra))
    for n in gm[1].tree_:
        if not n.is_leaf and tv.owner(n) != 0:
            expect(n.bid == 0, "the guest's copy of host node %d has threshold %r", n.id, n.bid)
    # every host has the same structure
    shape = [(n.id, n.sitename, n.is_leaf, n.left_nodeid, n.right_nodeid, n.fid) for n in gm[1].tree_]
    for i, hp in enumerate(tv.hparams):
        expect([(n.id, n.sitename, n.is_leaf, n.left_nodeid, n.right_nodeid, n.fid) for n in hp.tree_] == shape, "host %d has another tree than the guest", i)

    # feature importances
    want = {}
    for nid, (who, f, x, rows) in splits.items():
        name = "guest" if who == 0 else tv.nodes[nid].sitename
        want[(name, f)] = want.get((name, f), 0) + (1 if c["imp"] == "split" else x)
    got = {k: v for k, v in gt.get_feature_importance().items() if v != 0}
    want = {k: v for k, v in want.items() if abs(v) > 1e-12}
    expect(set(got) == set(want) and all(close(got[k], want[k], 1e-6, 1e-6) for k in want), "feature importances are %r, expected %r", got, want)
    return tv, leaf_of, s


def run_case(case):
    return run_tree(case)


def grid(bins, grads):
    return list(itertools.product(*([range(b) for b in bins] + [grads])))


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(**kw):
        n = kw.pop("of", 1)
        for i in range(n):
            out.append(dict(kw, part=i, of=n))

    # one host, 3x3 bins, all multisets of rows
    for c in CONF:
        add(b="multi", conf=c, bins=[[2], [2]], grads=[1, -2], n=4, of=1)
        if big:
            add(b="multi", conf=c, bins=[[2], [2]], grads=[1, -2], n=6, of=1)
    add(b="multi", conf="std", bins=[[3], [3]], grads=[1, -2], n=3, of=2)
    add(b="multi", conf="d4b2", bins=[[3], [3]], grads=[1, -2], n=4 if big else 3, of=4)
    add(b="multi", conf="leaf2", bins=[[3], [2]], grads=[1, -3], n=4, of=4)
    add(b="multi", conf="std", bins=[[2], [2], [2]], grads=[1, -2], n=3, of=1)
    add(b="multi", conf="d4b1", bins=[[2], [2], [2]], grads=[1, -2], n=4 if big else 3, of=4)
    add(b="multi", conf="gain", bins=[[2, 2], [2]], grads=[1, -2], n=3, of=1)
    add(b="multi", conf="d4b2", bins=[[2], [2, 2]], grads=[1, -2], n=4 if big else 3, of=2)
    add(b="multi", conf="std", bins=[[2], [2], [2], [2]], grads=[1, -2], n=3, of=4)
    # masks, sparse points, dense rows
    add(b="mask", n=3, of=4)
    add(b="sparse", n=3, of=4)
    # deep trees: every gradient vector over fixed columns, for each batch size
    for c in ("d4b1", "d4b2", "d4b3", "samp4", "leaf2b1", "gain", "lam5"):
        add(b="deep", conf=c, cols=0, n=8 if big else 7, of=4)
        add(b="deep", conf=c, cols=1, n=8 if big else 6, of=2)
        add(b="deep", conf=c, cols=2, n=8 if big else 6, of=2)
    # gradients close together: the merge of guest's and hosts' gains, at and beyond the tie tolerance
    add(b="near", of=2)
    # many hosts: sites whose names are prefixes of one another
    add(b="hosts", all=big, of=4)
    # row orders and unusual keys
    add(b="order", n=4, of=2)
    add(b="floor", n=5, of=4)
    # sizes far beyond the grids, on fixed data
    add(b="scale", big=big, of=8)
    # hessians
    add(b="hess", n=3, of=4)
    return out


def case_of(confname, rows, bins, gh=None, **kw):
    """rows: tuples (bins of party 0 .. , grad)"""
    parties, pos = [], 0
    for k, bs in enumerate(bins):
        parties.append(dict(rows=[list(r[pos:pos + len(bs)]) for r in rows], nbins=list(bs)))
        pos += len(bs)
    for k, extra in (kw.pop("extra", None) or {}).items():
        parties[k].update(extra)
    return dict(conf=confname, parties=parties, gh=gh or [[r[-1], 1.0] for r in rows], **kw)


DEEP = {
    # guest and host columns that need several levels to separate
    0: [[[0, 0, 1, 1, 2, 2, 3, 3]], [[0, 1, 2, 3, 3, 2, 1, 0]]],
    1: [[[0, 1, 0, 1, 0, 1, 0, 1]], [[0, 0, 1, 1, 0, 0, 1, 1]], [[0, 0, 0, 0, 1, 1, 1, 1]]],
    2: [[[0, 0, 0, 0, 0, 0, 0, 0]], [[0, 1, 2, 3, 0, 1, 2, 3], [3, 3, 2, 1, 1, 0, 2, 0]], [[0, 1, 1, 2, 2, 3, 3, 0]]],
}


def cases(block):
    b = block["b"]
    if b == "multi":
        bins = block["bins"]
        g = grid([x for bs in bins for x in bs], block["grads"])
        for rows in itertools.combinations_with_replacement(g, block["n"]):
            yield case_of(block["conf"], rows, bins)
    elif b == "mask":
        bins = [[2, 2], [2, 2]]
        g = grid([2, 2, 2, 2], [1, -2])
        masks = [m for m in itertools.product([True, False], repeat=4) if not all(m)]
        for i, rows in enumerate(itertools.combinations_with_replacement(g, block["n"])):
            m = masks[i % len(masks)]
            yield case_of("std" if i % 2 else "gain", rows, bins, extra={0: dict(valid=list(m[:2])), 1: dict(valid=list(m[2:]))})
        rows = [(0, 1, 0, 1, 1), (1, 0, 0, 1, -2), (1, 1, 1, 0, 3), (0, 0, 1, 0, -5)]
        for m in masks:
            for c in CONF:
                yield case_of(c, rows, bins, extra={0: dict(valid=list(m[:2])), 1: dict(valid=list(m[2:]))})
    elif b == "sparse":
        bins = [[3], [2, 3]]
        g = grid([3, 2, 3], [1, -2])
        sps = list(itertools.product(range(3), range(2), range(3), (True, False)))
        for i, rows in enumerate(itertools.combinations_with_replacement(g, block["n"])):
            a, b1, b2, d = sps[i % len(sps)]
            yield case_of("std", rows, bins, extra={0: dict(sparse=[a], dense=d), 1: dict(sparse=[b1, b2], dense=not d)})
    elif b == "deep":
        cols = DEEP[block["cols"]]
        n = block["n"]
        bins = [[max(c) + 1 for c in p] for p in cols]
        for gs in itertools.product((-2, 1) if block["cols"] else (-2, 1), repeat=n):
            rows = [tuple(c[i] for p in cols for c in p) + (g,) for i, g in enumerate(gs)]
            # make gradients distinguishable by row
            gh = [[g + 0.01 * i * i, 1.0 + 0.1 * (i % 3)] for i, g in enumerate(gs)]
            yield case_of(block["conf"], rows, bins, gh=gh)
    elif b == "near":
        # guest splits {0}|{1,2,3}, hosts offer nearly the same gain
        for eps in (0, 1e-9, 4e-7, 3e-6, 1e-5, 1e-3, 0.1):
            for sgn in (1, -1):
                for perm in itertools.permutations(range(3)):
                    cols = [[0, 1, 1, 1], [1, 0, 1, 1], [1, 1, 0, 1]]
                    ps = [[cols[perm[k]]] for k in range(3)]
                    rows = [tuple(p[0][i] for p in ps) + (0,) for i in range(4)]
                    gh = [[2.0 + sgn * eps, 1.0], [2.0, 1.0], [2.0 - sgn * eps * 2, 1.0], [-1.0, 1.0]]
                    for c in ("std", "d2", "gain", "imp3"):
                        yield case_of(c, rows, [[2], [2], [2]], gh=gh)
        # the gain sits at the minimum gain
        for off in (-1e-2, -1e-5, 1e-5, 1e-2):
            x = 3.7
            # two rows g, -g with hessian 1: gain = 2 g^2 / 1.1
            gg = ((x + off) * 1.1 / 2) ** 0.5
            for cols in ([[0, 1]], [[0, 0]]), ([[0, 0]], [[0, 1]]), ([[0, 1]], [[1, 0]]):
                rows = [tuple(p[0][i] for p in cols) + (0,) for i in range(2)]
                yield case_of("imp3", rows, [[2], [2]], gh=[[gg, 1.0], [-gg, 1.0]])
    elif b == "hosts":
        pats = [p for p in itertools.product((0, 1), repeat=4) if p[0] == 0 and any(p)]
        for n, pair in ((11, (1, 10)), (12, (10, 11)), (12, (1, 11)), (3, (0, 2)), (11, (0, 10))):
            for a, b2 in itertools.product(pats, repeat=2):
                for gs in ([-2, 1, 1, 3], [2, -1, -3, 2]) if block["all"] else ([-2, 1, 1, 3],):
                    cols = [(0,) * 4] + [a if h == pair[0] else b2 if h == pair[1] else (0,) * 4 for h in range(n)]
                    rows = [tuple(c[i] for c in cols) + (g,) for i, g in enumerate(gs)]
                    yield case_of("d4b1", rows, [[2]] * (n + 1))
    elif b == "order":
        base = [(0, 1, 3), (1, 0, -2), (2, 2, 1), (0, 2, -5)]
        keysets = [[0, 1, 2, 3], [3, 2, 1, 0], ["", "a", "0", "b"], [0, "0", -1, 7], [10 ** 12, 5, 0, 2]]
        for rows in itertools.permutations(base):
            for ids in keysets:
                for c in ("std", "leaf2"):
                    yield case_of(c, rows, [[3], [3]], ids=ids)
                    yield case_of(c, rows, [[3], [3]], ids=ids, site=[4])
        for rows in itertools.permutations(base):
            three = [r[:2] + (r[0],) + r[2:] for r in rows]
            yield case_of("std", three, [[3], [3], [3]], site=[1, 0])
            yield case_of("std", three, [[3], [3], [3]], site=[10, 3])
    elif b == "scale":
        seen = []
        for sz in scale.sizes(block["big"]):
            sz = {k: v for k, v in sz.items() if k not in ("rounds", "classes", "loss", "lr", "stop")}
            if sz in seen:
                continue
            seen.append(sz)
            for kw in (dict(), dict(imp="gain", sparse=1), dict(mask=1)) if len(sz) < 2 or block["big"] else (dict(sparse=1),):
                yield dict(scale=dict(sz, **kw), ids=len(sz) == 1)
        for j in (1, 100, 254, 255, 256, 257, 290, 297):
            for who in (0, 1):                        # the best split at every end of a long feature of either party
                col, flat = [[i] for i in range(300)], [[0]] * 300
                yield case_of_long(j, col, flat, who)
        for sz in (dict(sample=5), dict(sample=9, depth=6), dict(sample=4, leaf=3, batch=2), dict(n=200, depth=8, hosts=3), dict(n=200, depth=8, batch=5), dict(hosts=12, depth=5), dict(n=90, depth=7, bins=40, batch=1)):
            yield dict(scale=sz, ids=True)
    elif b == "floor":
        # the gain a split needs, from nothing to more than there is, on gradients of every size
        rows = [(0, 1), (1, 0), (2, 0), (1, 1), (2, 1), (0, 0)]
        for low in (0, 1e-5, 1e-3, 0.02, 0.3, 2.0):
            for unit in (0.01, 0.03, 0.1, 1.0):
                for g in itertools.product((-2.0, 1.0, 0.5), repeat=block["n"] - 1):
                    yield case_of(dict(min_impurity=low), [r + (0,) for r in rows], [[3], [2]], gh=[[unit * v, 1.0] for v in list(g) + [-1.0, 1.5]])
    elif b == "hess":
        g = grid([2, 2], [0, 1, 2, 3])
        vals = [[1.0, 0.25], [-1.0, 0.5], [0.5, 2.0], [-3.0, 1e-3]]
        for rows in itertools.combinations_with_replacement(g, block["n"] + 1):
            yield case_of("std", rows, [[2], [2]], gh=[vals[r[-1]] for r in rows])


def case_of_long(j, col, flat, who):
    parties = [dict(rows=flat, nbins=[1]), dict(rows=flat, nbins=[1])]
    parties[who] = dict(rows=col, nbins=[300])
    return dict(conf=dict(max_depth=2), parties=parties, gh=[(1.0 if i <= j else -30.0, 1.0) for i in range(300)])


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        for case in (case, dict(case, alone=True)):
            r = ctx.case(case, lambda: run_tree(case), steps=0)
            if r is not None:
                tv, leaf_of, s = r
                ctx.step(s.steps)
                shape = tuple((n.id, n.sitename, n.fid, n.is_leaf) for n in tv.nodes.values())
                ctx.state((block["b"], block.get("conf"), case.get("alone"), shape, tuple(sorted(leaf_of.items())), core.jsonable(case["scale"]) if "scale" in case else case["gh"]))
                ctx.outcome(shape)


_ = core
