"""C18 - exported tree models: what is exported, stored and loaded is the tree that was trained."""
import itertools

from mc import compat, core, fed, scale
from mc.core import expect, close
from mc.props import c04
from arch.api import boosting_tree_model_meta_pb2 as metas
from arch.api import boosting_tree_model_param_pb2 as params
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
from xgboost.hetero_decision_tree_guest import HeteroDecisionTreeGuest as AloneTree

META = dict(
    title="An exported tree survives storing and loading and predicts as trained",
    statement="The model each party (or the standalone trainer) exports for a tree carries the tree settings and every node with its id, owner, feature, threshold, weight, leaf flag and children, plus the party's own thresholds, exactly as the tree uses them. Stored as bytes and read back it is equal; loaded into fresh trees at all parties it gives every training row the leaf weight training gave it and every other row the weight of the leaf the exported tree leads to; exporting again gives the same model. Loading keeps nothing from a model loaded before, and neither exporting nor loading shares state between trees. The model messages keep every value of every field when stored.",
    quantifier=dict(over=["inputs", "histories", "configurations"], text="all small trainings, federated and standalone, over a grid of rows with one and two hosts and several depths, all synthetic trees of up to seven nodes over a pool of field values, all histories of two loads and an export, and all fields of all model messages over a pool of values; large trainings and trees of up to a thousand nodes, sizes enumerated"),
    why_tests_cant="Nothing tests the model files. One field that is written from or read into the wrong attribute changes a prediction only for trees and rows that use it, and only after a reload.",
    anchors=dict(files=["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "xgboost/hetero_decision_tree_guest.py", "arch/api/boosting_tree_model_meta_pb2.py", "arch/api/boosting_tree_model_param_pb2.py", "ml/tree/node.py"],
                 state=[dict(name="tree_, split_maskdict, settings", meaning="the tree", where="the decision trees")],
                 mechanism=[dict(name="export", where="get_model, get_model_meta, get_model_param"), dict(name="load", where="load_model, set_model_meta, set_model_param")],
                 observe_at=["exported messages", "leaf weights predicted after loading"], hook_needed=None),
    level="model_checking",
    technique="exhaustive enumeration of small trained and synthetic trees and of export and load histories on the real trees",
    level_note="Exhaustive over the stated spaces; identity encryption and the default schedule.",
    bounds=dict(quick=dict(rows=4, hosts=2, nodes=7, loads=2), thorough=dict(rows=5, hosts=2, nodes=7, loads=3)),
    rule="a case is a training, a synthetic model or a message; states are distinct models",
    assumptions=["trees are loaded by parties in the roles they had in training"],
)


def store(m):
    blob = m.SerializeToString()
    expect(type(blob) is bytes, "a stored message is %r", type(blob))
    n = type(m)()
    n.ParseFromString(blob)
    expect(n == m, "a message reads back as %s instead of %s", n, m)
    return n


def rows_of(meta):
    return (meta.max_depth, meta.min_sample_split, meta.min_impurity_split, meta.min_leaf_node)


def nodes_of(p):
    return [(n.id, n.sitename, n.fid, n.bid, n.weight, n.is_leaf, n.left_nodeid, n.right_nodeid) for n in p.tree_]


def widen(case):
    """A large tree as in C04: the data is a function of the sizes."""
    if "scale" not in case:
        return dict(case, parties=[dict(rows=[list(r) for r in p], nbins=3) for p in [case["guest"]] + case["hosts"]])
    c = c04.scaled(dict(scale=case["scale"]))
    t = c["conf"]
    return dict(tree=dict(max_depth=t["max_depth"], max_split_nodes=t["batch"], min_leaf_node=t["min_leaf"], min_sample_split=t["min_sample"]), parties=c["parties"], gh=[tuple(x) for x in c["gh"]])


def run_train(case):
    alone = case.get("alone")
    case = widen(case)
    n = len(case["gh"])
    tp = fed.tree_param(**case["tree"])
    guest, *hosts = [fed.Party(**p) for p in case["parties"]]
    ids = list(range(n))
    site = [3, 1, 12, 5, 0, 7, 10, 2, 11, 100, 4, 6][:len(hosts)]
    if alone:
        guest, hosts, site = fed.joined_party([guest] + hosts), [], None
        g, hs = fed.fit_alone(ids, guest, case["gh"], tp), []
    else:
        g, hs, _ = fed.fit_tree(ids, guest, hosts, case["gh"], tp, site_idx=site)

    def predict(ids, rows, hrows):
        return fed.predict_alone(stored[0], ids, rows, tp) if alone else fed.predict_tree(stored, ids, rows, hrows, tp, site_idx=site)
    weights = dict(g.predict_weights.collect())
    models = [g.get_model()] + [h.get_model() for h in hs]
    for m, _ in models:
        t = case["tree"]
        want = (t.get("max_depth", 3), t.get("min_sample_split", 2), t.get("min_impurity_split", 1e-3), t.get("min_leaf_node", 1))
        expect(rows_of(m) == want, "the exported settings are %r instead of %r", rows_of(m), want)
    expect(models[0][0].criterion_meta.criterion_method == "xgboost" and list(models[0][0].criterion_meta.criterion_param) == [t.get("lam", 0.1)],
           "the exported criterion is %s", models[0][0].criterion_meta)
    stored = [(store(a), store(b)) for a, b in models]
    # rows in real values: bin b of feature f holds values in (t[b-1], t[b]]
    def value(p, f, b):
        t = p.thresholds[f]
        return t[b] if b < len(t) else t[-1] + 1 if t else 7.0
    grow = [[value(guest, f, r[f]) for f in range(guest.nf)] for r in guest.rows]
    hrow = [[[value(h, f, r[f]) for f in range(h.nf)] for r in h.rows] for h in hosts]
    got = predict(ids, grow, hrow)
    expect(set(got) == set(ids), "weights for %r", sorted(got))
    for i in ids:
        expect(close(got[i], weights[i], 1e-9, 1e-12), "row %d gets weight %r after loading, training gave %r", i, got[i], weights[i])
    tv = fed.TreeView(stored[0], stored[1:], site_idx=site)
    tv.check_shape()
    # rows never seen
    extra = [(x, y) for x in (-5.0, 0.5, 1.5, 11.0) for y in (-5.0, 0.5, 1.5, 11.0)]
    er = [[x] * guest.nf for x, _ in extra]
    eh = [[[y] * h.nf for _, y in extra] for h in hosts]
    if alone:
        er = [[(x, y, (x + y) / 2)[(f + f // 3) % 3] for f in range(guest.nf)] for x, y in extra]
    got = predict(list(range(len(extra))), er, eh)
    for i in range(len(extra)):
        w = tv.path([er[i]] + [h[i] for h in eh]).weight
        expect(close(got[i], w, 1e-9, 1e-12), "row %r gets weight %r, the exported tree leads to %r", [er[i]] + [h[i] for h in eh], got[i], w)
    # export again from freshly loaded trees
    for k, (a, b) in enumerate(stored):
        t = (AloneTree if alone else HeteroDecisionTreeGuest if k == 0 else HeteroDecisionTreeHost)(fed.tree_param(max_depth=9, min_leaf_node=7, lam=3.0))
        t.load_model(a, b)
        a2, b2 = t.get_model()
        expect(a2 == a and b2 == b, "loading and exporting party %d's model changes it: %s%s instead of %s%s", k, a2, b2, a, b)
    again = g.get_model()
    expect(again[0] == models[0][0] and again[1] == models[0][1], "exporting twice gives different models")
    return [nodes_of(m[1]) for m in models], sorted(weights.items())


CLASSES = {"guest": HeteroDecisionTreeGuest, "host": HeteroDecisionTreeHost, "alone": AloneTree}


def build(spec, who):
    """A model message from a specification."""
    meta = metas.DecisionTreeModelMeta()
    meta.max_depth, meta.min_sample_split, meta.min_impurity_split, meta.min_leaf_node = spec["meta"][:4]
    if who != "host":
        meta.criterion_meta.criterion_method = "xgboost"
        meta.criterion_meta.criterion_param.extend(spec["meta"][4])
    p = params.DecisionTreeModelParam()
    for nd in spec["nodes"]:
        p.tree_.add(id=nd[0], sitename=nd[1], fid=nd[2], bid=nd[3], weight=nd[4], is_leaf=nd[5], left_nodeid=nd[6], right_nodeid=nd[7])
    p.split_maskdict.update({int(k): v for k, v in spec["mask"]})
    return meta, p


def run_synth(case):
    cls = CLASSES[case["who"]]
    t = cls(fed.tree_param())
    other = cls(fed.tree_param())
    mine = build(dict(meta=[4, 6, 0.5, 2, [0.1]], nodes=[[0, "guest", 1, 2.5, 0.0, False, 1, 2], [1, "guest", -1, 0.0, 1.0, True, -1, -1], [2, "guest", -1, 0.0, 2.0, True, -1, -1]], mask=[[0, 2.5]]), case["who"])
    other.load_model(store(mine[0]), store(mine[1]))
    for spec in case["specs"]:
        meta, p = build(spec, case["who"])
        t.load_model(store(meta), store(p))
        m2, p2 = t.get_model()
        expect(m2 == meta, "the settings come back as %s instead of %s", m2, meta)
        expect(nodes_of(p2) == nodes_of(p), "the nodes come back as %r instead of %r", nodes_of(p2), nodes_of(p))
        expect(dict(p2.split_maskdict) == dict(p.split_maskdict), "the thresholds come back as %r instead of %r", dict(p2.split_maskdict), dict(p.split_maskdict))
        expect(m2 is not meta and p2 is not p, "the exported model is the loaded object")
    o = other.get_model()
    expect(o[0] == mine[0] and o[1] == mine[1], "loading one tree changed another: %s%s", o[0], o[1])
    return nodes_of(p2)


def messages():
    for mod in (metas, params):
        for name, d in mod.DESCRIPTOR.message_types_by_name.items():
            yield mod, name, d


POOL = {"int": [0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31], "double": [0.0, -0.0, 1.5, -1e300, 5e-324, 1e-9, float("inf")], "string": ["", "guest", "host.12", "\u6811 x"], "bool": [False, True]}


def pool(f):
    t = f.type
    if t in (f.TYPE_INT32, f.TYPE_INT64, f.TYPE_SINT32, f.TYPE_UINT32):
        return POOL["int"]
    if t in (f.TYPE_DOUBLE, f.TYPE_FLOAT):
        return POOL["double"]
    if t == f.TYPE_STRING:
        return POOL["string"]
    if t == f.TYPE_BOOL:
        return POOL["bool"]
    return None


def is_map(f):
    return f.message_type is not None and f.message_type.GetOptions().map_entry


def run_message(case):
    mod = {"meta": metas, "param": params}[case["mod"]]
    m = getattr(mod, case["name"])()
    for fname, v in case["set"]:
        f = m.DESCRIPTOR.fields_by_name[fname]
        if is_map(f):
            getattr(m, fname).update({(int(k) if f.message_type.fields_by_name["key"].type != f.TYPE_STRING else k): x for k, x in v})
        elif f.label == f.LABEL_REPEATED:
            getattr(m, fname).extend(v)
        else:
            setattr(m, fname, v)
    n = store(m)
    for fname, v in case["set"]:
        f = m.DESCRIPTOR.fields_by_name[fname]
        got = getattr(n, fname)
        if is_map(f):
            got = sorted([str(k), x] for k, x in dict(got).items())
            v = sorted([str(k), x] for k, x in v)
        elif f.label == f.LABEL_REPEATED:
            got = list(got)
        expect(got == v, "field %s of %s reads back as %r instead of %r", fname, case["name"], got, v)
    return str(n)


# ---------------------------------------------------------------------- enumeration

def tasks(tier):
    big = tier != "quick"
    out = [dict(b="train", hosts=h, part=i, of=8, n=n) for h in (1, 2) for n in ((3, 4, 5) if big else (3, 4)) for i in range(8)]
    out += [dict(b="synth", who=w, big=big) for w in CLASSES]
    out += [dict(b="message")]
    out += [dict(b="wide", part=i, of=6, big=big) for i in range(6)]
    return out


TREES = [dict(max_depth=3), dict(max_depth=4, min_sample_split=3, min_impurity_split=0.25, lam=1.0), dict(max_depth=2, min_leaf_node=2, lam=0.5)]


def synth_specs():
    m1 = [3, 2, 0.001, 1, [0.1]]
    m2 = [1, 0, -2.5, 12, [0.0, 7.0]]
    m3 = [2 ** 31 - 1, 5, 1e-300, 3, []]
    leaf = lambda i, s, w: [i, s, -1, 0.0, w, True, -1, -1]   # noqa: E731
    trees = [[leaf(0, "guest", 0.25)], [leaf(0, "host.3", -1e-9)]]
    for s, fid, bid in itertools.product(("guest", "host.0", "host.12"), (0, 5, -1), (0.0, -3.75, 1e300)):
        trees.append([[0, s, fid, bid, 0.5, False, 1, 2], leaf(1, "guest", -1.5), leaf(2, s, 3.25)])
    trees.append([[0, "host.1", 2, 4.0, 0.0, False, 1, 2], [1, "guest", 1, -0.5, -0.0, False, 3, 4], [2, "host.0", 0, 0.0, 9.0, False, 5, 6]]
                 + [leaf(i, s, w) for i, s, w in ((3, "guest", 1.0), (4, "host.1", 2.0), (5, "guest", -3.0), (6, "host.0", 0.0))])
    masks = [[], [[0, 1.5]], [[0, -0.0], [1, 2.5], [6, -1e9]], [[5, 1e-300], [3, 4.0]]]
    return [dict(meta=m, nodes=t, mask=k) for m in (m1, m2, m3) for t in trees for k in masks]


def cases(block):
    b = block["b"]
    if b == "train":
        n = block["n"]
        gh = [(-1.0, 1.0), (1.0, 0.5), (0.5, 0.25), (-0.25, 1.0), (2.0, 1.0)][:n]
        bins = (0, 1, 2)
        for g in itertools.product(bins, repeat=n):
            hs = itertools.product(bins, repeat=n) if n < 4 else itertools.product((0, 2), repeat=n)
            for h in hs:
                if block["hosts"] == 2 and (h[0] == 0 or g[0] == 2):
                    continue
                for k, t in enumerate(TREES):
                    if n > 3 and (sum(g) + k + sum(h)) % 3:
                        continue
                    hosts = [[[v] for v in h]] if block["hosts"] == 1 else [[[v, (v + i) % 3] for i, v in enumerate(h)], [[g[n - 1 - i]] for i in range(n)]]
                    yield dict(k="train", gh=gh, guest=[[v] for v in g], hosts=hosts, tree=t)
    elif b == "synth":
        specs = synth_specs()
        for s in specs:
            yield dict(k="synth", who=block["who"], specs=[s])
        few = specs[::11] + [specs[-1]]
        for combo in itertools.product(few, repeat=2):
            yield dict(k="synth", who=block["who"], specs=list(combo))
        if block["big"]:
            for combo in itertools.product(few[::2], repeat=3):
                yield dict(k="synth", who=block["who"], specs=list(combo))
    elif b == "wide":
        for sz in scale.sizes(block["big"]):
            if not {"classes", "loss", "rounds"} & set(sz):
                yield dict(k="train", scale=sz)
        # a complete tree of every depth, and a long path
        for depth in (1, 3, 5, 7, 8, 9) + ((10, 11) if block["big"] else ()):
            n = 2 ** depth - 1
            nodes = [[i, ("guest", "host.%d" % (i % 13))[i % 3 > 0], i % 300, i / 8.0 - 10, -i / 16.0, False, 2 * i + 1, 2 * i + 2] for i in range(n)]
            nodes += [[i, "guest", -1, 0.0, i / 4.0 - 3, True, -1, -1] for i in range(n, 2 * n + 1)]
            path = []
            for d in range(depth * 10):
                path.append([2 * d, "host.%d" % d, d, float(d), 0.0, False, 2 * d + 1, 2 * d + 2])
                path.append([2 * d + 1, "guest", -1, 0.0, d / 2.0, True, -1, -1])
            for who in CLASSES:
                for k, nd in enumerate((nodes, path + [[20 * depth, "guest", -1, 0.0, 9.0, True, -1, -1]])):
                    yield dict(k="synth", who=who, specs=[dict(meta=[depth, 2, 0.001, 1, [0.1]], nodes=nd, mask=[[i, i * 0.75 - 4] for i in range(0, len(nd), 2 + k)])])
    elif b == "message":
        for mod, name, d in messages():
            mn = "meta" if mod is metas else "param"
            singles = []
            for f in d.fields:
                if is_map(f):
                    kp = pool(f.message_type.fields_by_name["key"])
                    vp = pool(f.message_type.fields_by_name["value"])
                    vals = [[[str(kp[i]), vp[i % len(vp)]] for i in range(k)] for k in (0, 1, 2, 4)]
                elif f.label == f.LABEL_REPEATED:
                    if pool(f) is None:
                        continue
                    vals = [list(x) for k in (0, 1, 2) for x in itertools.product(pool(f), repeat=k)]
                elif pool(f) is None:
                    continue
                else:
                    vals = pool(f)
                for v in vals:
                    yield dict(k="message", mod=mn, name=name, set=[[f.name, v]])
                singles.append((f.name, vals))
            for (f, vs), (g, ws) in itertools.combinations(singles, 2):
                for v, w in itertools.product(vs[:6], ws[:6]):
                    yield dict(k="message", mod=mn, name=name, set=[[f, v], [g, w]])


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block.get("of", 1) != block.get("part", 0):
            continue
        for case in (case, dict(case, alone=True)) if case["k"] == "train" else (case,):
            r = ctx.case(case, lambda: run_case(case))
            if r is not None:
                ctx.state((case.get("alone"), r))
                ctx.outcome(r)


def run_case(case):
    return dict(train=run_train, synth=run_synth, message=run_message)[case["k"]](case)
