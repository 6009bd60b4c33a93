"""C26 - what the guest and the other hosts get to see of a host's data."""
import itertools
import pickle

from mc import core, fed, priv, scale
from mc.core import expect
from mc.props import c06

META = dict(
    title="A host's feature values and thresholds never leave it, only ordering does",
    statement="No message a host sends contains one of its feature values, thresholds, feature names or, for a chosen split, the bin number; the guest's and the other hosts' exported trees hold no threshold of it either. Everything it sends during training and prediction stays exactly the same when its columns are replaced by any order-preserving transformation of them (zeros staying zeros): the other parties learn how rows compare, never by how much. Gradient and hessian sums a host returns are ciphertexts, and it does nothing with the guest's ciphertexts but add them up.",
    quantifier=dict(over=["inputs", "configurations"], text="all small host columns over negative, zero and positive values, labels from all assignments, every order-preserving change from a set, one and two hosts, several tree shapes, predictions on rows between and beyond the training values; every size swept far beyond the grids on fixed data"),
    why_tests_cant="A leak changes no result, and independence from magnitudes is a statement about pairs of runs, which no single test execution can show.",
    anchors=dict(files=["ml/tree/hetero_decision_tree_host.py", "ml/tree/hetero_secureboosting_tree_host.py", "ml/tree/splitter.py", "ml/tree/feateur_histogram.py", "ml/feature/binning/quantile_binning.py"],
                 state=[dict(name="split_maskdict", meaning="thresholds kept by the host", where="HeteroDecisionTreeHost")],
                 mechanism=[dict(name="masking of chosen splits", where="sync_final_splitinfo_host, encode"),
                            dict(name="candidate sums without positions", where="Splitter.find_split_host"),
                            dict(name="dispatch and prediction by node id only", where="dispatch_node, traverse_tree")],
                 observe_at=["messages from hosts to guest", "trees exported by the other parties"], hook_needed=None),
    level="model_checking",
    technique="exhaustive execution of pairs of small trainings with opaque ciphertexts, all host messages compared and inspected atom by atom",
    level_note="Exhaustive over the stated grids and transformations. The order in which candidate sums are listed (feature by feature, bin by bin) is part of the protocol and lets the guest count candidates; that is not claimed hidden.",
    bounds=dict(quick=dict(rows=12, hosts=2, transforms=5), thorough=dict(rows=12, hosts=2, transforms=5)),
    rule="a case is (data, labels, transformation or inspection); states are distinct cases; outcomes are distinct message-shape histories",
    assumptions=["row keys are public", "hosts run the same parameters"],
)




def inspect(case):
    log = []
    case = c06.scaled(case)
    b = c06.boost(case, log)
    with priv.opaque_keys():
        b.run()
        nodes = max(len(t.tree_) for t in b.models["g"].trees_)
        nf = max(len(h[0]) for h in case["hosts"])
        top = max(nodes + 2, nf, b.nhosts, 3)
        shapes = []
        n_ct = 0
        for who, blob in log:
            if who == "guest":
                continue
            msg = pickle.loads(blob)
            # the guest can read the ciphertexts it gets back: their plaintexts count
            shapes.append((who, priv.shape(msg, opened=True)))
            for path, x in priv.leaves(msg):
                if isinstance(x, priv.Opaque):
                    n_ct += 1
                elif isinstance(x, bool) or x is None or isinstance(x, type):
                    continue
                elif isinstance(x, (float, complex)):
                    expect(x == 0 or x in b.all_ids, "%s sends the number %r in clear (at %s)", who, x, path or "top")
                elif isinstance(x, int):
                    expect(x in b.all_ids or -1 <= x <= top, "%s sends the number %r in clear (at %s)", who, x, path or "top")
                elif isinstance(x, (str, bytes)):
                    expect(x in b.all_ids or x not in {"x%d" % f for f in range(nf)}, "%s sends its feature name %r", who, x)
        # thresholds stay at home
        g = b.models["g"]
        for t, tree in enumerate(g.trees_):
            for n in tree.tree_:
                if not n.is_leaf and n.sitename != "guest":
                    expect(n.bid == 0 and n.id not in tree.split_maskdict, "the guest's tree %d has a threshold for host node %d", t, n.id)
            for i in range(b.nhosts):
                ht = b.models[i].trees_[t]
                mine = {n.id for n in ht.tree_ if not n.is_leaf and n.sitename == "host.%d" % i}
                expect(set(ht.split_maskdict) == mine, "host %d keeps thresholds for nodes %r, its own are %r", i, sorted(ht.split_maskdict), sorted(mine))
                for n in ht.tree_:
                    if not n.is_leaf and n.sitename != "host.%d" % i:
                        expect(n.bid == 0, "host %d's tree %d has a threshold for foreign node %d", i, t, n.id)
    return b, shapes, n_ct


def monotone(case):
    base = c06.scaled(case["base"])
    b, ref, n_ct = inspect(base)
    f = c06.T[case["t"]]
    which = case.get("which", 0)
    feat = case.get("feat")

    def remap(rows):
        return [[f(v) if feat is None or k == feat else v for k, v in enumerate(r)] for r in rows]
    alt = dict(base, hosts=[remap(h) if i == which else h for i, h in enumerate(base["hosts"])])
    if base.get("test"):
        alt["test"] = dict(base["test"], hosts=[remap(h) if i == which else h for i, h in enumerate(base["test"]["hosts"])])
    b2, got, _ = inspect(alt)
    name = "host%d" % which
    for who in sorted({w for w, _ in ref} | {w for w, _ in got}):
        a1, a2 = [m for w, m in ref if w == who], [m for w, m in got if w == who]
        expect(a1 == a2, "the guest can tell %s's values from their %s transformation (%s's message %d differs)", name, case["t"], who,
               next((i for i, (x, z) in enumerate(zip(a1, a2)) if x != z), min(len(a1), len(a2))))
    expect(repr(fed.summary(b)["trees"]) == repr(fed.summary(b2)["trees"]), "the guest's model depends on the magnitude of %s's values", name)
    return b2, got, n_ct


VALS = (-3.25, 0.0, 1.5, 104.5)


def tasks(tier):
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of) for i in range(of))
    add(b="grid", of=8)
    add(b="two", of=4, all=tier != "quick")
    add(b="bins", of=3 if tier == "quick" else 8, all=tier != "quick")
    add(b="transform", of=4, all=tier != "quick")
    add(b="scale", of=8, all=tier != "quick")
    return out


def cases(block):
    b = block["b"]
    guest = [[0.5], [1.25], [1.25], [0.5]]
    test = dict(guest=[[0.75], [2.0], [0.5], [0.5]], hosts=[[[0.75], [-1.0], [50.0], [200.5]]])
    if b == "grid":
        for col in itertools.product(VALS, repeat=4):
            for y in (["a", "b", "b", "a"], ["a", "a", "b", "b"], ["a", "b", "a", "a"]):
                yield dict(kind="inspect", guest=guest, hosts=[[[v] for v in col]], y=y, test=test)
            # guest without information
            yield dict(kind="inspect", guest=[[1.0]] * 4, hosts=[[[v] for v in col]], y=["a", "b", "b", "a"], test=test, depth=4, batch=1)
    elif b == "two":
        for k, y in enumerate(itertools.product("ab", repeat=5)):
            for t in sorted(c06.T):
                for w in (0, 1):
                    if block["all"] or (k + w) % 2 == 0:
                        yield dict(kind="monotone", t=t, which=w, base=dict(c06.TWO, y=list(y)))
        # one feature of several transformed alone; node queues in batches of one and two
        G = [[0.5]] * 6
        H = [[1.5, 3.0], [1.5, 6.5], [-2.5, 3.0], [0.0, -1.5], [4.5, 6.5], [-2.5, 0.0]]
        for k, y in enumerate(itertools.product((0.5, 2.0), repeat=6)):
            ts = sorted(c06.T)
            for t in ts if block["all"] else (ts[k % len(ts)], ts[(k + 2) % len(ts)]):
                for feat in (0, 1):
                    yield dict(kind="monotone", t=t, feat=feat, base=dict(
                        guest=G, hosts=[H], loss="lse", y=[v * (i + 1) for i, v in enumerate(y)], depth=4, batch=1 + k % 2, rounds=1))
    elif b == "bins":
        # a host with 12 distinct values per column: bin numbers beyond every node and feature number
        G = [[(i // 6) + 0.5] for i in range(12)]
        H = [[i + 0.25, (7 * i % 12) - 5.75] for i in range(12)]
        for y in itertools.product("ab", repeat=11):
            if len(set(y)) == 2 and (block["all"] or sum(a != c for a, c in zip(y, y[1:])) <= 2):
                yield dict(kind="inspect", guest=G, hosts=[H], y=[y[0]] + list(y), depth=2, rounds=1, bin_num=12)
    elif b == "scale":
        ts = sorted(c06.T)
        for k, sz in enumerate(scale.sizes(block["all"])):
            if sz.get("n", 0) > 60 and len(sz) > 1:
                continue
            yield dict(kind="inspect", scale=sz)
            if len(sz) < 2 or block["all"]:
                nh = sz.get("hosts", 2)
                for w in range(nh) if "hosts" in sz or block["all"] else (k % nh,):
                    yield dict(kind="monotone", t=ts[(k + w) % len(ts)], which=w, base=dict(scale=sz))
    elif b == "transform":
        for i, col in enumerate(itertools.product(VALS, repeat=4)):
            for j, t in enumerate(sorted(c06.T)):
                if block["all"] or (i + j) % 3 == 0:
                    yield dict(kind="monotone", t=t, base=dict(guest=guest, hosts=[[[v] for v in col]], y=["a", "b", "b", "a"], test=test))


RUN = dict(inspect=inspect, monotone=monotone)


def run_case(case):
    return RUN[case["kind"]](case)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run_case(case), steps=0)
        if r is not None:
            b, shapes, n_ct = r
            ctx.step(b.sim.steps)
            ctx.state((block["b"], core.jsonable(case)))
            ctx.outcome(shapes)
