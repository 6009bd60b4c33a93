"""C14 - boosting: every round fits the loss at the current scores, and training stops when it should."""
import contextlib
import itertools

from mc import fed, ref, scale
from mc.core import expect, close
from mc.props import c05

META = dict(
    title="Every boosting round fits the current gradients; rounds end exactly on rule",
    statement="In round r every tree is the greedy optimum, over the binned features of all parties, for the gradients and hessians of the objective at the scores after round r-1 (for multi-class models, one tree per class, all from the scores before the round), and the scores move by learning rate times its leaf weights. The recorded loss after each round is the mean objective at the new scores. Training runs for the configured number of rounds, or, when early stopping is on, ends right after the first round whose loss differs from the previous round's by less than the tolerance; guest and hosts hold the same number of trees.",
    quantifier=dict(over=["inputs", "configurations", "histories"], text="all small data sets over value grids and labels, all objectives, 2 and 3 classes, tolerances placed below, between and above the actual loss differences, 1-4 rounds, early stopping on and off, several learning rates, 1-2 hosts, every way of laying the rows in up to 3 table partitions, and every dimension (rows to 130, hosts to 6, features to 11, bins to 70, depth to 7, rounds to 11, classes to 11, node batches) swept one and two at a time on fixed data"),
    why_tests_cant="No test trains a model. A wrong gradient, a stale score, a class fitted from half-updated scores or an off-by-one in the stop rule still produces a model that predicts something plausible.",
    anchors=dict(files=["ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "ml/optim/convergence.py", "ml/loss/cross_entropy.py", "ml/loss/regression_loss.py"],
                 state=[dict(name="F, history_loss, trees_", meaning="scores, losses and trees of a training", where="HeteroSecureBoostingTreeGuest")],
                 mechanism=[dict(name="gradients per round and class", where="compute_grad_and_hess, get_grad_and_hess"),
                            dict(name="score update", where="accumulate_f, update_f_value"),
                            dict(name="loss and stop rule", where="compute_loss, check_convergence, DiffConverge, sync_stop_flag")],
                 observe_at=["exported trees", "history_loss", "final scores"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive real federated trainings replayed round by round against a reference boosting judge",
    level_note="Exhaustive over the stated grids, default schedule, identity encryption but for one block (256-bit Paillier in every mode). The bins come from the parties' own split points (C09/C10 judge those); Tweedie is left to C13. Trusts the formulas and the node judge in mc/ref.py (tie tolerance 2.5e-6).",
    bounds=dict(quick=dict(rows=5, hosts=2, rounds=4), thorough=dict(rows=5, hosts=2, rounds=5)),
    rule="a case is (rows, labels, parameters); states are distinct (data, exported trees); outcomes are distinct loss histories",
    assumptions=["binary labels get class numbers in sorted order", "losses are finite"],
)

TREE = dict(max_depth=2)
CONF = {
    "two": dict(p=dict(num_trees=2, tol=0.0), tree=TREE),
    "lr1": dict(p=dict(num_trees=2, lr=1.0, tol=0.0), tree=TREE),
    "deep": dict(p=dict(num_trees=2, lr=0.5, tol=0.0), tree=dict(max_depth=3, lam=1.0, min_leaf_node=1)),
    "leaf2": dict(p=dict(num_trees=2, lr=0.5, tol=0.0), tree=dict(max_depth=3, min_leaf_node=2, max_split_nodes=1)),
}


def bins(values, thresholds):
    """bin = number of split points below the value."""
    out = []
    for r in values:
        row = []
        for f, v in enumerate(r):
            row.append(sum(1 for x in thresholds[f] if x < v - 1e-12))
        out.append(row)
    return out


def conf_of(case):
    return case["conf"] if isinstance(case["conf"], dict) else CONF[case["conf"]]


def judge(case, around=None, masks=None, tree_kw=None, build=None, ties=None):
    """around: context manager for the run; masks: tree number -> allowed features per party;
    build: what to run instead of a federation; ties: list collecting choices that had an equal."""
    case = scale.fill(case)
    conf = conf_of(case)
    kw = dict(conf["p"], **case.get("p", {}))
    loss = case.get("loss", "cross_entropy")
    params = c05.LOSSES.get(loss)
    if loss != "cross_entropy":
        kw.update(task="regression", objective=loss, params=params)
    tp = dict(conf["tree"])
    p = fed.boost_param(tree=fed.tree_param(**tp, **(tree_kw or {})), **kw)
    n = len(case["y"])
    ids = list(range(n))
    more = {}
    if "parts" in case:
        more["parts"] = dict(zip(ids, case["parts"]))
    b = (build or fed.Boost)(ids, case["guest"], case["y"], case["hosts"], p, **more)
    with fed.small_keys(256) if case.get("keys") else fed.FakeKeys.on(), around or contextlib.nullcontext():
        b.run()
    g = b.models["g"]
    if loss == "cross_entropy":
        classes = sorted(set(case["y"]))
        y = [classes.index(v) for v in case["y"]]
        dim = 1 if len(classes) <= 2 else len(classes)
        nc = len(classes)
    else:
        y, dim, nc = list(case["y"]), 1, 0
    lossf, gradf, hessf = ref.objective(loss, params, nc)

    F = [list(map(float, g.init_score)) for _ in ids]
    expect(all(len(f) == dim for f in F), "scores have %d dimensions, expected %d", len(F[0]), dim)
    nt = len(g.trees_)
    expect(nt % dim == 0 and nt > 0, "%d trees for %d trees a round", nt, dim)
    rounds = nt // dim
    for i in range(b.nhosts):
        expect(len(b.models[i].trees_) == nt, "host %d has %d trees, the guest has %d", i, len(b.models[i].trees_), nt)
    expect(len(g.history_loss) == rounds, "%d losses recorded in %d rounds", len(g.history_loss), rounds)

    parties = []
    for rows, m in [(case["guest"], g)] + [(case["hosts"][i], b.models[i]) for i in range(b.nhosts)]:
        thr = [[float(x) for x in t] for t in m.bin_split_points]
        parties.append(fed.Party(bins(rows, thr), [len(t) + 1 for t in thr], thresholds=thr))
    conf_ = dict(max_depth=tp.get("max_depth", 2), min_sample=tp.get("min_sample_split", 2), min_leaf=tp.get("min_leaf_node", 1),
                 min_impurity=tp.get("min_impurity_split", 1e-3), lam=tp.get("lam", 0.1))
    losses = []
    b.splits = []
    for r in range(rounds):
        G = [gradf(y[i], F[i]) for i in ids]
        H = [hessf(y[i], F[i]) for i in ids]
        for k in range(dim):
            t = r * dim + k
            tv = fed.TreeView((None, g.trees_[t]), [(None, b.models[j].trees_[t]) for j in range(b.nhosts)])
            if masks is not None:
                for party, m in zip(parties, masks(t)):
                    party.valid = list(m)
            try:
                leaf_of, tree_splits = ref.check_tree(tv, parties, [(G[i][k], H[i][k]) for i in ids], conf_, ties=ties)
            except Exception as e:
                e.args = ("round %d class %d: %s" % (r, k, e),)
                raise
            for i in ids:
                F[i][k] += p.learning_rate * tv.nodes[leaf_of[i]].weight
            b.splits.append(tree_splits)
        losses.append(sum(lossf(y[i], F[i]) for i in ids) / n)
        expect(close(g.history_loss[r], losses[r], 1e-6, 1e-8), "the loss after round %d is recorded as %r, at the scores it is %r", r, g.history_loss[r], losses[r])
    for i in ids:
        expect(all(close(a, c, 1e-6, 1e-8) for a, c in zip(b.out["train_F"][i], F[i])), "row %d ends training with score %r, its leaves give %r", i, b.out["train_F"][i].tolist(), F[i])

    # the stop rule
    lim = p.num_trees
    if p.n_iter_no_change:
        for r in range(1, rounds):
            d = abs(losses[r] - losses[r - 1])
            if d < p.tol - 1e-9:
                expect(rounds == r + 1, "round %d changed the loss by %.9g < %.9g, training went on to %d rounds", r, d, p.tol, rounds)
        if rounds < lim:
            expect(rounds >= 2, "training stopped after %d of %d rounds without two losses to compare", rounds, lim)
            d = abs(losses[-1] - losses[-2])
            expect(d < p.tol + 1e-9, "training stopped after %d of %d rounds although the loss still changed by %.9g >= %.9g", rounds, lim, d, p.tol)
    else:
        expect(rounds == lim, "training ran %d rounds, %d were asked for", rounds, lim)
    expect(rounds <= lim, "training ran %d rounds, %d were asked for", rounds, lim)
    return b, losses


V = (-1.0, 0.0, 2.0)


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of) for i in range(of))
    for loss in ["cross_entropy"] + sorted(c05.LOSSES):
        for conf in ("two", "deep") if not big else CONF:
            add(b="grid", loss=loss, conf=conf, n=4 if big else 3, of=8 if big else 1)
    add(b="labels", conf="lr1", of=4)
    add(b="labels", conf="leaf2", of=4)
    add(b="multi", conf="two", n=4 if big else 3, of=4)
    add(b="multi", conf="lr1", n=3, of=2)
    add(b="stop", of=8)
    add(b="two_hosts", conf="deep", of=3)
    add(b="scale", of=16, big=big)
    add(b="keys", of=8, big=big)
    add(b="floor", of=4)
    add(b="sizes", of=4)
    add(b="parts", conf="deep", n=5 if big else 4, of=4)
    return out


def cases(block):
    b, conf = block["b"], block.get("conf")
    if b == "grid":
        g = list(itertools.product(V, V, (0, 1)))
        for rows in itertools.combinations_with_replacement(g, block["n"]):
            y = [r[2] for r in rows] if block["loss"] == "cross_entropy" else [float(r[2] * (1 + i) - 0.5 * i) for i, r in enumerate(rows)]
            if block["loss"] == "cross_entropy" and len(set(y)) < 2:
                continue
            yield dict(conf=conf, loss=block["loss"], guest=[[r[0]] for r in rows], hosts=[[[r[1]] for r in rows]], y=y)
    elif b == "labels":
        G = [[-1.0], [0.0], [0.0], [2.0], [2.0]]
        H = [[[0.0], [2.0], [-1.0], [-1.0], [2.0]]]
        for y in itertools.product("ab", repeat=5):
            if len(set(y)) > 1:
                yield dict(conf=conf, guest=G, hosts=H, y=list(y))
        for loss in sorted(c05.LOSSES):
            for y in itertools.product((0.0, 1.0, -2.0), repeat=5 if conf == "lr1" and loss == "lse" else 4):
                y = list(y) + [1.5] * (5 - len(y))
                yield dict(conf=conf, loss=loss, guest=G, hosts=H, y=y)
    elif b == "multi":
        g = list(itertools.product((0.0, 2.0), (-1.0, 0.0), "xyz"))
        for rows in itertools.combinations_with_replacement(g, block["n"]):
            if len({r[2] for r in rows}) == 3:
                yield dict(conf=conf, guest=[[r[0]] for r in rows], hosts=[[[r[1]] for r in rows]], y=[r[2] for r in rows])
    elif b == "stop":
        base = dict(conf="lr1", guest=[[0.0], [1.0], [2.0], [1.0]], hosts=[[[2.0], [1.0], [3.0], [5.0]]])
        for nt in (1, 2, 3, 4):
            for lr in (0.1, 0.3, 1.0, -0.4):
                for tol in (0.0, 1e-9, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.3, 1, 10.0):
                    for early in (True, False):
                        pp = dict(num_trees=nt, lr=lr, tol=tol, n_iter_no_change=early)
                        if not early and tol not in (0.0, 10.0):
                            continue
                        yield dict(base, y=["a", "b", "b", "a"], p=pp)
                        yield dict(base, y=["a", "b", "c", "a"], p=pp)
                        for loss in ("lse", "huber", "lae"):
                            yield dict(base, loss=loss, y=[1.0, 2.0, 4.0, 2.5], p=pp)
        # losses that rise and fall
        for nt in (4, 6):
            for lr in (1.7, 3.0, 4.0, 6.0):
                for tol in (1e-4, 0.01, 0.1, 0.5):
                    pp = dict(num_trees=nt, lr=lr, tol=tol)
                    yield dict(base, y=["a", "b", "b", "a"], p=pp)
                    for loss in ("lae", "huber", "fair"):
                        yield dict(base, loss=loss, y=[1.0, 2.0, 4.0, 2.5], p=pp)
                        yield dict(base, loss=loss, y=[0.0, 3.0, 3.0, 0.0], p=pp)
    elif b == "two_hosts":
        for hv in itertools.product((0.0, 1.0, -2.0), repeat=4):
            yield dict(conf=conf, guest=[[1.0], [0.0], [1.0], [0.0]], hosts=[[[v, 1.0] for v in hv], [[0.0], [0.0], [1.0], [1.0]]], y=["a", "b", "b", "b"])
            yield dict(conf=conf, loss="lse", guest=[[1.0], [0.0], [1.0], [0.0]], hosts=[[[v, 1.0] for v in hv], [[0.0], [0.0], [1.0], [1.0]]], y=[1.0, 0.0, 2.5, 4.0])
    elif b == "keys":
        # the same with real ciphertexts, in every mode
        G, H = [[-1.0], [0.0], [0.0], [2.0], [2.0], [1.0]], [[[0.0], [2.0], [-1.0], [-1.0], [2.0], [1.0]], [[1.0, 0.0], [0.0, 0.0], [1.0, 3.0], [-2.0, 0.0], [0.0, 3.0], [0.0, 0.0]]]
        for mode, rate in (("strict", 1), ("fast", 1), ("balance", 0.5), ("balance", 1)):
            for tree in (dict(max_depth=3), dict(max_depth=4, max_split_nodes=1, lam=1.0), dict(max_depth=3, min_impurity_split=0.3, min_leaf_node=2)):
                c = dict(p=dict(num_trees=3, lr=0.7, tol=0.0, mode=mode, re_rate=rate), tree=tree)
                for y in ("abbaba", "aabbbb", "abcabb") + (("abbbab", "ababab", "cbacab") if block["big"] else ()):
                    for hosts in (H[:1], H):
                        yield dict(keys=True, conf=c, guest=G, hosts=hosts, y=list(y))
                for loss in sorted(c05.LOSSES):
                    for unit in (1.0, 1e-3, 1e4) if loss == "lse" else (1.0,):
                        for y in ([0.0, 1.0, 3.0, 2.0, 0.5, 1.0], [-2.0, 2.0, 0.25, -1.0, 0.0, 7.0]):
                            yield dict(keys=True, conf=c, loss=loss, guest=G, hosts=H[len(tree) % 2:], y=[unit * v for v in y])
    elif b == "floor":
        # the gain a split needs, from nothing to more than there is, on labels of every size
        G, H = [[-1.0], [0.0], [0.0], [2.0], [2.0], [1.0]], [[[0.0], [2.0], [-1.0], [-1.0], [2.0], [1.0]]]
        for low in (0.0, 1e-7, 1e-5, 1e-3, 0.01, 0.1, 0.5, 2.0):
            c = dict(p=dict(num_trees=2, lr=0.5, tol=0.0), tree=dict(max_depth=3, min_impurity_split=low))
            for unit in (0.01, 0.03, 0.1, 0.3, 1.0):
                for y in itertools.product((0.0, 1.0, 3.0), repeat=3):
                    yield dict(conf=c, loss="lse", guest=G, hosts=H, y=[unit * v for v in list(y) + [2.0, 0.5, 1.0]])
            for y in ("abbaba", "aabbbb", "ababab", "abcabb", "baccab"):
                yield dict(conf=c, guest=G, hosts=H, y=list(y))
    elif b == "sizes":
        # labels of any magnitude, around any level: the losses and derivatives are those of the scores, without overflow
        G, H = [[-1.0], [0.0], [0.0], [2.0], [2.0], [1.0]], [[[0.0], [2.0], [-1.0], [-1.0], [2.0], [1.0]]]
        for loss in sorted(c05.LOSSES):
            for rounds, early in ((3, False), (4, True)):
                c = dict(p=dict(num_trees=rounds, lr=0.5, tol=1e-4 if early else 0.0, n_iter_no_change=early), tree=dict(max_depth=3))
                for unit in (1e-4, 1.0, 1e4, 1e6):
                    for off in (0.0, 1.0, -1e6):
                        for y in itertools.product((0.0, 1.0, 3.0), repeat=2):
                            yield dict(conf=c, loss=loss, guest=G, hosts=H, y=[off + unit * v for v in list(y) + [2.0, 0.5, 1.0, 5.0]])
                            if y == (3.0, 0.0):          # under a real key, too
                                yield dict(keys=True, conf=c, loss=loss, guest=G, hosts=H, y=[off + unit * v for v in list(y) + [2.0, 0.5, 1.0, 5.0]])
    elif b == "scale":
        yield from scale.cases(block["big"])
    elif b == "parts":
        G, H = [[-1.0], [0.0], [0.0], [2.0], [2.0]], [[[0.0], [2.0], [-1.0], [-1.0], [2.0]]]
        n = block["n"]
        for parts in itertools.product(range(3), repeat=n):
            if max(parts) > len(set(parts)) - 1:
                continue        # partition numbers without gaps
            for loss, ys in (("cross_entropy", ("abbab", "abcab")), ("lse", ([1.0, 2.0, 4.0, 2.5, 0.0],)), ("lae", ([0.0, 3.0, 3.0, 1.0, 5.0],))):
                for y in ys:
                    yield dict(conf=conf, loss=loss, guest=G[:n], hosts=[H[0][:n]], y=list(y)[:n], parts=list(parts))


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: judge(case), steps=0)
        if r is not None:
            b, losses = r
            ctx.step(b.sim.steps)
            s = fed.summary(b)
            ctx.state((case["scale"] if "scale" in case else (case["guest"], case["hosts"], case["y"]), s["trees"]))
            ctx.outcome([round(x, 6) for x in losses])


def run_case(case):
    return judge(case)
