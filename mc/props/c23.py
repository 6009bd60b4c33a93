"""C23 - feature subsampling: every tree sees its own sample of the features, and only that."""
import contextlib
import itertools
import math
import random

import numpy as np

from mc import core, fed, scale
from mc.core import expect
from mc.props import c14, c25
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
from xgboost.hetero_decision_tree_guest import HeteroDecisionTreeGuest as AloneTree

META = dict(
    title="Each tree is the best one over its own sample of each party's features",
    statement="For every tree of every round and class, guest and hosts (and the standalone trainer, among all its columns) each draw their own sample of their own features: the configured share of them rounded down, at least one if it has any, without repetition, and every subset of that size can be drawn. The tree splits only on sampled features and is the greedy optimum among them, whatever was drawn by whom; at a share of 1 every feature takes part in every tree.",
    quantifier=dict(over=["inputs", "configurations", "schedules"], text="all outcomes of all draws of a training over several data sets, one to four features per party, one and two hosts and the standalone trainer, shares from below one feature to all, binary, multi-class and regression; share/size arithmetic for up to 12 features; large trainings (sizes enumerated) with fixed draws"),
    why_tests_cant="Subsampling is random: a test sees one draw. Masks enter at three places (histogram, guest search, host search), and a missing one is harmless unless the best feature is masked in just that party and tree.",
    anchors=dict(files=["ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/splitter.py", "ml/tree/feateur_histogram.py", "xgboost/hetero_secureboosting_tree_guest.py", "xgboost/hetero_decision_tree_guest.py"],
                 state=[dict(name="valid_features", meaning="feature mask of a tree", where="HeteroDecisionTree*")],
                 mechanism=[dict(name="draw", where="sample_valid_features of both boosters"), dict(name="use", where="Splitter, FeatureHistogram")],
                 observe_at=["masks handed to the trees", "exported trees"], hook_needed=None),
    level="model_checking",
    technique="exhaustive exploration of all random draws of real federated trainings (numpy's choice is answered by the explorer), each judged node by node",
    level_note="All draws where the tree of draws is small, up to two deviating draws otherwise. The draws are controlled at numpy.random.choice; code that draws by other means is judged on 300 seeded runs instead of all draws.",
    bounds=dict(quick=dict(features=3, hosts=2, trees=3), thorough=dict(features=4, hosts=2, trees=3)),
    rule="a case is (data, share, draws); states are distinct cases; outcomes are distinct (masks, trees)",
    assumptions=["feature counts stay the same over a training"],
)


class Hashed(core.Chooser):
    """Draws as a fixed function of their position."""

    def __init__(self, salt):
        super().__init__()
        self.salt = salt

    def __call__(self, n, cost=1):
        c = scale.h("draw", self.salt, len(self.trace)) % n
        self.trace.append((c, n, cost))
        return c


def pick(pool, k, i, replace):
    """The i-th sequence (replace) or combination of k of the pool, in lexicographic order."""
    n, out = len(pool), []
    if replace:
        for j in range(k):
            c, i = divmod(i, n ** (k - 1 - j))
            out.append(pool[c])
        return tuple(out)
    for j, x in enumerate(pool):
        if len(out) == k:
            break
        c = math.comb(n - j - 1, k - len(out) - 1)
        if i < c:
            out.append(x)
        else:
            i -= c
    return tuple(out)


class Draws:
    def __init__(self, answers=(), salt=None, window=None, own=False):
        self.window, self.own = window, own
        self.ch = core.Chooser(answers) if salt is None else Hashed(salt)
        self.calls = 0
        self.masks = {"g": [], "h": {}}
        self.boxes = []

    @contextlib.contextmanager
    def on(self):
        saved = np.random.choice
        gs, hs, als = HeteroDecisionTreeGuest.set_valid_features, HeteroDecisionTreeHost.set_valid_features, AloneTree.set_valid_features
        this = self

        def choice(a, size=None, replace=True, p=None):
            pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
            k = 1 if size is None else int(size)
            if not replace and k > len(pool):
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            if this.own:
                return saved(a, size=size, replace=replace, p=p)
            this.calls += 1
            n = len(pool)
            if this.window is not None and not replace:
                at = min(this.window * k, n - k)
                return np.array(pool[at:at + k]) if size is not None else pool[at]
            got = pick(pool, k, this.ch(n ** k if replace else math.comb(n, k)), replace)
            return got[0] if size is None else np.array(got)

        def set_guest(tree, valid=None):
            this.masks["g"].append(valid)
            return gs(tree, valid)

        def set_alone(tree, valid=None):
            this.masks["g"].append(valid)
            return als(tree, valid)

        def set_host(tree, valid=None):
            this.boxes.append((tree, valid))
            return hs(tree, valid)
        np.random.choice = choice
        HeteroDecisionTreeGuest.set_valid_features, HeteroDecisionTreeHost.set_valid_features = set_guest, set_host
        AloneTree.set_valid_features = set_alone
        try:
            yield
        finally:
            np.random.choice = saved
            HeteroDecisionTreeGuest.set_valid_features, HeteroDecisionTreeHost.set_valid_features = gs, hs
            AloneTree.set_valid_features = als


def sizes(rate, n):
    return {max(1, math.floor(rate * n + e)) for e in (1e-9, -1e-9)}


def run(case, answers=None):
    d = Draws(case.get("draws", ()) if answers is None else answers, case.get("salt"), case.get("window"), case.get("own", False))
    case = scale.fill(case)
    if case.get("alone"):        # all the columns with one party
        case = dict({k: v for k, v in case.items() if k != "scale"}, guest=[sum(rs, []) for rs in zip(case["guest"], *case["hosts"])], hosts=[])
    trees = {}

    def masks(t):
        if not trees:
            hosts = {}
            for tree, valid in d.boxes:
                hosts.setdefault(tree.runtime_idx, []).append(valid)
            trees["all"] = [d.masks["g"]] + [hosts.get(i, []) for i in range(len(case["hosts"]))]
        out = []
        for who, (ms, rows) in enumerate(zip(trees["all"], [case["guest"]] + case["hosts"])):
            expect(len(ms) > t, "party %d set features for %d trees only", who, len(ms))
            m, n = ms[t], len(rows[0])
            expect(len(m) == n and all(v in (True, False) for v in m), "party %d, tree %d: the mask of %d features is %r", who, t, n, m)
            expect(sum(map(bool, m)) in sizes(case["p"]["rate"], n), "party %d, tree %d: %d of %d features are drawn at a share of %r", who, t, sum(map(bool, m)), n, case["p"]["rate"])
            out.append([bool(v) for v in m])
        return out
    b, losses = c14.judge(case, around=d.on(), masks=masks, build=c25.Alone if case.get("alone") else None)
    nt = len(b.models["g"].trees_)
    allm = [masks(t) for t in range(nt)]
    for who, ms in enumerate(trees["all"]):
        expect(len(ms) == nt, "party %d drew %d times for %d trees", who, len(ms), nt)
    return d, b, allm


DATA = {
    # columns of different strength; the strongest sits in different parties
    "g3": dict(guest=[[0.0, 1.0, 5.0], [1.0, 1.0, 0.0], [2.0, -1.0, 5.0], [3.0, 2.0, 0.0], [4.0, 2.0, 1.0]], hosts=[[[1.0], [0.0], [0.0], [1.0], [2.0]]]),
    "h3": dict(guest=[[1.0], [0.0], [0.0], [1.0], [2.0]], hosts=[[[0.0, 1.0, 5.0], [1.0, 1.0, 0.0], [2.0, -1.0, 5.0], [3.0, 2.0, 0.0], [4.0, 2.0, 1.0]]]),
    "gh2": dict(guest=[[0.0, 1.0], [1.0, 1.0], [2.0, -1.0], [3.0, 2.0], [4.0, 2.0]], hosts=[[[5.0, 0.0], [0.0, 1.0], [5.0, 1.0], [0.0, 2.0], [1.0, 2.0]]]),
    "ghh2": dict(guest=[[0.0, 1.0], [1.0, 1.0], [2.0, -1.0], [3.0, 2.0], [4.0, 2.0]], hosts=[[[5.0, 0.0], [0.0, 1.0], [5.0, 1.0], [0.0, 2.0], [1.0, 2.0]], [[1.0, 1.0], [-1.0, 0.0], [0.0, 1.0], [2.0, 0.0], [2.0, 3.0]]]),
    "g4": dict(guest=[[0.0, 1.0, 5.0, 1.0], [1.0, 1.0, 0.0, 0.0], [2.0, -1.0, 5.0, 0.0], [3.0, 2.0, 0.0, 1.0], [4.0, 2.0, 1.0, 9.0]], hosts=[[[0.0], [0.0], [1.0], [1.0], [1.0]]]),
    "sparse": dict(guest=[[0.0, 0.0, 5.0], [0.0, 1.0, 0.0], [2.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 0.0]], hosts=[[[0.0, 3.0], [0.0, 0.0], [-1.0, 0.0], [0.0, 3.0], [0.0, 0.0]]]),
}
LAB = {"bin": (["a", "b", "b", "a", "b"], "cross_entropy"), "multi": (["a", "b", "c", "a", "b"], "cross_entropy"), "reg": ([0.0, 1.0, 5.0, 2.0, -1.0], "lse")}


def tasks(tier):
    big = tier != "quick"
    out = []
    for data in DATA:
        for lab in LAB:
            for rate in (0.1, 0.34, 0.5, 0.67, 0.99, 1.0):
                out.append(dict(b="draws", data=data, lab=lab, rate=rate, trees=2 if lab != "multi" else 1, bound=None if big else 3))
                if lab != "bin" or data in ("g3", "gh2"):
                    out.append(dict(out[-1], alone=True, bound=2))
    out.append(dict(b="sizes"))
    out.extend(dict(b="scale", part=i, of=8, big=big) for i in range(8))
    reach = [dict(reach=3, rate=0.34), dict(reach=3, rate=0.67), dict(reach=2, rate=0.5, lab="multi", rounds=1), dict(reach=2, rate=0.5, rounds=3),
             dict(reach=2, rate=0.5, hosts=2), dict(reach=2, rate=0.5, lab="bin", rounds=2, hosts=2)]
    if big:
        reach += [dict(reach=3, rate=0.34, lab="multi", rounds=1), dict(reach=4, rate=0.5), dict(reach=2, rate=0.5, rounds=2, hosts=3)]
    out.extend(dict(b="reach", cases=[c]) for c in reach)
    reach = [dict(c, alone=True, hosts=0) for c in reach if "hosts" not in c]
    out.extend(dict(b="reach", cases=[c]) for c in reach)
    out.extend(dict(b="reach", cases=[dict(seeded=120, n=n, rate=rate, alone=True)]) for n, rate in ((4, 0.5), (3, 0.34), (5, 0.2)))
    out.extend(dict(b="reach", cases=[dict(seeded=s, n=n, rate=rate, late=k)]) for s, n, rate, k in ((0, 8, 0.5, 60), (1, 20, 0.25, 40), (2, 12, 0.9, 50)))
    out.extend(dict(b="reach", cases=[dict(seeded=120, n=n, rate=rate)]) for n, rate in ((4, 0.5), (3, 0.34), (3, 0.67), (5, 0.2)))
    return out


def base(block):
    y, loss = LAB[block["lab"]]
    return dict({"alone": True} if block.get("alone") else {}, **DATA[block["data"]], y=y, loss=loss, conf="deep", p=dict(rate=block["rate"], num_trees=block["trees"], tol=0.0))


def explore(ctx, block):
    if block["b"] == "draws":
        stack = [()]
        seen = set()
        case0 = base(block)
        n = 0
        while stack:
            prefix = stack.pop()
            case = dict(case0, draws=list(prefix))
            r = ctx.case(case, lambda: run(case), steps=0)
            n += 1
            if r is None:
                return
            d, b, allm = r
            ctx.step(b.sim.steps)
            ctx.state((block["data"], block["lab"], block["rate"], block.get("alone"), [c for c, _, _ in d.ch.trace]))
            ctx.outcome((block["data"], block["lab"], allm, fed.summary(b)["trees"]))
            cost = 0
            done = []
            for i, (c, k, w) in enumerate(d.ch.trace):
                if i >= len(prefix):
                    for alt in range(1, k):
                        if block["bound"] is None or cost + 1 <= block["bound"]:
                            stack.append(tuple(done) + (alt,))
                cost += 1 if c else 0
                done.append(c)
            if n >= 4000:
                raise core.HarnessError("too many draws in %r" % (block,))
    elif block["b"] == "scale":
        k = 0
        for sz in scale.sizes(block["big"]):
            for nf in {sz.get("nf", 3), sz.get("nf", 5)}:
                for rate in (0.4, 0.8) if len(sz) < 2 or block["big"] else (0.6,):
                    k += 1
                    if k % block["of"] != block["part"]:
                        continue
                    s = dict(sz, nf=nf)
                    case = dict(scale=s, p=dict(rate=rate, num_trees=s.get("rounds", scale.BASE["rounds"]), tol=0.0), salt=k % 5)
                    for case in (case, dict(case, alone=True)):
                        r = ctx.case(case, lambda: run(case), steps=0)
                        if r is not None:
                            ctx.step(r[1].sim.steps)
                            ctx.state(core.jsonable(case))
                            ctx.outcome((r[2], fed.summary(r[1])["trees"]))
    elif block["b"] == "sizes":
        for case in size_cases():
            for case in (case, dict(case, alone=True)):
                r = ctx.case(case, lambda: run_sizes(case))
                if r is not None:
                    ctx.state(core.jsonable(case))
                    ctx.outcome(r)
    else:
        for case in block["cases"]:
            r = ctx.case(case, lambda: run_case(case), steps=0)
            if r is not None:
                ctx.state(core.jsonable(case))
                ctx.outcome(r)


def size_cases():
    for n in range(1, 13):
        for rate in (0.01, 0.1, 0.25, 0.3, 1 / 3, 0.5, 0.6, 0.7, 0.75, 0.9, 0.99, 1.0):
            yield dict(sizes=n, rate=rate)
    for n in (20, 33, 64, 100, 101, 257):
        for rate in (0.005, 0.01, 0.02, 0.03, 0.05, 0.07, 0.09, 0.11, 0.29, 0.57, 0.58, 0.83, 0.997):
            yield dict(sizes=n, rate=rate)
    for n in (1, 2, 3, 5, 12, 40, 140, 270):
        for rate in (0.1, 0.5, 0.8):
            yield dict(sizes=n, rate=rate, all=True)


def run_sizes(case):
    """Sample sizes of a training with one stump, for guest and host."""
    n = case["sizes"]
    rows = [[float((i * (f + 2)) % 3) for f in range(n)] for i in range(3)]
    c = dict(guest=rows, hosts=[rows], y=[0.0, 1.0, 3.0], loss="lse", conf="two", p=dict(rate=case["rate"], num_trees=1, tol=0.0))
    if case.get("alone"):
        c.update(alone=True, hosts=[])
    if "all" in case:
        return run_all(case, c)
    d, b, allm = run(c, answers=())
    return allm


def run_all(case, c):
    """Every feature of every party is drawn by some draw."""
    n = case["sizes"]
    k = max(1, int(case["rate"] * n))
    seen = [set()] if case.get("alone") else [set(), set()]
    for w in range(-(-n // k)):
        d, b, allm = run(dict(c, window=w))
        if not d.calls and c["p"]["rate"] < 0.5:
            return "drawn by other means"
        for who, m in enumerate(allm[0]):
            seen[who] |= {i for i, v in enumerate(m) if v}
    if not d.calls:
        for s in range(60):
            np.random.seed(s)
            for who, m in enumerate(run(c)[2][0]):
                seen[who] |= {i for i, v in enumerate(m) if v}
    for who in range(len(seen)):
        expect(len(seen[who]) == n, "party %d never draws the features %r of %d", who, sorted(set(range(n)) - seen[who])[:10], n)
    return n


def run_reach(case):
    """Every combination of draws of all parties and trees is possible."""
    n = case["reach"]
    rows = [[float((i * (f + 2)) % 3) for f in range(n)] for i in range(3)]
    lab = case.get("lab", "reg")
    y = {"reg": [0.0, 1.0, 3.0], "multi": ["a", "b", "c"], "bin": [0, 1, 1]}[lab]
    hosts = [rows] * case.get("hosts", 1)
    c = dict({"alone": True} if case.get("alone") else {}, guest=rows, hosts=hosts, y=y, loss=LAB[lab][1], conf="two", p=dict(rate=case["rate"], num_trees=case.get("rounds", 2), tol=0.0))
    k = max(1, int(case["rate"] * n))
    subsets = list(itertools.combinations(range(n), k))
    seen = set()
    controlled = False
    stack = [()]
    while stack:
        prefix = stack.pop()
        d, b, allm = run(c, answers=prefix)
        controlled = controlled or d.calls > 0
        seen.add(tuple(tuple(tuple(i for i, v in enumerate(m) if v) for m in ms) for ms in allm))
        done = []
        for i, (ch, kk, w) in enumerate(d.ch.trace):
            if i >= len(prefix):
                for alt in range(1, kk):
                    stack.append(tuple(done) + (alt,))
            done.append(ch)
    if not controlled:
        for s in range(300):
            np.random.seed(s)
            seen.add(tuple(tuple(tuple(i for i, v in enumerate(m) if v) for m in ms) for ms in run(c, answers=())[2]))
    shape = [(t, who) for t, ms in enumerate(next(iter(seen))) for who in range(len(ms))]
    for x, y in itertools.combinations(shape, 2):
        got = {(m[x[0]][x[1]], m[y[0]][y[1]]) for m in seen}
        expect(got == set(itertools.product(subsets, subsets)), "tree %d of party %d and tree %d of party %d: only %d of %d combinations of samples are possible",
               x[0], x[1], y[0], y[1], len(got), len(subsets) ** 2)
    if controlled:
        expect(len(seen) == len(subsets) ** len(shape), "%d of %d combinations of all samples are possible", len(seen), len(subsets) ** len(shape))
    return len(seen)


def run_seeded(case):
    """With the library's own generator in every one of a row of states, each tree of each party gets every sample."""
    n = case["n"]
    rows = [[float((i * (f + 2)) % 3) for f in range(n)] for i in range(3)]
    c = dict(guest=rows, hosts=[rows], y=[0.0, 1.0, 3.0], loss="lse", conf="two", p=dict(rate=case["rate"], num_trees=2, tol=0.0))
    subsets = set(itertools.combinations(range(n), max(1, int(case["rate"] * n))))
    if case.get("alone"):
        # the standalone trainer fixes the generator's state itself: one long training instead of many
        allm = run(dict(c, alone=True, hosts=[], own=True, p=dict(c["p"], num_trees=case["seeded"], n_iter_no_change=False)))[2]
        got = {tuple(i for i, v in enumerate(ms[0]) if v) for ms in allm}
        expect(got == subsets, "the trees of a long training draw only %r", sorted(got))
        return len(got)
    if case.get("late"):
        # one long training: its late trees are sampled as freshly as the early ones
        np.random.seed(case["seeded"])
        random.seed(case["seeded"])
        allm = run(dict(c, own=True, p=dict(c["p"], num_trees=case["late"], n_iter_no_change=False)))[2]
        for who in (0, 1):
            seq = [tuple(i for i, v in enumerate(ms[who]) if v) for ms in allm]
            expect(len(seq) == case["late"], "%d trees of party %d", len(seq), who)
            for a in range(0, len(seq) - 19, 10):
                part = set(seq[a:a + 20])
                expect(len(part) > min(len(subsets), 20) // 2, "trees %d to %d of party %d draw only %r", a, a + 19, who, sorted(part))
            for d in range(1, len(seq) // 2):
                expect(any(x != y for x, y in zip(seq[-d - 20:], seq[-2 * d - 20:])) or len(seq) < 2 * d + 20, "the draws of party %d repeat after %d trees", who, d)
        expect(any(ms[0] != ms[1] for ms in allm), "the parties draw the same samples")
        return len(allm)
    seen, pairs = {}, {}
    for s in range(case["seeded"]):
        np.random.seed(s)
        random.seed(s)
        allm = run(dict(c, own=True))[2]
        for t, ms in enumerate(allm):
            for who, m in enumerate(ms):
                seen.setdefault((t, who), set()).add(tuple(i for i, v in enumerate(m) if v))
        for who in (0, 1):
            pairs.setdefault(who, set()).add(tuple(tuple(ms[who]) for ms in allm))
        pairs.setdefault("both", set()).add(tuple(map(tuple, allm[0])))
    for (t, who), got in sorted(seen.items()):
        expect(got == subsets, "tree %d of party %d draws only %r in %d runs", t, who, sorted(got), case["seeded"])
    for k, got in pairs.items():
        expect(len(got) > len(subsets), "the draws of %r are tied to each other: %d combinations in %d runs", k, len(got), case["seeded"])
    return len(subsets)


def run_case(case):
    if "seeded" in case:
        return run_seeded(case)
    if "sizes" in case:
        return run_sizes(case)
    if "reach" in case:
        return run_reach(case)
    return run(case)
