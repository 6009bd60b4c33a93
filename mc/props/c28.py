"""C28 - models of one process are independent: another training or prediction never changes a result.

Two whole federations (or a federation and a standalone training) live in one process and
are interleaved at every network operation: one is stopped after each of its operations in
turn, the other runs (to its end or for a number of operations), then the first goes on.
"""
import contextlib
import itertools


from mc import compat, core, fed, sim  # noqa: F401
from mc.core import expect
from computing.d_table import DTable
from mc.props import c03, c25

META = dict(
    title="Models in one process are independent: none changes what another yields",
    statement="Whatever else is trained or predicted in the same process before, between or after its own steps, with whatever data, classes, features, objective and settings, a training ends with the same trees, losses, scores and importances, and a trained model gives the same predictions, as when it runs alone: models, encryption keys, settings and statistics are kept per object. Repeating a training gives the same model again.",
    quantifier=dict(over=["schedules", "histories", "configurations"], text="ordered pairs of trainings with predictions that differ in data, classes, objective and every setting, one interrupted by the other after every single one of its network operations (the standalone variant: table operations), both interrupting each other at a grid of pairs of operations, and in turn every 1 to 11 operations; identity and real encryption; the standalone variant in place of one"),
    why_tests_cant="No test trains even one model. State kept by a class or a module instead of an object shows only when a second model exists, and only if it is touched between two steps of the first.",
    anchors=dict(files=["ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/boosting_tree.py", "ml/tree/splitter.py", "ml/tree/feature_histogram.py", "ml/secureprotol/encrypt_mode.py", "ml/secureprotol/encrypt.py", "ml/optim/convergence.py", "ml/loss/regression_loss.py", "xgboost/hetero_secureboosting_tree_guest.py", "federation/transfer_inst.py"],
                 state=[dict(name="attributes of boosters, trees, splitters, losses, calculators, connections", meaning="everything a training keeps", where="instances of the classes above")],
                 mechanism=[dict(name="per-object state", where="__init__ of every class"), dict(name="copied settings", where="ml.param")],
                 observe_at=["exported trees, losses, scores, predictions and importances of both trainings"], hook_needed=None),
    level="model_checking",
    technique="exhaustive enumeration of the interleavings of two real trainings with one switch at every network operation, and of bounded double switches, each compared with the runs alone",
    level_note="Exhaustive over the listed pairs and switch points (a standalone training is interrupted at its table operations). Within one training the default schedule is kept (C03 covers schedules).",
    bounds=dict(quick=dict(federations=2, switches=2), thorough=dict(federations=2, switches=2)),
    rule="a case is (two scenarios, switch points); states are distinct cases; outcomes are distinct results",
    assumptions=["rate of sampled features 1: sampling draws from the one random generator of the process"],
)

SCEN = {k: c03.SCEN[k] for k in ("bin1", "bin2", "hostonly", "multi", "stop", "nostop", "mini2")}
Y4 = [1.0, 2.0, 4.0, 3.5]
SCEN.update({
    "huber": dict(g=[[0], [1], [2], [1]], h=[[[2, 7], [1, 1], [3, 2], [5, 0]]], y=Y4,
                  p=dict(task="regression", objective="huber", params=[0.4], num_trees=3, lr=0.7, bin_num=3, tree=dict(max_depth=2, lam=0.5, importance="gain")), test=[0, 3]),
    "huber2": dict(g=[[3, 1, 4], [1, 5, 9], [2, 6, 5], [3, 5, 8], [9, 7, 9]], h=[[[2], [7], [1], [8], [2]]], y=Y4 + [-3.0],
                   p=dict(task="regression", objective="huber", params=[3.0], num_trees=2, lr=0.2, bin_num=5, mode="fast", tree=dict(max_depth=3, lam=2.0, min_leaf_node=2)), test=[1, 2]),
    "fair": dict(g=[[3], [1], [2], [0]], h=[[[2, 1], [7, 1], [1, 1], [8, 2]]], y=Y4[::-1],
                 p=dict(task="regression", objective="fair", params=[1.5], num_trees=2, mode="balance", re_rate=0.5, tree=dict(max_depth=3)), test=[1, 2]),
    "fair2": dict(g=[[0], [2], [3], [1]], h=[[[2], [1], [0], [8]]], y=Y4, p=dict(task="regression", objective="fair", params=[0.2], num_trees=2, tree=dict(max_depth=2)), test=[0]),
    "lae": dict(g=[[0], [2], [3], [1]], h=[[[2], [1], [0], [8]]], y=Y4, p=dict(task="regression", objective="lae", num_trees=2, tree=dict(max_depth=2)), test=[0, 3]),
    "thr": dict(g=[[0, 1], [3, 0], [1, 2], [2, 5]], h=[[[1], [4], [2], [3]]], y=[5, 7, 5, 7], p=dict(num_trees=1, threshold=0.9, mode="confusion_opt", tree=dict(max_depth=2, importance="gain")), test=[0, 1, 2, 3]),
    "multi4": dict(g=[[0, 2], [2, 1], [1, 1], [0, 0], [4, 4]], h=[[[3], [1], [2], [5], [9]]], y=["p", "x", "q", "r", "x"], p=dict(num_trees=1, mode="fast", tree=dict(max_depth=3, lam=0.7)), test=[0, 4]),
    # without hosts: the standalone variant
    "alone2": dict(g=[[0, 1], [3, 0], [1, 2], [2, 5]], h=[], y=["s", "t", "s", "t"], p=dict(num_trees=2, threshold=0.3, tree=dict(max_depth=3, lam=0.3))),
    "alone3": dict(g=[[0, 1, 1], [3, 0, 2], [1, 2, 2], [2, 5, 0]], h=[], y=["v", "w", "u", "w"], p=dict(num_trees=2, tree=dict(max_depth=2))),
    "alonereg": dict(g=[[0], [3], [1], [2]], h=[], y=Y4, p=dict(task="regression", objective="huber", params=[1.0], num_trees=3, tol=0.5, tree=dict(max_depth=3, min_leaf_node=2))),
})
PORTS = (12345, 23456)


class World(sim.Sim):
    """Two groups of parties; one runs until the plan says the other's turn is."""

    def __init__(self, plan, **kw):
        super().__init__(**kw)
        self.plan, self.group, self.turn, self.count, self.total = iter(plan), {}, 0, 0, [0, 0]
        self.until = next(self.plan, None)

    def _pick(self, current):
        if current is not None:
            g = self.group[current.pid]
            self.total[g] += 1
            if g == self.turn:
                self.count += 1
        if self.until is not None and self.count >= self.until:
            self.turn, self.count, self.until = 1 - self.turn, 0, next(self.plan, None)
        en = [p for p in self.parties if p.enabled()]
        if not en:
            return None
        mine = [p for p in en if self.group[p.pid] == self.turn] or en
        return current if current in mine else mine[0]


def build(scen, world, port, crypto):
    sc = SCEN[scen]
    if sc["h"]:
        sc = dict(sc, p=dict(sc["p"], key_length=crypto)) if crypto else sc
        return c03.make(sc, world=world, port=port)
    p = dict(sc["p"])
    p["tree"] = fed.tree_param(**p.get("tree", {}))
    if crypto:
        p["key_length"] = crypto
    b = c25.Alone(list(range(len(sc["y"]))), [[float(v) for v in r] for r in sc["g"]], sc["y"], [], fed.boost_param(**p), test=[[9.0] * len(sc["g"][0]), [0.5] * len(sc["g"][0])])
    world.spawn("alone", b.run)
    return b


def result(b):
    g = b.models["g"]
    out = fed.summary(b)
    out["importances"] = sorted((str(k), round(float(v), 9)) for k, v in dict(g.feature_importances_).items())
    out["later"] = [[(repr(k), repr(v[1])) for k, v in sorted(m[2].items(), key=repr)] for m in b.out.get("more", []) if len(m) == 4]
    return out


def live(scens, plan, lengths):
    w = World(plan)
    bs = []
    for i, scen in enumerate(scens):
        bs.append(build(scen, w, PORTS[i], lengths[i]))
        for p in w.parties:
            w.group.setdefault(p.pid, i)
    with table_points():
        fed.run_parties(w)
    for a, b, _ in w.conns:
        expect(not a.buf and not b.buf, "bytes were left unread")
    return w, [result(b) for b in bs]


KEYS = {}


@contextlib.contextmanager
def table_points():
    """A party without a network can be interrupted at its table operations."""
    names = [n for n in ("mapValues", "join", "reduce", "mapPartitions") if n in DTable.__dict__]
    saved = {n: DTable.__dict__[n] for n in names}

    def wrap(f):
        def g(self, *a, **kw):
            p = sim.current_party()
            if p is not None and p.name == "alone":
                p.sim.point()
            return f(self, *a, **kw)
        return g
    for n in names:
        setattr(DTable, n, wrap(saved[n]))
    try:
        yield
    finally:
        for n in names:
            setattr(DTable, n, saved[n])


@contextlib.contextmanager
def real_keys():
    """Real encryption; one fixed key pair for each length."""
    from ml.secureprotol.fate_paillier import PaillierKeypair
    saved = PaillierKeypair.__dict__["generate_keypair"]
    make = PaillierKeypair.generate_keypair

    def pair(n_length=1024):
        if n_length not in KEYS:
            KEYS[n_length] = make(n_length)
        return KEYS[n_length]
    PaillierKeypair.generate_keypair = staticmethod(pair)
    try:
        yield
    finally:
        PaillierKeypair.generate_keypair = saved


LENGTHS = (256, 320)
_ALONE = {}


def alone(scen, length):
    if (scen, length) not in _ALONE:
        w, res = live([scen], [], [length])
        _ALONE[scen, length] = res[0], w.total[0]
    return _ALONE[scen, length]


def run_sequel(case):
    """One training after another, the first one again at the end: what ran before must not matter."""
    lengths = LENGTHS if case.get("crypto") else (None, None)
    with real_keys() if case.get("crypto") else fed.FakeKeys.on():
        runs = [live([s], [], [k]) for s, k in list(zip(case["pair"], lengths)) + [(case["pair"][0], lengths[0])]]
    (w, first), _, (_, again) = runs
    for k in ("loss", "F", "trees", "hosts", "importances", "pred", "later"):
        expect(first[0][k] == again[0][k], "after %s in the same process, %s of %s is %r, before it was %r", case["pair"][1], k, case["pair"][0], again[0][k], first[0][k])
    return w, first + again


def run_case(case):
    if case.get("sequel"):
        return run_sequel(case)
    lengths = LENGTHS if case.get("crypto") else (None, None)
    scens = case["pair"]
    with real_keys() if case.get("crypto") else fed.FakeKeys.on():
        want = [alone(s, k)[0] for s, k in zip(scens, lengths)]
        plan = itertools.repeat(case["turn"]) if "turn" in case else case["plan"]
        w, got = live(scens, plan, lengths)
    for scen, other, a, b in zip(scens, scens[::-1], want, got):
        for k in ("loss", "F", "trees", "hosts", "importances", "pred", "later"):
            expect(a[k] == b[k], "with %s in the same process, %s of %s is %r, alone it is %r", other, k, scen, b[k], a[k])
    return w, got


# every scenario interrupts and is interrupted; neighbours differ in task, classes, settings, objective parameters
PAIRS = [("bin1", "multi"), ("multi", "bin2"), ("bin2", "thr"), ("thr", "bin1"), ("huber", "huber2"), ("huber2", "huber"), ("fair", "fair2"), ("fair2", "fair"),
         ("multi", "multi4"), ("multi4", "multi"), ("stop", "nostop"), ("nostop", "stop"), ("bin1", "stop"), ("stop", "bin1"), ("stop", "stop"), ("mini2", "hostonly"),
         ("hostonly", "mini2"), ("bin1", "bin1"), ("bin2", "alone3"), ("multi4", "alone2"), ("huber2", "alonereg"), ("stop", "alonereg"), ("lae", "multi4"), ("fair", "lae"), ("alone2", "alone3"), ("alone3", "alone2"), ("alonereg", "huber"), ("alone3", "multi"), ("alonereg", "alonereg")]
SHORT = [("mini2", "thr"), ("thr", "mini2"), ("stop", "nostop"), ("fair2", "huber"), ("huber", "fair2")]
CRYPTO = [("thr", "stop"), ("fair2", "mini2")]


def tasks(tier):
    big = tier != "quick"
    pairs = list(itertools.product(SCEN, repeat=2)) if big else PAIRS
    out = [dict(b="once", pair=list(p), part=i, of=4) for p in sorted(pairs, key=lambda p: "multi" not in p[0]) for i in range(4)]
    out += [dict(b="twice", pair=list(p), stride=2 if big else 9, part=i, of=4) for p in SHORT for i in range(4)]
    out += [dict(b="turn", pair=list(p), part=0, of=1) for p in pairs]
    out += [dict(b="crypto", pair=list(p), stride=3 if big else 9, part=i, of=4) for p in CRYPTO for i in range(4)]
    return out


def cases(block):
    pair, b = block["pair"], block["b"]
    if b == "turn":
        for m in (1, 2, 3, 4, 5, 7, 11):
            yield dict(pair=pair, turn=m)
        return
    lengths = LENGTHS if b == "crypto" else (None, None)
    with real_keys() if b == "crypto" else fed.FakeKeys.on():
        n, m = (alone(s, k)[1] for s, k in zip(pair, lengths))
    if b == "once":
        for k in range(n + 1):
            yield dict(pair=pair, plan=[k])
    elif b == "crypto":
        for k in range(0, n + 1, block["stride"]):
            yield dict(pair=pair, plan=[k], crypto=True)
    else:
        for k in range(1, n + 1, block["stride"]):
            for j in range(1, m + 1, block["stride"]):
                yield dict(pair=pair, plan=[k, j])


def explore(ctx, block):
    first = dict(pair=block["pair"], sequel=True, **({"crypto": True} if block["b"] == "crypto" else {}))
    r = ctx.case(first, lambda: run_case(first), steps=0)
    if r is None:
        return
    ctx.step(r[0].steps)
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run_case(case), steps=0)
        if r is not None:
            ctx.step(r[0].steps)
            ctx.state(core.jsonable(case))
            ctx.outcome([x["F"] for x in r[1]])
