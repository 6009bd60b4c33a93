"""C03 - the federated protocol always finishes, whatever the schedule, and fails cleanly.

Whole trainings and predictions of the real guest and host classes over the simulated
byte-stream network: all schedules within a deviation bound, all connection orders, small
buffers and short reads, a crash of any party at any of its network operations, and all
small data sets under the default schedule.
"""
import itertools

from mc import core, fed, scale, sim
from mc.core import expect, Violation
from mc.props import c05

META = dict(
    title="Training and prediction finish on every schedule and fail cleanly on a crash",
    statement="For every interleaving of guest and hosts, every order in which the hosts connect, every network buffering and every data set, federated training followed by prediction terminates at all parties, leaves no message unread, and produces the same model, scores and losses. If any party dies at any point once the parties are connected, every other party ends with its result or an error instead of waiting for ever.",
    quantifier=dict(over=["schedules", "crash_points", "configurations", "inputs"], text="all schedules within a deviation bound, all connection orders, several buffer capacities and read sizes, every crash point of every party, and all small data sets over 1-3 hosts and several tree shapes, depths, batch sizes and stopping settings; and large trainings (up to 130 rows, 6 hosts, 11 features, 70 bins, 7 levels, 11 rounds, 11 classes, sizes enumerated one and two at a time) on several networks and scheduling rules"),
    why_tests_cant="No test runs the parties at all; running them by hand exercises one interleaving and one data set, and nothing ever dies in the middle of a message exchange.",
    anchors=dict(files=["ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "federation/transfer_inst.py"],
                 state=[dict(name="message sequence", meaning="sends and receives of guest and hosts have to pair up", where="sync_* methods of the four classes")],
                 mechanism=[dict(name="mirrored loops over rounds, trees, depths and batches", where="fit/predict of the four classes"),
                            dict(name="stop flag and finish tag", where="sync_stop_flag, sync_predict_finish_tag"),
                            dict(name="empty-queue break", where="fit of both decision trees")],
                 observe_at=["termination and errors of every party", "unread bytes", "exported models, scores, losses"], hook_needed=None),
    level="model_checking",
    technique="stateless schedule exploration (deviation bounded) and crash-point enumeration of the real parties on a simulated network",
    level_note="Exhaustive within the deviation bound, the listed buffer sizes, every crash point after connecting and the bounded data sets. Numbers pass unencrypted in most runs (identity behind PaillierEncrypt) and with real 256-bit Paillier in some; the network model is trusted. Python-level preemption inside one party is irrelevant: parties share no memory.",
    bounds=dict(quick=dict(hosts=3, deviations=2, rows=4), thorough=dict(hosts=3, deviations=3, rows=5)),
    rule="a case is (scenario, schedule | capacity | crash point | data set); states are distinct (scenario, choice trace) or data sets; outcomes are distinct final results",
    assumptions=["the network is TCP: ordered, reliable until a party dies", "a party whose code raises exits, closing its sockets", "crashes before the connections are set up are out of scope (a listening guest waits for its hosts by design)"],
)

# name -> rows, labels, parameters.  Column values differ so that no two parties' best splits tie.
SCEN = {
    "bin1": dict(g=[[0, 1], [3, 0], [1, 2], [2, 5]], h=[[[1], [4], [2], [3]]], y=["0", "1", "0", "1"],
                 p=dict(num_trees=2, tree=dict(max_depth=3)), test=[0, 3, 1]),
    "bin2": dict(g=[[0], [1], [1], [0], [2]], h=[[[1, 3], [0, 3], [1, 5], [2, 4], [2, 2]], [[0], [4], [2], [5], [1]]],
                 y=["a", "b", "b", "a", "b"], p=dict(num_trees=2, tree=dict(max_depth=3, max_split_nodes=1)), test=[1, 2, 4]),
    "guestonly": dict(g=[[0], [1], [2], [3]], h=[[[7], [7], [7], [7]]], y=["0", "0", "1", "1"],
                      p=dict(num_trees=2, tree=dict(max_depth=3)), test=[0, 3]),
    "hostonly": dict(g=[[5], [5], [5], [5], [5]], h=[[[4], [1], [2], [3], [9]], [[2], [1], [2], [1], [1]]], y=["0", "0", "1", "1", "0"],
                     p=dict(num_trees=1, tree=dict(max_depth=4)), test=[0, 1, 2, 3, 4]),
    "leafroot": dict(g=[[5], [5], [5]], h=[[[7], [7], [7]]], y=["0", "1", "1"], p=dict(num_trees=3, tree=dict(max_depth=3)), test=[0]),
    "multi": dict(g=[[0], [2], [1], [0]], h=[[[3], [1], [2], [5]]], y=["x", "y", "z", "y"],
                  p=dict(num_trees=2, tree=dict(max_depth=2)), test=[0, 1, 2]),
    "stop": dict(g=[[0], [1], [2], [1]], h=[[[2], [1], [3], [5]]], y=[1.0, 2.0, 4.0, 3.0],
                 p=dict(task="regression", objective="lse", num_trees=4, tol=100.0, tree=dict(max_depth=2)), test=[0, 1]),
    "nostop": dict(g=[[0], [1], [2], [1]], h=[[[2], [1], [3], [5]]], y=[1.0, 2.0, 4.0, 3.5],
                   p=dict(task="regression", objective="lse", num_trees=2, n_iter_no_change=False, tree=dict(max_depth=3)), test=[0, 1]),
    "rising": dict(g=[[0], [1], [2], [1]], h=[[[2], [1], [3], [5]]], y=[1.0, 2.0, 4.0, 3.5],
                   p=dict(task="regression", objective="lse", num_trees=3, lr=2.5, n_iter_no_change=False, tree=dict(max_depth=2)), test=[0, 1]),
    "hosts3": dict(g=[[0], [1], [1], [2]], h=[[[1], [3], [5], [2]], [[4], [1], [2], [2]], [[9], [9], [1], [3]]],
                   y=["0", "1", "1", "0"], p=dict(num_trees=1, tree=dict(max_depth=3, max_split_nodes=2)), test=[0, 3]),
    "mini2": dict(g=[[0], [1], [1]], h=[[[1], [3], [5]], [[1], [1], [0]]], y=["0", "1", "1"],
                  p=dict(num_trees=1, n_iter_no_change=False, tree=dict(max_depth=2)), test=[1]),
    "bare": dict(g=[[], [], [], []], h=[[[1], [4], [2], [3]], [[], [], [], []]], y=["0", "1", "0", "1"], p=dict(num_trees=1, tree=dict(max_depth=3)), test=[0, 3]),
    "depth1": dict(g=[[0], [1]], h=[[[1], [0]]], y=["0", "1"], p=dict(num_trees=2, tree=dict(max_depth=1)), test=[0, 1]),
}


def make(scen, **kw):
    sc = SCEN[scen] if isinstance(scen, str) else scen
    p = dict(sc["p"])
    p["tree"] = fed.tree_param(**p.get("tree", {}))
    ids = list(range(len(sc["g"])))
    test = None
    if sc.get("test") is not None:
        tid = [100 + i for i in sc["test"]]
        test = dict(ids=tid, guest=[sc["g"][i] for i in sc["test"]], hosts=[[h[i] for i in sc["test"]] for h in sc["h"]])
    return fed.Boost(ids, sc["g"], sc["y"], sc["h"], fed.boost_param(**p), test=test, **kw)


def judge(scen, b, ref):
    s = fed.summary(b)
    if ref is not None:
        for k in ("F", "loss", "pred"):
            expect(s[k] == ref[k], "scenario %s: %s depends on the schedule: %r instead of %r", scen, k, s[k], ref[k])
        expect(s["trees"] == ref["trees"], "scenario %s: the model depends on the schedule", scen)
    # all parties agree on how many trees there are
    for h in s["hosts"]:
        expect(len(h) == len(s["trees"]), "scenario %s: a host has %d trees, the guest %d", scen, len(h), len(s["trees"]))
    return s


_REF = {}


def reference(scen):
    if scen not in _REF:
        with fed.FakeKeys.on():
            b = make(scen)
            b.run()
            _REF[scen] = fed.summary(b)
    return _REF[scen]


def limiter(chunk):
    return (lambda a, w: chunk) if chunk else None


def run_sched(case, ch=None):
    ref = reference(case["scen"])
    ch = ch or core.Chooser(case["choices"])
    keys = fed.small_keys(256) if case.get("crypto") else fed.FakeKeys.on()
    with keys:
        b = make(case["scen"], chooser=ch, capacity=case.get("cap"), recv_limit=limiter(case.get("chunk")))
        b.run()
    s = judge(case["scen"], b, None if case.get("crypto") else ref)
    return b, s


def run_crash(case):
    with fed.FakeKeys.on():
        b = make(case["scen"], crash=(case["party"], case["at"]), capacity=case.get("cap"))
        try:
            b.sim.run()
        except (sim.Deadlock, sim.Horizon) as e:
            who = b.sim.parties[case["party"]].name
            raise Violation("%s died at its network operation %d and the others hang: %s" % (who, case["at"], e))
    for p in b.sim.parties:
        if p.error is not None and not isinstance(p.error, Exception):
            if isinstance(p.error, (core.HarnessError, core.CaseTimeout)):
                raise p.error
            raise Violation("%s keeps going after its peer died: %r" % (p.name, p.error))
    return b


def run_data(case):
    with fed.FakeKeys.on():
        b = make(case["sc"])
        b.run()
    judge("data", b, None)
    return b


class Policy(core.Chooser):
    """A fixed rule instead of a prefix: the last alternative, or all in turn.

    It starts when the hosts are connected: their order decides which of two equally good
    splits wins, and at these sizes there are such splits.
    """

    def __init__(self, rule, hosts):
        super().__init__()
        self.rule, self.hosts = rule, hosts

    def bind(self, s):
        self.sim = s

    def __call__(self, n, cost=1):
        c = 0 if len(self.sim.conns) < self.hosts else n - 1 if self.rule == "last" else len(self.trace) % n
        self.trace.append((c, n, cost))
        return c


NETS = [dict(cap=300), dict(chunk=100), dict(rule="last"), dict(rule="turn"), dict(rule="turn", cap=1000)]


def run_scale(case):
    """Large trainings: finish, and give one result on every network and fixed scheduling rule."""
    c = c05.scaled({k: v for k, v in case.items() if k != "k"})
    b = c05.run_boost(c)[0]
    ref = judge("scale", b, None)
    nets = NETS if case["all"] else [NETS[len(c["y"]) * 7 % len(NETS)], NETS[3]]
    steps = b.sim.steps
    for net in nets:
        b = c05.run_boost(c, chooser=Policy(net["rule"], len(c["hosts"])) if "rule" in net else None, capacity=net.get("cap"), recv_limit=limiter(net.get("chunk")))[0]
        judge("%r on %r" % (case["scale"], net), b, ref)
        steps += b.sim.steps
    b.total_steps = steps
    return b


def run_case(case):
    return {"scale": run_scale, "sched": run_sched, "crash": run_crash, "data": run_data}[case["k"]](case)


SHAPES = [dict(num_trees=1, n_iter_no_change=False, tree=dict(max_depth=3, max_split_nodes=1)),
          dict(num_trees=2, tree=dict(max_depth=2, min_leaf_node=2)),
          dict(num_trees=1, tree=dict(max_depth=4, min_sample_split=3, max_split_nodes=2))]


def tasks(tier):
    big = tier != "quick"
    out = []
    for scen in SCEN:
        n = len(SCEN[scen]["h"])
        parts = 8 if n > 1 else 2
        bound = (1 if n > 1 and scen != "mini2" or scen in ("multi", "rising") else 2) if not big else (
            2 if n > 1 or scen in ("multi", "rising") else 3)
        for p in range(parts):
            out.append(dict(b="sched", scen=scen, bound=bound, part=p, of=parts))
        for cap, chunk in ((1000, None), (64, 9), (None, 100), (17, None)):
            out.append(dict(b="sched", scen=scen, bound=1 if big and cap != 17 else 0, part=0, of=1, cap=cap, chunk=chunk))
        out.append(dict(b="sched", scen=scen, bound=1 if big else 0, part=0, of=1, crypto=True))
        for party in range(n + 1):
            out.append(dict(b="crash", scen=scen, party=party, cap=None))
            if big:
                out.append(dict(b="crash", scen=scen, party=party, cap=200))
    out.extend(dict(b="scale", part=i, of=8, big=big) for i in range(8))
    for shape in range(len(SHAPES)):
        for y in ("0101", "0011", "0110", "0111", "0123"):
            out.append(dict(b="data", shape=shape, y=y, n=4, vals=3 if big else 2, hosts=1))
            out.append(dict(b="data", shape=shape, y=y, n=3 if not big else 4, vals=2, hosts=2))
    return out


def explore(ctx, block):
    b = block["b"]
    if b == "sched":
        base = {k: v for k, v in block.items() if k in ("scen", "cap", "chunk", "crypto") and v is not None}

        def run(ch):
            case = dict(base, k="sched", choices=ch.prefix)
            r = ctx.case(case, lambda: run_sched(case, ch), steps=0)
            if r is not None:
                ctx.step(r[0].sim.steps)
                ctx.state((sorted(base.items()), tuple(c[0] for c in ch.trace)))
                ctx.outcome((block["scen"], r[1]["F"], r[1]["trees"], r[1]["pred"]))
        core.explore_choices(run, block["bound"], lambda ch, r: None, part=block["part"], of=block["of"])
    elif b == "crash":
        case = dict(k="crash", scen=block["scen"], party=block["party"], at=10 ** 9, cap=block["cap"])
        r = ctx.case(case, lambda: run_crash(case), steps=0)
        if r is None:
            return
        total = r.sim.parties[block["party"]].ops
        for at in range(1 if block["party"] == 0 else 2, total + 1):
            case = dict(k="crash", scen=block["scen"], party=block["party"], at=at, cap=block["cap"])
            ctx.state(case)
            ctx.counters["crash_points"] += 1
            r = ctx.case(case, lambda: run_crash(case), steps=0)
            if r is not None:
                ctx.step(r.sim.steps)
    elif b == "scale":
        for i, c in enumerate(scale.cases(block["big"])):
            if i % block["of"] != block["part"]:
                continue
            case = dict(c, k="scale", all=block["big"] or len(c["scale"]) < 2 and sum(c["scale"].values() if "loss" not in c["scale"] else [0]) < 60)
            ctx.state(core.jsonable(case))
            r = ctx.case(case, lambda: run_scale(case), steps=0)
            if r is not None:
                ctx.step(r.total_steps)
    elif b == "data":
        n, y = block["n"], list(block["y"][:block["n"]])
        for g in itertools.product(range(block["vals"]), repeat=n):
            if block["hosts"] == 1:
                hs = [[h] for h in itertools.product(range(block["vals"]), repeat=n)]
            else:
                hs = list(itertools.product(itertools.product(range(2), repeat=n), repeat=2))
            for h in hs:
                sc = dict(g=[[v] for v in g], h=[[[v] for v in hh] for hh in h], y=y, p=SHAPES[block["shape"]],
                          test=[0, n - 1])
                case = dict(k="data", sc=sc)
                ctx.state((g, h, y, block["shape"]))
                r = ctx.case(case, lambda: run_data(case), steps=0)
                if r is not None:
                    ctx.step(r.sim.steps)
