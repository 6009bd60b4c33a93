"""C02 - message transport: exact, ordered, routed delivery over any fragmentation.

The real TransferInstGuest/TransferInstHost run over simulated sockets whose every recv
may be cut short, whose buffers are bounded, and whose stream can end after any byte.
"""
import itertools
import pickle

import numpy as np

from mc import core, sim
from mc.core import expect, Violation
from mc.props import c07
from computing.d_table import DTable
from federation import transfer_inst as ti
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.node import Node

META = dict(
    title="Messages arrive exactly, in order and only at the addressed party",
    statement="Every object one party sends arrives at exactly the addressed host (or every host for index -1, or the guest), equal to what it was when it was sent, once, and in sending order, however the network fragments, delays or back-pressures the byte stream and whatever the object's size. Receiving from all hosts yields one object per host in connection order, and an index that names no host is rejected without anything being sent. If the stream ends before a whole message has arrived, the receiver gets an error, never a wrong object and never an endless wait.",
    quantifier=dict(over=["schedules", "inputs", "histories", "fault_sequences"], text="all fragmentations of small messages, all single-size and bounded-deviation fragmentations of larger ones, all stream cut points, all addressed send/receive histories to a depth with 1-3 hosts, all schedules within a deviation bound over several buffer sizes; conversations of up to 1100 rounds and up to 12 hosts with every kind of object the parties exchange"),
    why_tests_cant="No test exercises the transport; a loopback test sees one fragmentation per run and practically never a header or body split at a chosen byte, a full buffer, or a peer that dies inside a message.",
    anchors=dict(files=["federation/transfer_inst.py"],
                 state=[dict(name="conns", meaning="one connection per host in arrival order", where="TransferInstGuest.conns")],
                 mechanism=[dict(name="fixed-width length header, then the pickled body", where="TransferInst.send_data/recv_data"),
                            dict(name="exact reads", where="TransferInst.recv_exact"),
                            dict(name="index dispatch", where="TransferInstGuest.send_data_to_hosts/recv_data_from_hosts")],
                 observe_at=["objects returned by recv_data_from_guest / recv_data_from_hosts", "bytes left in each stream"], hook_needed=None),
    level="model_checking",
    technique="stateless exploration of the real transport on a simulated byte-stream network: fragmentations, cut points, schedules",
    level_note="Exhaustive within the bounds over the real classes; the TCP model (ordered reliable bytes, bounded buffer, short reads, end of stream) is trusted, and Python's pickle is trusted.",
    bounds=dict(quick=dict(full_fragmentation_bytes=20, hosts=3, history=3, deviations=2), thorough=dict(full_fragmentation_bytes=22, hosts=3, history=4, deviations=3)),
    rule="a case is (objects, destinations, fragmentation or schedule or cut point); states are distinct (case shape, stream cut) tuples",
    assumptions=["the network is TCP: bytes are neither lost, duplicated nor reordered", "a host that connects before the guest listens waits"],
)


def payloads():
    return [None, 0, "", (), [1, [2.5, "x"]], {"a": (1, None)}, "x" * 9, b"\x00" * 80, list(range(30)),
            "y" * 980, "z" * 985, b"q" * 1100, list(range(700)), "0" * 9990, b"\xff" * 20000, "w" * 70000]


class Net:
    """A connected guest and n hosts, all driven from one thread."""

    def __init__(self, nhosts, body, recv_limit=None, capacity=None):
        self.recv_limit = recv_limit
        s = sim.Sim(recv_limit=lambda a, w: self.recv_limit(a, w) if self.recv_limit else a, capacity=capacity,
                    horizon=10 ** 9)
        self.sim = s
        self.out = {}

        def guest():
            self.out["g"] = ti.TransferInstGuest(12345, nhosts)

        def host(i):
            self.out[i] = ti.TransferInstHost(port=12345)

        def driver():
            s.wait(lambda: len(self.out) == nhosts + 1, "setup")
            # connection order is the guest's, not ours: pair the ends up by content
            g = self.out["g"]
            hs = [self.out[i] for i in range(nhosts)]
            if nhosts > 1:
                for i in range(nhosts):
                    g.send_data_to_hosts(i, i)
                order = [h.recv_data_from_guest() for h in hs]
                expect(sorted(order) == list(range(nhosts)), "messages for hosts 0..%d arrived as %r", nhosts - 1, order)
                hs = [hs[order.index(i)] for i in range(nhosts)]
            self.g, self.h = g, hs
            body(self)

        s.spawn("guest", guest)
        for i in range(nhosts):
            s.spawn("host%d" % i, lambda i=i: host(i))
        d = s.spawn("driver", driver)
        s.run()
        for p in s.parties:
            if p.error is not None:
                raise p.error
        _ = d

    def clean(self):
        for a, b, _ in self.sim.conns:
            expect(not a.buf and not b.buf, "bytes left over in the stream: %d and %d", len(a.buf), len(b.buf))


def same(got, want):
    expect(type(got) is type(want) and got == want, "received %.80r, sent %.80r", got, want)


# -- one message, every fragmentation -----------------------------------------
def wire_len(obj):
    got = []

    def body(net):
        net.g.send_data_to_hosts(obj, 0)
        got.append(len(net.sim.conns[0][1].buf))
        same(net.h[0].recv_data_from_guest(), obj)
    Net(1, body)
    return got[0]


def run_frag(objs, picks, direction):
    """Receive objs; the i-th recv that could return n bytes returns 1+pick(n) of them."""
    def body(net):
        pos = [0]

        def limit(avail, wanted):
            i = pos[0]
            pos[0] += 1
            return picks(i, min(avail, wanted))
        for o in objs:
            net.g.send_data_to_hosts(o, 0) if direction == "down" else net.h[0].send_data_to_guest(o)
        net.recv_limit = limit
        for o in objs:
            same(net.h[0].recv_data_from_guest() if direction == "down" else net.g.recv_data_from_hosts(0), o)
        net.recv_limit = None
        net.clean()
    Net(1, body)


def frag_tree(ctx, objs, bound, direction, part, of):
    """All fragmentations within `bound` deviations (None: all), on one connection."""
    idx = PAYLOAD_INDEX(objs)

    def body(net):
        def run(ch):
            for o in objs:
                net.g.send_data_to_hosts(o, 0) if direction == "down" else net.h[0].send_data_to_guest(o)
            net.recv_limit = lambda avail, wanted: avail - ch(avail)
            try:
                for o in objs:
                    same(net.h[0].recv_data_from_guest() if direction == "down" else net.g.recv_data_from_hosts(0), o)
                net.recv_limit = None
                net.clean()
            finally:
                net.recv_limit = None

        stack = [()]
        first = True
        while stack:
            prefix = stack.pop()
            ch = core.Chooser(prefix)
            case = dict(k="frag", objs=idx, dir=direction, picks=list(prefix))
            before = len(ctx.violations)
            ctx.case(case, lambda: run(ch), steps=max(1, len(ch.trace)))
            ctx.state(("frag", idx, direction, tuple(c[0] for c in ch.trace)))
            if len(ctx.violations) > before:
                return
            cost, choices = 0, []
            for i, (c, n, w) in enumerate(ch.trace):
                if i >= len(prefix):
                    for alt in range(n - 1, 0, -1):
                        if bound is None or cost + 1 <= bound:
                            nxt = tuple(choices) + (alt,)
                            # the first deviation decides which block owns the subtree
                            if not (first and not prefix) or (i + alt) % of == part:
                                stack.append(nxt)
                cost += 1 if c else 0
                choices.append(c)
            first = False
    Net(1, body)


def PAYLOAD_INDEX(objs):
    ps = payloads()
    return [next(i for i, p in enumerate(ps) if type(p) is type(o) and p == o) for o in objs]


# -- cut points ---------------------------------------------------------------
def run_cut(case):
    objs = [payloads()[i] for i in case["objs"]]
    cut, down = case["cut"], case["dir"] == "down"

    def body(net):
        sizes = []
        pipe = net.sim.conns[0][1 if down else 0]
        for o in objs:
            before = pipe.total
            net.g.send_data_to_hosts(o, 0) if down else net.h[0].send_data_to_guest(o)
            sizes.append(pipe.total - before)
        del pipe.buf[cut:]
        pipe.closed = True
        net.recv_limit = (lambda a, w: case["chunk"]) if case["chunk"] else None
        left = cut
        for o, size in list(zip(objs, sizes)) + [(None, None)]:
            whole = size is not None and left >= size
            try:
                got = net.h[0].recv_data_from_guest() if down else net.g.recv_data_from_hosts(0)
            except Exception as e:
                expect(not whole, "a complete message was refused: %r", e)
                return
            except sim.SimLivelock as e:
                raise Violation("the stream ended after %d bytes and the receiver %s" % (cut, e))
            expect(whole, "the stream ended after %d bytes inside a message, yet an object was returned: %.60r", cut, got)
            same(got, o)
            left -= size
    Net(1, body)


# -- addressed histories -------------------------------------------------------
def run_history(case):
    n, ps = case["hosts"], payloads()

    def body(net):
        pending = {i: [] for i in range(n)}     # guest -> host
        up = {i: [] for i in range(n)}
        # one object per payload and direction, changed between sends: what counts is its
        # value at the moment it is sent; the first two sends of a payload may be equal
        live = {}
        for step, act in enumerate(case["acts"]):
            kind, i, p = act
            obj = live.setdefault((kind, p), [None, ps[p]])
            obj[0] = mark = step // 2
            if kind == "s":
                if i == -1 or 0 <= i < n:
                    net.g.send_data_to_hosts(obj, i)
                    for j in (range(n) if i == -1 else [i]):
                        pending[j].append([mark, ps[p]])
                else:
                    sent = [c[1].total for c in net.sim.conns]
                    try:
                        net.g.send_data_to_hosts(obj, i)
                    except ValueError:
                        pass
                    else:
                        raise Violation("send index %d of %d hosts was accepted" % (i, n))
                    expect(sent == [c[1].total for c in net.sim.conns], "a rejected send put bytes on the wire")
                obj[0] = "changed after sending"
            elif kind == "u":
                net.h[i].send_data_to_guest(obj)
                up[i].append([mark, ps[p]])
                obj[0] = "changed after sending"
            elif kind == "r":
                if i == -1:
                    if all(up[j] for j in range(n)):
                        got = net.g.recv_data_from_hosts(-1)
                        expect(isinstance(got, list) and got == [up[j].pop(0) for j in range(n)], "receive from all gives %.100r", got)
                elif not 0 <= i < n:
                    try:
                        net.g.recv_data_from_hosts(i)
                    except ValueError:
                        pass
                    else:
                        raise Violation("receive index %d of %d hosts was accepted" % (i, n))
                elif up[i]:
                    same(net.g.recv_data_from_hosts(i), up[i].pop(0))
        for j in range(n):
            for want in pending[j]:
                same(net.h[j].recv_data_from_guest(), want)
            for want in up[j]:
                same(net.g.recv_data_from_hosts(j), want)
        net.clean()
    Net(n, body)


# -- many hosts, long conversations, the objects of the protocol -----------------
def kinds():
    """Objects of every kind the parties exchange, with how to compare them."""
    arr = lambda a, b: type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    out = [(np.arange(6.0).reshape(2, 3), arr), (np.array([1, 2 ** 40]), arr), (np.zeros((0, 3)), arr), (np.array(["ab", "c"]), arr),
           (np.float64(0.1), lambda a, b: type(a) is type(b) and a == b), (float("inf"), lambda a, b: a == b),
           (2 ** 4096 + 1, lambda a, b: a == b), (-(3 ** 500), lambda a, b: a == b), ({(1, "a"): {2: [3]}}, lambda a, b: a == b),
           ({1, 2, "x"}, lambda a, b: a == b and type(a) is set), (True, lambda a, b: a is b), ("\u00e9\u4e2d\x00", lambda a, b: a == b)]
    tab = DTable(True, [("a", 1), (2, [None, "x"]), ("", (0.5, {}))])
    out.append((tab, lambda a, b: sorted(map(repr, a.collect())) == sorted(map(repr, b.collect()))))
    out.append((DTable(False), lambda a, b: a.count() == 0))
    out.append((Instance(inst_id=3, features=np.array([1.5]), label="y"), lambda a, b: a.inst_id == b.inst_id and a.label == b.label and arr(a.features, b.features)))
    out.append((SparseVector([1, 4], [2.5, 0.0], 9), lambda a, b: list(a.get_all_data()) == list(b.get_all_data()) and a.shape == b.shape))
    out.append((Node(id=5, sitename="host.1", fid=2, bid=0.25, weight=-1.5, left_nodeid=11, right_nodeid=12), lambda a, b: all(getattr(a, f) == getattr(b, f) for f in ("id", "sitename", "fid", "bid", "weight", "left_nodeid", "right_nodeid"))))
    pub, prv = c07.key(128)
    out.append((pub.encrypt(-2.75), lambda a, b: prv.decrypt(a) == prv.decrypt(b) == -2.75))
    return out


def run_many(case):
    n, rounds, what = case["hosts"], case["rounds"], kinds() if case["kinds"] else [([p], lambda a, b: a == b) for p in payloads()[:12]]

    def body(net):
        if case["chunk"]:
            net.recv_limit = lambda a, w: case["chunk"]
        down, up = {i: [] for i in range(n)}, {i: [] for i in range(n)}
        for r in range(rounds):
            for i in list(range(n)) + [-1]:
                k = (r * 7 + i * 3 + n) % len(what)
                net.g.send_data_to_hosts([r, what[k][0]], i)
                for j in (range(n) if i < 0 else [i]):
                    down[j].append((r, k))
            for i in range(n):
                k = (r * 5 + i) % len(what)
                net.h[i].send_data_to_guest([r, i, what[k][0]])
                up[i].append((r, k))
            if (r + 1) % case["lag"] and r + 1 < rounds:
                continue
            for i in range(n):
                for rr, k in down[i]:
                    got = net.h[i].recv_data_from_guest()
                    expect(got[0] == rr and what[k][1](got[1], what[k][0]), "host %d of %d receives %.80r in round %d", i, n, got, rr)
                down[i] = []
            while up[0]:
                alls = net.g.recv_data_from_hosts(-1) if len(up[0]) % 2 else [net.g.recv_data_from_hosts(i) for i in range(n)]
                expect(len(alls) == n, "receiving from all %d hosts gives %d objects", n, len(alls))
                for i in range(n):
                    rr, k = up[i].pop(0)
                    expect(alls[i][:2] == [rr, i] and what[k][1](alls[i][2], what[k][0]), "the guest receives %.80r from host %d of %d in round %d", alls[i], i, n, rr)
        net.recv_limit = None
        net.clean()
    Net(n, body)


# -- schedules -----------------------------------------------------------------
def run_schedule(case, ch=None):
    n, ps = case["hosts"], payloads()
    ch = ch or core.Chooser(case["choices"])
    s = sim.Sim(ch, capacity=case["cap"], recv_limit=(lambda a, w: case["chunk"]) if case["chunk"] else None)
    rounds = case["objs"]
    seen = {}

    def guest():
        g = ti.TransferInstGuest(12345, n)
        ids = g.recv_data_from_hosts(-1)
        for r, p in enumerate(rounds):
            g.send_data_to_hosts(["all", r, ps[p]], -1)
            for i in reversed(range(n)):
                g.send_data_to_hosts(["one", r, i, ids[i]], i)
            if r % 2:
                got = g.recv_data_from_hosts(-1)
            else:
                got = [None] * n
                for i in reversed(range(n)):
                    got[i] = g.recv_data_from_hosts(i)
            for i in range(n):
                same(got[i], ["reply", r, ids[i], ps[p]])
        seen["guest"] = ids

    def host(me):
        h = ti.TransferInstHost(port=12345)
        h.send_data_to_guest("host%d" % me)
        for r, p in enumerate(rounds):
            same(h.recv_data_from_guest(), ["all", r, ps[p]])
            m = h.recv_data_from_guest()
            expect(m[0] == "one" and m[1] == r and m[3] == "host%d" % me, "host%d received %.80r", me, m)
            h.send_data_to_guest(["reply", r, "host%d" % me, ps[p]])

    s.spawn("guest", guest)
    for i in range(n):
        s.spawn("host%d" % i, lambda i=i: host(i))
    try:
        s.run()
    except (sim.Deadlock, sim.Horizon) as e:
        raise Violation("stuck: %s" % e)
    for p in s.parties:
        if p.error is not None:
            raise p.error
    expect(sorted(seen["guest"]) == ["host%d" % i for i in range(n)], "the guest saw hosts %r", seen["guest"])
    for a, b, _ in s.conns:
        expect(not a.buf and not b.buf, "bytes left over in the stream")
    return s


# -- a receiver dies while the sender is blocked --------------------------------
def run_dead_reader(case):
    ps = payloads()
    s = sim.Sim(core.Chooser(), capacity=case["cap"])
    end = {}

    def guest():
        g = ti.TransferInstGuest(12345, 1)
        end["g"] = "sending"
        for _ in range(4):
            g.send_data_to_hosts(ps[case["p"]], 0)
        end["g"] = "sent"

    def host():
        h = ti.TransferInstHost(port=12345)
        for _ in range(case["reads"]):
            same(h.recv_data_from_guest(), ps[case["p"]])
        raise sim.SimCrash()

    s.spawn("guest", guest)
    s.spawn("host", host)
    try:
        s.run()
    except (sim.Deadlock, sim.Horizon) as e:
        raise Violation("the sender of a dead peer hangs: %s" % e)
    err = s.parties[0].error
    expect(err is None or isinstance(err, Exception), "the sender ended with %r", err)


# -- sizes around the powers of ten and two ---------------------------------------
def run_size(case):
    # the pickled form of the object has exactly case["n"] bytes (checked, not assumed)
    n = case["n"]
    over = len(pickle.dumps(b"x" * n)) - n
    obj = b"x" * max(0, n - over)
    seen = [None]

    def body(net):
        net.g.send_data_to_hosts(obj, 0) if case["dir"] == "down" else net.h[0].send_data_to_guest(obj)
        net.g.send_data_to_hosts("next", 0) if case["dir"] == "down" else net.h[0].send_data_to_guest("next")
        for want in (obj, "next"):
            got = net.h[0].recv_data_from_guest() if case["dir"] == "down" else net.g.recv_data_from_hosts(0)
            expect(type(got) is type(want) and got == want, "a message of %d bytes arrives as %.40r", len(want), got)
        net.clean()
        seen[0] = len(pickle.dumps(obj))
    Net(1, body)
    return seen[0]


def run_case(case):
    k = case["k"]
    if k == "size":
        run_size(case)
        return
    if k == "many":
        run_many(case)
        return
    if k == "frag":
        picks = case["picks"]
        run_frag([payloads()[i] for i in case["objs"]],
                 lambda i, n: n - min(picks[i], n - 1) if i < len(picks) else n, case["dir"])
    elif k == "uniform":
        run_frag([payloads()[i] for i in case["objs"]], lambda i, n: min(n, case["sizes"][i % len(case["sizes"])]), case["dir"])
    elif k == "cut":
        run_cut(case)
    elif k == "hist":
        run_history(case)
    elif k == "sched":
        run_schedule(case)
    elif k == "dead":
        run_dead_reader(case)


def tasks(tier):
    big = tier != "quick"
    out = []
    for p in range(8):
        out.append(dict(b="frag", objs=[0], bound=None if big else 6, dir="down", part=p, of=8))
    for d in ("down", "up"):
        out.append(dict(b="frag", objs=[0], bound=3, dir=d, part=0, of=1))
        for i in (4, 7, 1):
            out.append(dict(b="frag", objs=[i, 3], bound=2 if big or i != 7 else 1, dir=d, part=0, of=1))
        out.append(dict(b="uniform", dir=d, big=big))
        out.append(dict(b="cut", objs=[4, 0], dir=d))
        out.append(dict(b="cut", objs=[0, 6, 1], dir=d))
        out.append(dict(b="cutbig", objs=[9, 11], dir=d))
    for n in (1, 2, 3):
        depth = (4 if big else 3) if n < 3 else (4 if big else 2)
        for p in range(8):
            out.append(dict(b="hist", hosts=n, depth=depth, part=p, of=8))
    for n in (1, 2, 3):
        for cap in (None, 1, 7, 16, 17, 64, 1024):
            for chunk in (None, 1, 5) if n < 3 else (None, 5):
                if cap == 1 and n == 3:
                    continue
                bound = 2 if n < 3 else 1
                if cap is not None and cap < 64 or chunk is not None:
                    bound = 1
                if big and not (cap == 1 or chunk == 1):
                    bound += 1
                small = chunk is not None or cap is not None and cap < 64
                if not big and n == 3 and small and (cap, chunk) not in ((7, None), (17, None), (None, 5), (1024, 5)):
                    continue
                out.append(dict(b="sched", hosts=n, cap=cap, chunk=chunk, bound=bound,
                                objs=([4, 7] if big else [4]) if small else [7, 4, 9]))
    out.append(dict(b="dead"))
    out.extend(dict(b="many", kinds=x, big=big) for x in (False, True))
    for d in ("down", "up"):
        out.append(dict(b="size", dir=d, around=[10 ** e for e in range(2, 7)] + [2 ** e for e in range(7, 22)]))
        out.append(dict(b="size", dir=d, around=[10 ** 7, 2 ** 24, 2 ** 25, 4 * 10 ** 7, 2 ** 26]))
        if big:
            out.append(dict(b="size", dir=d, around=[10 ** 8, 2 ** 27, 2 ** 28]))
    return out


def explore(ctx, block):
    b = block["b"]
    ps = payloads()

    def go(case, steps=1):
        ctx.state(case)
        ctx.case(case, lambda: run_case(case), steps=steps)

    if b == "frag":
        frag_tree(ctx, [ps[i] for i in block["objs"]], block["bound"], block["dir"], block["part"], block["of"])
    elif b == "uniform":
        sizes = list(range(1, 41)) + [100, 1000, 1023, 1024, 1025, 4096, 65536]
        for i in range(len(ps)):
            for c in sizes:
                if len(pickle.dumps(ps[i])) / c < (3000 if not block["big"] else 30000):
                    go(dict(k="uniform", objs=[i, 0, i], sizes=[c], dir=block["dir"]))
        for i in range(9):
            for pat in itertools.product((1, 2, 15, 16, 17, 30), repeat=2):
                go(dict(k="uniform", objs=[i, (i + 1) % 9], sizes=list(pat), dir=block["dir"]))
    elif b in ("cut", "cutbig"):
        total = sum(wire_len(ps[i]) for i in block["objs"])
        cuts = range(total + 1) if b == "cut" else sorted(
            set(range(0, 20)) | set(range(990, 1050)) | set(range(2100, total + 1)) | set(range(0, total, 37)))
        for cut in cuts:
            for chunk in (None, 1, 16, 3) if b == "cut" else (None, 512):
                go(dict(k="cut", objs=block["objs"], cut=cut, chunk=chunk, dir=block["dir"]))
    elif b == "hist":
        n = block["hosts"]
        acts = [["s", i, p] for i in range(-2, n + 2) for p in ((3, 7) if -1 <= i < n else (0,))]
        acts += [["u", i, p] for i in range(n) for p in (0, 9)]
        acts += [["r", i, 0] for i in range(-2, n + 1)]
        for i, first in enumerate(acts):
            if i % block["of"] != block["part"]:
                continue
            for d in range(block["depth"]):
                for rest in itertools.product(acts, repeat=d):
                    go(dict(k="hist", hosts=n, acts=[first] + list(rest)), steps=d + 1)
    elif b == "sched":
        base = dict(k="sched", hosts=block["hosts"], cap=block["cap"], chunk=block["chunk"],
                    objs=block["objs"])

        def run(ch):
            case = dict(base, choices=ch.prefix)
            s = ctx.case(case, lambda: run_schedule(case, ch), steps=0)
            if s is not None:
                ctx.step(s.steps)
                ctx.state((base, tuple(c[0] for c in ch.trace)))
        core.explore_choices(run, block["bound"], lambda ch, r: None)
    elif b == "size":
        for a in block["around"]:
            for n in (a - 1, a, a + 1):
                go(dict(k="size", n=n, dir=block["dir"]))
    elif b == "many":
        for n in (1, 2, 3, 4, 5, 8, 11, 12) + ((17, 33) if block["big"] else ()):
            for lag in (1, 2, 3, 7):
                for chunk in (None, 64) + ((7,) if block["big"] else ()):
                    go(dict(k="many", hosts=n, rounds=14 if n < 8 else 5, lag=lag, chunk=chunk, kinds=block["kinds"]))
        go(dict(k="many", hosts=2, rounds=400, lag=3, chunk=None, kinds=block["kinds"]))
        go(dict(k="many", hosts=1, rounds=1100, lag=1, chunk=None, kinds=block["kinds"]))
    elif b == "dead":
        for p in range(len(ps)):
            for cap in (None, 1, 10, 16, 20, 100):
                for reads in (0, 1, 2):
                    if cap is not None and len(pickle.dumps(ps[p])) / cap < 3000 or cap is None:
                        go(dict(k="dead", p=p, cap=cap, reads=reads))
