"""Drives the repository's real guest and host code under the controlled scheduler.

Tree level: HeteroDecisionTreeGuest / HeteroDecisionTreeHost over in-memory channels that
pickle every message (so no object is shared between parties).
Booster level: HeteroSecureBoostingTreeGuest / Host over simulated sockets and the real
transport.
"""
import contextlib
import pickle
import random as _pyrandom

import numpy as np

from mc import core, sim
from mc.core import Violation, expect

from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.param.boosting_tree_param import DecisionTreeParam, BoostingTreeParam, ObjectiveParam
from ml.param.encrypt_param import EncryptParam
from ml.param.encrypted_mode_calculation_param import EncryptedModeCalculatorParam
from ml.param.predict_param import PredictParam
from ml.secureprotol import encrypt as _encrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator
from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
from ml.utils import consts


# ---------------------------------------------------------------------------
# in-memory transport (messages are pickled)
# ---------------------------------------------------------------------------
class Log:
    """Everything that crossed the party boundary: (sender, receiver, pickled bytes)."""

    def __init__(self):
        self.items = []

    def add(self, src, dst, blob):
        self.items.append((src, dst, blob))


class GuestEnd:
    def __init__(self, down, up, log=None):
        self.down, self.up, self.log = down, up, log

    def _sel(self, chans, index):
        if index == -1:
            return list(enumerate(chans))
        if not 0 <= index < len(chans):
            raise ValueError("host index %r" % (index,))
        return [(index, chans[index])]

    def send_data_to_hosts(self, data, index):
        for i, c in self._sel(self.down, index):
            blob = pickle.dumps(data)
            if self.log is not None:
                self.log.add("guest", "host%d" % i, blob)
            c.put(blob)

    def recv_data_from_hosts(self, index):
        got = [pickle.loads(c.get()) for _, c in self._sel(self.up, index)]
        return got if index == -1 else got[0]


class HostEnd:
    def __init__(self, idx, down, up, log=None):
        self.idx, self.down, self.up, self.log = idx, down, up, log

    def send_data_to_guest(self, data):
        blob = pickle.dumps(data)
        if self.log is not None:
            self.log.add("host%d" % self.idx, "guest", blob)
        self.up.put(blob)

    def recv_data_from_guest(self):
        return pickle.loads(self.down.get())


def channels(s, nhosts, capacity=None):
    return ([sim.Channel(s, "guest->host%d" % i, capacity) for i in range(nhosts)],
            [sim.Channel(s, "host%d->guest" % i, capacity) for i in range(nhosts)])


def run_parties(s, allow_errors=False):
    """Run and turn every abnormal ending into a Violation."""
    try:
        s.run()
    except (sim.Deadlock, sim.Horizon) as e:
        errs = ["%s failed with %r" % (p.name, p.error) for p in s.parties if p.error is not None]
        raise Violation("the parties are stuck (%s)%s" % (e, "; " + "; ".join(errs) if errs else ""))
    if not allow_errors:
        for p in s.parties:
            if isinstance(p.error, (core.HarnessError, core.CaseTimeout)):
                raise p.error
            if p.error is not None:
                e = p.error
                tb = e.__traceback__
                frames = []
                while tb is not None:
                    frames.append("%s:%d" % (tb.tb_frame.f_code.co_filename.replace("/repo/", ""), tb.tb_lineno))
                    tb = tb.tb_next
                if isinstance(e, Violation):
                    raise e
                raise Violation("%s failed: %s: %s (%s)" % (p.name, type(e).__name__, e, " <- ".join(reversed(frames[-6:]))))
    return s


# ---------------------------------------------------------------------------
# data
# ---------------------------------------------------------------------------
def objarr(lists, dtype=float):
    out = np.empty(len(lists), dtype=object)
    for i, x in enumerate(lists):
        out[i] = np.array(x, dtype=dtype)
    return out


def sparse_row(values, skip):
    """SparseVector holding the entries that differ from skip[f] (None: hold all)."""
    idx = [f for f, v in enumerate(values) if skip is None or v != skip[f]]
    return SparseVector(idx, [values[f] for f in idx], len(values))


def bin_table(ids, cols_by_row, sparse_bins, dense):
    rows = []
    for k, vals in zip(ids, cols_by_row):
        rows.append((k, Instance(inst_id=k, features=sparse_row(vals, None if dense else sparse_bins))))
    return DTable(True, rows)


class Party:
    """One party's columns for a tree: rows of bin numbers, thresholds, zero bins, mask."""

    def __init__(self, rows, nbins, sparse=None, dense=False, valid=None, thresholds=None):
        self.rows = rows                              # rows[i][f] = bin number
        self.nf = len(rows[0]) if rows else 0
        self.nbins = [nbins] * self.nf if isinstance(nbins, int) else list(nbins)
        self.sparse = list(sparse) if sparse is not None else [0] * self.nf
        self.dense = dense
        self.valid = list(valid) if valid is not None else [True] * self.nf
        # bin b of feature f holds values in (t[b-1], t[b]]; the last bin is open above
        self.thresholds = thresholds or [[10.0 * f + b + 0.5 for b in range(self.nbins[f] - 1)] for f in range(self.nf)]

    def table(self, ids):
        return bin_table(ids, self.rows, self.sparse, self.dense)

    def split_points(self):
        return objarr(self.thresholds)

    def sparse_points(self):
        return {f: b for f, b in enumerate(self.sparse)}


def tree_param(max_depth=3, min_sample_split=2, min_leaf_node=1, min_impurity_split=1e-3, lam=0.1,
               max_split_nodes=65536, importance="split"):
    return DecisionTreeParam(criterion_params=[lam], max_depth=max_depth, min_sample_split=min_sample_split,
                             min_imputiry_split=min_impurity_split, min_leaf_node=min_leaf_node,
                             max_split_nodes=max_split_nodes, feature_importance_type=importance)


class Plain:
    """Counts cryptographic operations and otherwise leaves numbers alone."""

    def __init__(self):
        self.encrypted = self.decrypted = 0

    def encrypt(self, v):
        self.encrypted += 1
        return v

    def decrypt(self, v):
        self.decrypted += 1
        return v


# ---------------------------------------------------------------------------
# one tree
# ---------------------------------------------------------------------------
def fit_tree(ids, guest, hosts, gh, param, encrypter=None, calculator=None, chooser=None, log=None,
             capacity=None, site_idx=None, host_param=None):
    """Fit one tree; returns (guest tree, [host trees], sim)."""
    s = sim.Sim(chooser, horizon=200000)
    down, up = channels(s, len(hosts), capacity)
    enc = encrypter or Plain()
    calc = calculator or EncryptModeCalculator(enc, "strict", 1)
    gtab = DTable(True, list(zip(ids, [tuple(x) for x in gh])))
    out = {}

    def run_guest():
        t = HeteroDecisionTreeGuest(param)
        t.set_inputinfo(guest.table(ids), gtab, guest.split_points(), guest.sparse_points())
        t.set_valid_features(list(guest.valid))
        t.set_encrypter(enc)
        t.set_encrypted_mode_calculator(calc)
        t.set_flowid("0.0")
        t.set_transfer_inst(GuestEnd(down, up, log))
        t.fit()
        out["g"] = t

    def run_host(i):
        h = hosts[i]
        t = HeteroDecisionTreeHost(host_param or param)
        t.set_inputinfo(data_bin=h.table(ids), bin_split_points=h.split_points(), bin_sparse_points=h.sparse_points())
        t.set_flowid("0.0")
        t.set_runtime_idx(i if site_idx is None else site_idx[i])
        t.set_valid_features(list(h.valid))
        t.set_transfer_inst(HostEnd(i, down[i], up[i], log))
        t.fit()
        out[i] = t

    s.spawn("guest", run_guest)
    for i in range(len(hosts)):
        s.spawn("host%d" % i, lambda i=i: run_host(i))
    run_parties(s)
    for c in down + up:
        expect(not c.items, "%d messages were never received on %s", len(c.items), c.name)
    return out["g"], [out[i] for i in range(len(hosts))], s


class _OneStep:
    steps = 1


def joined_party(parties):
    """One party with everybody's columns."""
    return Party([sum(rs, []) for rs in zip(*([list(r) for r in p.rows] for p in parties))], sum((p.nbins for p in parties), []),
                 sparse=sum((p.sparse for p in parties), []), dense=parties[0].dense, valid=sum((p.valid for p in parties), []))


def fit_alone(ids, party, gh, param):
    """Fit one standalone tree."""
    from xgboost.hetero_decision_tree_guest import HeteroDecisionTreeGuest as AloneTree
    t = AloneTree(param)
    t.set_inputinfo(party.table(ids), DTable(True, list(zip(ids, [tuple(x) for x in gh]))), party.split_points(), party.sparse_points())
    t.set_valid_features(list(party.valid))
    enc = Plain()
    t.set_encrypter(enc)
    t.set_encrypted_mode_calculator(EncryptModeCalculator(enc, "strict", 1))
    t.set_flowid("0.0")
    t.fit()
    return t


def predict_alone(model, ids, rows, param):
    from xgboost.hetero_decision_tree_guest import HeteroDecisionTreeGuest as AloneTree
    t = AloneTree(param)
    t.load_model(*model)
    t.set_flowid("0.0")
    res = t.predict(DTable(True, [(k, Instance(inst_id=k, features=sparse_row(list(r), [0] * len(r)))) for k, r in zip(ids, rows)]))
    return dict(res.collect())


def predict_tree(models, ids, guest_rows, host_rows, param, chooser=None, log=None, site_idx=None):
    """models: [(meta, param) guest, host0, ...]; rows of REAL feature values (0 = absent)."""
    s = sim.Sim(chooser, horizon=200000)
    n = len(host_rows)
    down, up = channels(s, n)
    out = {}

    def table(rows):
        return DTable(True, [(k, Instance(inst_id=k, features=sparse_row(list(r), [0] * len(r)))) for k, r in zip(ids, rows)])

    def run_guest():
        t = HeteroDecisionTreeGuest(param)
        t.load_model(*models[0])
        t.set_flowid("0.0")
        t.set_transfer_inst(GuestEnd(down, up, log))
        out["g"] = t.predict(table(guest_rows))

    def run_host(i):
        t = HeteroDecisionTreeHost(param)
        t.load_model(*models[1 + i])
        t.set_flowid("0.0")
        t.set_runtime_idx(i if site_idx is None else site_idx[i])
        t.set_transfer_inst(HostEnd(i, down[i], up[i], log))
        t.predict(table(host_rows[i]))

    s.spawn("guest", run_guest)
    for i in range(n):
        s.spawn("host%d" % i, lambda i=i: run_host(i))
    run_parties(s)
    for c in down + up:
        expect(not c.items, "%d messages were never received on %s", len(c.items), c.name)
    return dict(out["g"].collect())


# ---------------------------------------------------------------------------
# reading an exported tree
# ---------------------------------------------------------------------------
class TreeView:
    """A fitted tree put together from the models the parties export."""

    def __init__(self, gmodel, hmodels, site_idx=None):
        meta, p = gmodel
        self.nodes = {}
        for n in p.tree_:
            expect(n.id not in self.nodes, "node id %d occurs twice", n.id)
            self.nodes[n.id] = n
        self.masks = {"guest": dict(p.split_maskdict)}
        for i, (hmeta, hp) in enumerate(hmodels):
            self.masks["host.%d" % (i if site_idx is None else site_idx[i])] = dict(hp.split_maskdict)
        self.hparams = [hp for _, hp in hmodels]

    def check_shape(self):
        expect(0 in self.nodes, "no root")
        seen = []

        def walk(nid, depth):
            expect(nid in self.nodes, "node %d does not exist", nid)
            expect(nid not in seen, "node %d is reached twice", nid)
            seen.append(nid)
            n = self.nodes[nid]
            if n.is_leaf:
                return depth
            return max(walk(n.left_nodeid, depth + 1), walk(n.right_nodeid, depth + 1))
        depth = walk(0, 1)
        expect(sorted(seen) == sorted(self.nodes), "nodes %r are not reachable", sorted(set(self.nodes) - set(seen)))
        return depth

    def owner(self, n):
        """0 = guest, 1.. = hosts."""
        if n.sitename == consts.GUEST:
            return 0
        keys = [k for k in self.masks if k != "guest"]
        expect(n.sitename in keys, "node %d belongs to unknown site %r", n.id, n.sitename)
        return 1 + keys.index(n.sitename)

    def threshold(self, n):
        m = self.masks["guest" if n.sitename == consts.GUEST else n.sitename]
        expect(n.id in m, "site %s has no threshold for its node %d", n.sitename, n.id)
        return m[n.id]


    def path(self, rows):
        """Leaf reached by an instance; rows = real feature values of guest, host0, ..."""
        nid = 0
        for _ in range(len(self.nodes) + 1):
            n = self.nodes[nid]
            if n.is_leaf:
                return n
            v = rows[self.owner(n)][n.fid]
            nid = n.left_nodeid if v <= self.threshold(n) else n.right_nodeid
        raise Violation("the tree has a cycle")


# ---------------------------------------------------------------------------
# whole models over simulated sockets
# ---------------------------------------------------------------------------
class FakeKeys:
    """Identity encryption behind the PaillierEncrypt class (for exhaustive numeric runs)."""

    @staticmethod
    @contextlib.contextmanager
    def on():
        cls = _encrypt.PaillierEncrypt
        saved = {k: cls.__dict__.get(k) for k in ("generate_key", "encrypt", "decrypt")}
        cls.generate_key = lambda self, n_length=1024: None
        cls.encrypt = lambda self, value: value
        cls.decrypt = lambda self, value: value
        try:
            yield
        finally:
            for k, v in saved.items():
                if v is None:
                    delattr(cls, k)
                else:
                    setattr(cls, k, v)


_KEYS = {}


@contextlib.contextmanager
def small_keys(bits=256):
    """Real Paillier with one small key pair per process (key generation is C07's business)."""
    from ml.secureprotol.fate_paillier import PaillierKeypair
    saved = PaillierKeypair.__dict__["generate_keypair"]
    if bits not in _KEYS:
        _KEYS[bits] = PaillierKeypair.generate_keypair(bits)
    PaillierKeypair.generate_keypair = staticmethod(lambda n_length=1024: _KEYS[bits])
    try:
        yield _KEYS[bits]
    finally:
        PaillierKeypair.generate_keypair = saved


@contextlib.contextmanager
def real_keys():
    yield


def boost_param(task="classification", objective="cross_entropy", params=None, num_trees=2, lr=0.3, bin_num=4,
                rate=1.0, n_iter_no_change=True, tol=1e-4, mode="strict", re_rate=1, threshold=0.5, tree=None,
                key_length=256):
    p = BoostingTreeParam(tree_param=tree or tree_param(max_depth=2), task_type=task,
                          objective_param=ObjectiveParam(objective, params), learning_rate=lr, num_trees=num_trees,
                          subsample_feature_rate=rate, n_iter_no_change=n_iter_no_change, tol=tol,
                          encrypt_param=EncryptParam(key_length=key_length), bin_num=bin_num,
                          encrypted_mode_calculator_param=EncryptedModeCalculatorParam(mode, re_rate),
                          predict_param=PredictParam(threshold=threshold))
    return p


def dense_table(ids, rows, labels=None):
    items = [Instance(inst_id=k, features=np.array(r, dtype=float), label=None if labels is None else labels[i])
             for i, (k, r) in enumerate(zip(ids, rows))]
    t = DTable(True, list(zip(ids, items)))
    t.schema["header"] = ["x%d" % f for f in range(len(rows[0]))]
    return t


def raw_sparse_table(ids, rows, labels=None):
    items = [Instance(inst_id=k, features=sparse_row([float(v) for v in r], [0.0] * len(r)),
                      label=None if labels is None else labels[i]) for i, (k, r) in enumerate(zip(ids, rows))]
    t = DTable(True, list(zip(ids, items)))
    t.schema["header"] = ["x%d" % f for f in range(len(rows[0]))]
    return t


class Boost:
    """Guest and hosts of one training (and prediction) run over simulated sockets."""

    def __init__(self, ids, guest_rows, labels, host_rows, param, test=None, chooser=None, capacity=None,
                 recv_limit=None, sparse=False, crash=None, host_param=None, on_party=None, site_idx=None,
                 tap=None, horizon=3000000, host_order=None, parts=None, more=(), world=None, port=12345):
        from federation.transfer_inst import TransferInstGuest, TransferInstHost
        from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
        from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
        # several trainings may share one world (and then one process) on ports of their own
        self.sim = s = world or sim.Sim(chooser, capacity=capacity, recv_limit=recv_limit, horizon=horizon)
        self.nhosts = n = len(host_rows)
        self.out = {}
        self.models = {}
        plain = raw_sparse_table if sparse else dense_table
        test_ids = None if test is None else test["ids"]

        def table(*a):
            t = plain(*a)
            if parts is None:
                return t
            from mc.parts import PartTable
            pt = PartTable(True, list(t.collect()), parts, 1 + max(parts.values()))
            pt.schema = t.schema
            return pt

        def wrap(name, inst):
            return inst if tap is None else tap(name, inst)

        def guest():
            tr = wrap("guest", TransferInstGuest(port, n))
            m = HeteroSecureBoostingTreeGuest()
            m._init_model(param)
            m.set_transfer_inst(tr)
            self.models["g"] = m
            train = table(ids, guest_rows, labels)
            m.fit(train)
            self.out["train_F"] = {k: np.array(v, dtype=float).copy() for k, v in m.F.collect()}
            if test is not None:
                res = m.predict(table(test_ids, test["guest"], test.get("labels")))
                self.out["pred"] = dict(res.collect())
                self.out["pred_F"] = {k: np.array(v, dtype=float).copy() for k, v in m.F.collect()}
            self.out["more"] = []
            for t in more:
                res = m.predict(table(t["ids"], t["guest"], t.get("labels")))
                self.out["more"].append((dict(res.collect()), {k: np.array(v, dtype=float).copy() for k, v in m.F.collect()}))

        def host(i):
            tr = wrap("host%d" % i, TransferInstHost(port=port))
            m = HeteroSecureBoostingTreeHost()
            m._init_model(host_param or param)
            m.set_transfer_inst(tr)
            m.set_runtime_idx(i if site_idx is None else site_idx[i])
            self.models[i] = m
            order = range(len(ids)) if host_order is None else host_order[i]
            m.fit(table([ids[j] for j in order], [host_rows[i][j] for j in order]))
            if test is not None:
                m.predict(table(test_ids, test["hosts"][i]))
            for t in more:
                m.predict(table(t["ids"], t["hosts"][i]))

        ps = [s.spawn("guest", guest)] + [s.spawn("host%d" % i, lambda i=i: host(i)) for i in range(n)]
        if crash is not None:
            ps[crash[0]].crash_at = crash[1]

    def run(self, allow_errors=False):
        run_parties(self.sim, allow_errors)
        if not allow_errors:
            for i, (a, b, _) in enumerate(self.sim.conns):
                expect(not a.buf and not b.buf, "bytes were left unread on connection %d", i)
        return self


def summary(b):
    """What a run produced, as a comparable value."""
    def tree(p):
        return [(n.id, n.sitename, n.fid, round(n.bid, 9), round(n.weight, 9), n.is_leaf, n.left_nodeid, n.right_nodeid)
                for n in p.tree_], sorted((k, round(v, 9)) for k, v in p.split_maskdict.items())
    g = b.models["g"]
    return dict(trees=[tree(t) for t in g.trees_],
                hosts=[[tree(t) for t in b.models[i].trees_] for i in range(b.nhosts)],
                loss=[round(float(x), 9) for x in g.history_loss],
                F={repr(k): [round(float(x), 9) for x in np.ravel(v)] for k, v in b.out["train_F"].items()},
                pred={repr(k): [repr(v[1]), [round(float(x), 9) for x in np.ravel(v[2])]] for k, v in b.out.get("pred", {}).items()})


class SeededSystemRandom(_pyrandom.Random):
    def __init__(self, *a):
        super().__init__(20231118)


@contextlib.contextmanager
def choice_all():
    """Feature sampling keeps the lowest numbered features (used with rate < 1 only)."""
    saved = np.random.choice
    np.random.choice = lambda a, size=None, replace=True, p=None: np.array(list(a)[:size])
    try:
        yield
    finally:
        np.random.choice = saved
