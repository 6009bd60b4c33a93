"""Common ground of the demonstrations: runs the repository in the current directory."""
import ctypes
import math
import os
import pickle
import queue
import shutil
import sys
import tempfile
import threading
import types
import warnings

REPO = os.getcwd()
sys.dont_write_bytecode = True
sys.pycache_prefix = tempfile.mkdtemp(prefix="demo-")
os.chdir(sys.pycache_prefix)                       # log files land in the scratch directory
os.environ["PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION"] = "python"
warnings.filterwarnings("ignore")
sys.path.insert(0, REPO)
sys.path.append("/opt/venv/lib/python3.12/site-packages")

import numpy as np  # noqa: E402


def _module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules.setdefault(name, m)


def _is_prime(n, k=25):
    n = int(n)
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _next_prime(n):
    n = int(n) + 1
    while not _is_prime(n):
        n += 1
    return n


def _invert(a, b):
    try:
        return pow(int(a), -1, int(b))
    except ValueError:
        raise ZeroDivisionError("no inverse exists")


class _State:
    pass


_module("gmpy2", mpz=int, powmod=lambda a, b, c: pow(int(a), int(b), int(c)), invert=_invert, is_prime=_is_prime,
        next_prime=_next_prime, isqrt=math.isqrt, random_state=lambda seed=0: _State(),
        mpz_urandomb=lambda st, bits: __import__("random").SystemRandom().getrandbits(bits),
        bit_set=lambda x, b: int(x) | (1 << b))


def _jit(*a, **k):
    return a[0] if a and callable(a[0]) else (lambda f: f)


_module("numba", jit=_jit, njit=_jit)

# numpy 1.21: float()/int() of a one-element array
_U = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)


@_U
def _nb_float(a):
    return float(a.item()) if a.size == 1 else None


@_U
def _nb_int(a):
    return int(a.item()) if a.size == 1 else None


try:
    float(np.zeros(1))
except TypeError:
    _nums = ctypes.c_void_p.from_address(id(np.ndarray) + 12 * 8).value
    for _i, _f in ((16, _nb_int), (18, _nb_float)):
        ctypes.c_void_p.from_address(_nums + _i * 8).value = ctypes.cast(_f, ctypes.c_void_p).value
_array = np.array


def _ragged(obj, *a, **k):
    try:
        return _array(obj, *a, **k)
    except ValueError as e:
        if "inhomogeneous" in str(e) and not a and "dtype" not in k:
            return _array(obj, dtype=object, **k)
        raise


np.array = _ragged
np.seterr(all="ignore")
import logging  # noqa: E402
logging.raiseExceptions = False
logging.disable(logging.CRITICAL)
from ml.utils import logger as _logger  # noqa: E402
for _k in _logger.LOGGER.mask:
    _logger.LOGGER.mask[_k] = False


def _leave(code):
    sys.stdout.flush()
    os.chdir("/")
    shutil.rmtree(sys.pycache_prefix, True)
    os._exit(code)


def check(cond, msg=""):
    if not cond:
        print("DEMO FAILED:", msg)
        _leave(1)


def done():
    print("demo passed")
    _leave(0)


def close(a, b, tol=1e-6):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


# ---------------------------------------------------------------- parties as threads
class _Guest:
    def __init__(self, down, up, log):
        self.down, self.up, self.log = down, up, log

    def send_data_to_hosts(self, data, index):
        for i in (range(len(self.down)) if index == -1 else [index]):
            self.log.append(("guest", i, data))
            self.down[i].put(pickle.dumps(data))

    def recv_data_from_hosts(self, index):
        if index == -1:
            return [pickle.loads(c.get(timeout=60)) for c in self.up]
        return pickle.loads(self.up[index].get(timeout=60))


class _Host:
    def __init__(self, i, down, up, log):
        self.i, self.down, self.up, self.log = i, down, up, log

    def send_data_to_guest(self, data):
        self.log.append(("host", self.i, data))
        self.up[self.i].put(pickle.dumps(data))

    def recv_data_from_guest(self):
        return pickle.loads(self.down[self.i].get(timeout=60))


def parties(nhosts):
    down = [queue.Queue() for _ in range(nhosts)]
    up = [queue.Queue() for _ in range(nhosts)]
    log = []
    return _Guest(down, up, log), [_Host(i, down, up, log) for i in range(nhosts)], log


def run(*fns, timeout=120):
    """Run one function per party; any failure or a hang fails the demonstration."""
    errors = []

    def wrap(f):
        try:
            f()
        except BaseException as e:
            import traceback
            errors.append("%r\n%s" % (e, traceback.format_exc(limit=-4)))
    ts = [threading.Thread(target=wrap, args=(f,), daemon=True) for f in fns]
    for t in ts:
        t.start()
    for t in ts:
        while t.is_alive() and not errors and timeout > 0:
            t.join(0.05)
            timeout -= 0.05
    check(not errors, "a party failed: " + "; ".join(errors)[:1500])
    check(timeout > 0, "the parties are stuck")


from computing.d_table import DTable  # noqa: E402
from ml.feature.instance import Instance  # noqa: E402
from ml.feature.sparse_vector import SparseVector  # noqa: E402


def sparse(values):
    idx = [f for f, v in enumerate(values) if v != 0]
    return SparseVector(idx, [values[f] for f in idx], len(values))


def table(rows, labels=None, ids=None, as_sparse=False):
    ids = ids or ["k%d" % i for i in range(len(rows))]
    t = DTable(True, [(k, Instance(inst_id=k, features=sparse(r) if as_sparse else np.array(r, dtype=float),
                                   label=None if labels is None else labels[i])) for i, (k, r) in enumerate(zip(ids, rows))])
    t.schema["header"] = ["x%d" % f for f in range(len(rows[0]))]
    return t


def tree_param(depth=3, lam=0.1, leaf=1, split=2, impurity=1e-3, batch=65536, importance="split"):
    from ml.param.boosting_tree_param import DecisionTreeParam
    return DecisionTreeParam(criterion_params=[lam], max_depth=depth, min_sample_split=split, min_imputiry_split=impurity,
                             min_leaf_node=leaf, max_split_nodes=batch, feature_importance_type=importance)


class Plain:
    """No encryption."""
    def encrypt(self, v):
        return v

    decrypt = encrypt


def binned(rows):
    return DTable(True, [("k%d" % i, Instance(inst_id=i, features=sparse(r))) for i, r in enumerate(rows)])


def points(bins):
    out = np.empty(len(bins), dtype=object)
    for f, n in enumerate(bins):
        out[f] = _array([b + 0.5 for b in range(n - 1)])
    return out


def grow(guest, hosts, gh, param, bins=4, valid=None, runtime=None):
    """Fit one tree on bin numbers (bin 0 = absent); thresholds are b + 0.5.  Returns guest tree, host trees, log."""
    from ml.secureprotol.encrypt_mode import EncryptModeCalculator
    from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
    from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
    ge, hes, log = parties(len(hosts))
    g = HeteroDecisionTreeGuest(param)
    hs = [HeteroDecisionTreeHost(param) for _ in hosts]

    def guest_side():
        nf = len(guest[0])
        g.set_inputinfo(binned(guest), DTable(True, [("k%d" % i, x) for i, x in enumerate(gh)]), points([bins] * nf),
                        {f: 0 for f in range(nf)})
        g.set_valid_features((valid or {}).get("g", [True] * nf))
        g.set_encrypter(Plain())
        g.set_encrypted_mode_calculator(EncryptModeCalculator(Plain(), "strict", 1))
        g.set_flowid("0.0")
        g.set_transfer_inst(ge)
        g.fit()

    def host_side(i):
        nf = len(hosts[i][0])
        h = hs[i]
        h.set_inputinfo(data_bin=binned(hosts[i]), bin_split_points=points([bins] * nf), bin_sparse_points={f: 0 for f in range(nf)})
        h.set_flowid("0.0")
        h.set_runtime_idx(i if runtime is None else runtime[i])
        h.set_valid_features((valid or {}).get(i, [True] * nf))
        h.set_transfer_inst(hes[i])
        h.fit()
    run(guest_side, *[lambda i=i: host_side(i) for i in range(len(hosts))])
    return g, hs, log


def tree_predict(g, hs, guest, hosts, param, runtime=None):
    """Predict with exported models; rows are bin numbers."""
    from ml.tree.hetero_decision_tree_guest import HeteroDecisionTreeGuest
    from ml.tree.hetero_decision_tree_host import HeteroDecisionTreeHost
    ge, hes, log = parties(len(hosts))
    out = {}

    def gs():
        t = HeteroDecisionTreeGuest(param)
        t.load_model(*g.get_model())
        t.set_flowid("0.0")
        t.set_transfer_inst(ge)
        out.update(t.predict(binned(guest)).collect())

    def hside(i):
        t = HeteroDecisionTreeHost(param)
        t.load_model(*hs[i].get_model())
        t.set_flowid("0.0")
        t.set_runtime_idx(i if runtime is None else runtime[i])
        t.set_transfer_inst(hes[i])
        t.predict(binned(hosts[i]))
    run(gs, *[lambda i=i: hside(i) for i in range(len(hosts))])
    return [out["k%d" % i] for i in range(len(guest))]


def no_keys():
    from ml.secureprotol.encrypt import PaillierEncrypt
    PaillierEncrypt.generate_key = lambda self, n_length=1024: None
    PaillierEncrypt.encrypt = lambda self, value: value
    PaillierEncrypt.decrypt = lambda self, value: value


def boost_param(task="classification", objective="cross_entropy", params=None, trees=2, lr=0.3, bins=4, tol=1e-4,
                rate=1.0, stop=True, mode="strict", threshold=0.5, tree=None):
    from ml.param.boosting_tree_param import BoostingTreeParam, ObjectiveParam
    from ml.param.encrypt_param import EncryptParam
    from ml.param.encrypted_mode_calculation_param import EncryptedModeCalculatorParam
    from ml.param.predict_param import PredictParam
    return BoostingTreeParam(tree_param=tree or tree_param(2), task_type=task, objective_param=ObjectiveParam(objective, params),
                             learning_rate=lr, num_trees=trees, subsample_feature_rate=rate, n_iter_no_change=stop, tol=tol,
                             encrypt_param=EncryptParam(key_length=256), bin_num=bins,
                             encrypted_mode_calculator_param=EncryptedModeCalculatorParam(mode, 1),
                             predict_param=PredictParam(threshold=threshold))


def boost(guest, labels, hosts, param, test=None, as_sparse=False, keys=False):
    """Train (and predict on test = (guest rows, [host rows])); returns guest, hosts, predictions, log."""
    from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest
    from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost
    if not keys:
        no_keys()
    ge, hes, log = parties(len(hosts))
    g = HeteroSecureBoostingTreeGuest()
    hs = [HeteroSecureBoostingTreeHost() for _ in hosts]
    out = {}

    def gs():
        g._init_model(param)
        g.set_transfer_inst(ge)
        g.fit(table(guest, labels, as_sparse=as_sparse))
        out["F"] = {k: np.ravel(v).tolist() for k, v in g.F.collect()}
        if test:
            out["pred"] = dict(g.predict(table(test[0], [labels[0]] * len(test[0]), as_sparse=as_sparse)).collect())

    def hside(i):
        hs[i]._init_model(param)
        hs[i].set_transfer_inst(hes[i])
        hs[i].set_runtime_idx(i)
        hs[i].fit(table(hosts[i], as_sparse=as_sparse))
        if test:
            hs[i].predict(table(test[1][i], as_sparse=as_sparse))
    run(gs, *[lambda i=i: hside(i) for i in range(len(hosts))])
    return g, hs, out, log
