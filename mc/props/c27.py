"""C27 - convergence tests, vector helpers and the row containers."""
import itertools
import math
import pickle

import numpy as np

from mc import compat, core, scale
from mc.core import expect, close
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.optim.convergence import AbsConverge, DiffConverge, WeightDiffConverge
from ml.utils import fate_operator

META = dict(
    title="Training is called converged exactly when the last change is below tolerance",
    statement="For every sequence of losses the difference test says converged exactly when a previous loss is known and differs from the present one by less than the tolerance, the absolute test exactly when the loss is not above it, and the weight test exactly when the weights moved by less than the tolerance times the larger of 1 and their length; every test always compares with the immediately preceding value, keeps no other history, and shares nothing with another test object. Dot products, sums with missing parts and p-norms are those of the vectors, for lists, arrays, matrices and instances, and change no operand. A sparse row answers for every position with the value stored there or the default, counts its entries and holes, and lists exactly its entries; a row keeps its id, weight, features and label; both arrive unchanged when sent.",
    quantifier=dict(over=["histories", "inputs"], text="all loss and weight sequences of up to five steps over pools around the tolerance, several tolerances and start values, two interleaved objects; all vectors and small matrices over a pool; all sparse rows of up to five positions; sequences, vectors, matrices and rows of up to 300, sizes enumerated"),
    why_tests_cant="Stopping depends on the whole sequence of losses: a test that keeps a stale or best-so-far value agrees with the right one on monotone sequences and stops training at the wrong round on others.",
    anchors=dict(files=["ml/optim/convergence.py", "ml/utils/fate_operator.py", "ml/feature/sparse_vector.py", "ml/feature/instance.py"],
                 state=[dict(name="pre_loss, pre_weight", meaning="value of the previous round", where="ml/optim/convergence.py")],
                 mechanism=[dict(name="tests", where="DiffConverge, AbsConverge, WeightDiffConverge"), dict(name="vectors", where="dot, reduce_add, norm"), dict(name="rows", where="SparseVector, Instance")],
                 observe_at=["is_converge", "returned numbers", "get_data, get_all_data, counts"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive enumeration of value sequences, vectors and rows against their definitions",
    level_note="Exhaustive over the stated pools; tolerances and values are exact binary fractions, so that equality with the tolerance is decided too.",
    bounds=dict(quick=dict(steps=5, vector=4, positions=5), thorough=dict(steps=6, vector=4, positions=6)),
    rule="a case is a sequence, a pair of vectors or a row; states are distinct cases",
    assumptions=["vectors in a sum have the same length", "entries of a dot product below 1e-5 may count as 0"],
)


def run_seq(case):
    eps = case["eps"]
    kind = case["kind"]
    if kind == "abs":
        c = AbsConverge(eps=eps)
        got = [bool(c.is_converge(v)) for v in case["seq"]]
        want = [v <= eps for v in case["seq"]]
    elif kind == "diff":
        c = DiffConverge(eps=eps) if case["pre"] is None else DiffConverge(pre_loss=case["pre"], eps=eps)
        got, want, prev = [], [], case["pre"]
        for v in case["seq"]:
            got.append(bool(c.is_converge(v)))
            want.append(prev is not None and abs(prev - v) < eps)
            prev = v
    else:
        vec = lambda v: np.array(v, dtype=float)   # noqa: E731
        c = WeightDiffConverge(eps=eps) if case["pre"] is None else WeightDiffConverge(pre_weight=vec(case["pre"]), eps=eps)
        got, want, prev = [], [], case["pre"]
        for v in case["seq"]:
            a = vec(v)
            got.append(bool(c.is_converge(a)))
            expect(a.tolist() == [float(x) for x in v], "the test changed the weights")
            if prev is None:
                want.append(False)
            else:
                d, n = math.dist(prev, v), max(math.hypot(*v), 1)
                want.append(None if abs(d - eps * n) < 1e-9 and d != eps * n or (len(v) > 1 and abs(d - eps * n) < 1e-9) else d < eps * n)
            prev = v
    for i, (g, w) in enumerate(zip(got, want)):
        expect(w is None or g == w, "after %r (tolerance %r, start %r) the answer is %r", case["seq"][:i + 1], eps, case["pre"], g)
    return got


def run_two(case):
    """Two interleaved tests do not see each other's values."""
    cls = dict(diff=DiffConverge, abs=AbsConverge)[case["kind"]]
    a, b = cls(eps=case["eps"]), cls(eps=case["eps"])
    seq = case["seq"]
    got = [], []
    for i, v in enumerate(seq):
        got[case["who"][i]].append(bool((a, b)[case["who"][i]].is_converge(v)))
    for w in (0, 1):
        mine = [v for i, v in enumerate(seq) if case["who"][i] == w]
        c = cls(eps=case["eps"])
        expect(got[w] == [bool(c.is_converge(v)) for v in mine], "interleaved with another, %r is judged %r", mine, got[w])
    return got


def run_vec(case):
    x, w = case["x"], case["w"]
    form = case["form"]
    X = dict(list=lambda: list(x), array=lambda: np.array(x), inst=lambda: Instance(features=np.array(x)))[form]()
    W = np.array(w)
    keep = repr((x, w))
    got = fate_operator.dot(X, W)
    if x and isinstance(x[0], list):
        want = [sum(a * b for a, b in zip(r, w)) for r in x]
        expect(np.shape(got) == (len(x),), "the product has shape %r", np.shape(got))
    else:
        want = [sum(a * b for a, b in zip(x, w))]
        got = [got]
    slack = 1e-5 * sum(abs(v) for v in w) + 1e-12
    for g, v in zip(got, want):
        expect(abs(float(g) - v) <= slack + 1e-12 * abs(v), "%r times %r is %r", x, w, got)
    expect(repr((x, W.tolist())) == keep and repr(X.features.tolist() if form == "inst" else list(X) if form == "list" else X.tolist()) == repr(x), "the product changed an operand")
    return [round(float(g), 9) for g in got]


def run_mat(case):
    got = fate_operator.dot(np.array(case["x"]), np.array(case["w"]))
    want = [[sum(a * b for a, b in zip(r, c)) for c in zip(*case["w"])] for r in case["x"]]
    expect(np.allclose(got, want, rtol=1e-12, atol=1e-4), "%r times %r is %r", case["x"], case["w"], got)
    return np.round(got, 9).tolist()


def run_add(case):
    def form(v):
        return np.array(v) if isinstance(v, list) and case["array"] else v
    x, y = form(case["x"]), form(case["y"])
    keep = repr((x, y))
    got = fate_operator.reduce_add(x, y)
    if case["x"] is None or case["y"] is None:
        want = case["y"] if case["x"] is None else case["x"]
    elif isinstance(case["x"], list):
        want = [a + b for a, b in zip(case["x"], case["y"])]
    else:
        want = case["x"] + case["y"]
    g = None if got is None else list(got) if isinstance(want, list) else got
    expect(g == want, "%r + %r is %r", case["x"], case["y"], got)
    expect(repr((x, y)) == keep, "adding changed an operand")
    return g


def run_norm(case):
    v, p = case["v"], case["p"]
    p = float("inf") if p == "inf" else p
    x = np.array(v) if case["array"] else list(v)
    if p < 1:
        try:
            got = fate_operator.norm(x, p)
        except ValueError:
            return "refused"
        expect(False, "the %r-norm is %r", p, got)
    got = fate_operator.norm(x) if case["default"] else fate_operator.norm(x, p)
    if case["default"]:
        p = 2
    want = max(map(abs, v)) if math.isinf(p) else sum(abs(a) ** p for a in v) ** (1.0 / p)
    expect(close(float(got), want, 1e-12, 1e-15), "the %r-norm of %r is %r", p, v, got)
    expect(list(x) == v, "the vector was changed")
    return round(float(got), 9)


def run_sparse(case):
    ix, vs, shape = case["ix"], case["vs"], case["shape"]
    s = SparseVector(ix, vs, shape)
    s2 = pickle.loads(pickle.dumps(s))
    for o in (s, s2):
        for pos in range(shape + 1):
            for default in (None, 0, -7.5):
                want = vs[ix.index(pos)] if pos in ix else default
                got = o.get_data(pos, default)
                expect(got == want and type(got) == type(want), "position %d of %r is %r instead of %r", pos, dict(zip(ix, vs)), got, want)
            if pos not in ix:
                expect(o.get_data(pos) is None, "position %d is %r", pos, o.get_data(pos))
        expect(o.count_non_zeros() == len(ix) and o.count_zeros() == shape - len(ix) and o.get_shape() == shape, "%r counts %r entries, %r holes, %r positions", dict(zip(ix, vs)), o.count_non_zeros(), o.count_zeros(), o.get_shape())
        expect(sorted(o.get_all_data()) == sorted(zip(ix, vs)), "the entries are %r", sorted(o.get_all_data()))
        expect(sorted(o.get_all_data()) == sorted(zip(ix, vs)), "the entries are %r the second time", sorted(o.get_all_data()))
        str(o)
    other = SparseVector([0], [99], shape)
    expect(other.count_non_zeros() == 1 and s.get_data(0, None) == (vs[ix.index(0)] if 0 in ix else None), "two rows share their entries")
    return sorted(s.get_all_data())


def run_inst(case):
    i = Instance(inst_id=case["id"], weight=case["w"], features=case["f"], label=case["l"])
    o = Instance()
    for x in (i, pickle.loads(pickle.dumps(i))):
        expect((x.inst_id, x.weight, x.features, x.label) == (case["id"], case["w"], case["f"], case["l"]), "the row is %s", x)
    i.set_weight(2.5)
    i.set_label("new")
    i.set_feature([9])
    expect((i.inst_id, i.weight, i.features, i.label) == (case["id"], 2.5, [9], "new"), "the row becomes %s", i)
    expect((o.inst_id, o.weight, o.features, o.label) == (None, 1.0, None, None), "an empty row is %s", o)
    return str(i)


# ---------------------------------------------------------------------- enumeration

LOSS = [0.0, 0.25, 0.5, 0.75, 1.5, -0.25]


def tasks(tier):
    big = tier != "quick"
    out = [dict(b="seq", kind=k, n=n) for k in ("diff", "abs", "weight", "weight2") for n in range(1, 7 if big else 6)]
    return out + [dict(b="wide", big=big)] + [dict(b="two", big=big), dict(b="vec"), dict(b="rows", big=big)]


def cases(block):
    b = block["b"]
    if b == "wide":
        h = scale.h
        for n in (6, 7, 8, 9, 10, 11, 16, 17, 33, 64, 100, 101, 128, 300) + ((3000,) if block["big"] else ()):
            for salt in range(5):
                seq = [LOSS[h(i, salt) % len(LOSS)] for i in range(n)]
                for eps in (0.25, 0.3):
                    for kind in ("diff", "abs"):
                        yield dict(k="seq", kind=kind, eps=eps, pre=None, seq=seq)
                    yield dict(k="seq", kind="weight", eps=eps, pre=None, seq=[[v * 2, v - i % 3] for i, v in enumerate(seq)])
                    yield dict(k="seq", kind="weight", eps=eps, pre=None, seq=[[v + j for j in range(n)] for v in seq[:4]])
                yield dict(k="two", kind=("diff", "abs")[salt % 2], eps=0.5, seq=seq, who=[h(i, n) % 2 for i in range(n)])
                x, w = [(h(i, salt, "x") % 41 - 20) / 8.0 for i in range(n)], [(h(i, salt, "w") % 31 - 15) / 4.0 for i in range(n)]
                for form in ("list", "array", "inst"):
                    yield dict(k="vec", x=x, w=w, form=form)
                yield dict(k="vec", x=[x, w, x[::-1]] + [w] * (n % 7), w=w, form="array")
                yield dict(k="mat", x=[x, w] * (n % 3 + 1), w=[[a, b, a - b] for a, b in zip(x, w)])
                for array in (False, True):
                    yield dict(k="add", x=x, y=w, array=array)
                    for q in (1, 1.5, 2, 3, 4, 8, 12, 20, "inf"):
                        yield dict(k="norm", v=x, p=q, array=array, default=False)
                ix = sorted({h(i, salt, "ix") % (3 * n) for i in range(n)}, key=lambda i: i if salt % 2 else h(i))
                yield dict(k="sparse", ix=ix, vs=[(0.0, 1.5, -i, "v%d" % i, i)[i % 5] for i in range(len(ix))], shape=3 * n)
    elif b == "seq":
        kind, n = block["kind"], block["n"]
        if kind in ("diff", "abs"):
            for eps in (0.25, 0.5, 0.3, 0.0):
                for seq in itertools.product(LOSS if n < 5 else LOSS[:4], repeat=n):
                    for pre in (None, 0.0, 0.5) if kind == "diff" and n < 5 else (None,):
                        yield dict(k="seq", kind=kind, eps=eps, pre=pre, seq=list(seq))
        else:
            pool = [[0.0], [0.25], [-0.5], [4.0], [4.5]] if kind == "weight" else [[0.0, 0.0], [3.0, 4.0], [3.5, 4.0], [0.0, 0.25], [-3.0, 4.0]]
            for eps in (0.25, 0.5, 0.125):
                for seq in itertools.product(pool if n < 5 else pool[1:4], repeat=n):
                    for pre in (None, pool[0]):
                        yield dict(k="seq", kind="weight", eps=eps, pre=pre, seq=list(seq))
    elif b == "two":
        for n in range(2, 6 if block["big"] else 5):
            for seq in itertools.product([0.0, 0.25, 1.0], repeat=n):
                for who in itertools.product((0, 1), repeat=n):
                    for kind in ("diff", "abs"):
                        yield dict(k="two", kind=kind, eps=0.5, seq=list(seq), who=list(who))
    elif b == "vec":
        pool = [0.0, 1.5, -2.0, 1e-3]
        for n in range(1, 4):
            for x in itertools.product(pool, repeat=n):
                for w in itertools.product([1.0, -0.5, 3.0], repeat=n):
                    for form in ("list", "array", "inst"):
                        yield dict(k="vec", x=list(x), w=list(w), form=form)
        for r in (3, 4, 5):
            for rows in itertools.product([[0.0, 0.0], [1.5, -2.0], [0.0, 3.0]], repeat=r):
                for form in ("array", "list", "inst"):
                    yield dict(k="vec", x=list(rows), w=[2.0, -1.0], form=form)
                yield dict(k="mat", x=list(rows), w=[[1.0, 2.0], [0.5, -1.0]])
        for r in (1, 2):
            for flat in itertools.product(pool, repeat=2 * r):
                x = [list(flat[2 * i:2 * i + 2]) for i in range(r)]
                for form in ("array", "list", "inst"):
                    yield dict(k="vec", x=x, w=[2.0, -1.0], form=form)
                yield dict(k="mat", x=x, w=[[1.0, 2.0], [0.5, -1.0]])
        vals = [None, 0, 1, -2.5, "ab"]
        for x, y in itertools.product(vals, repeat=2):
            if (isinstance(x, str) or isinstance(y, str)):
                continue
            yield dict(k="add", x=x, y=y, array=False)
        lists = [list(v) for n in (0, 1, 2, 3) for v in itertools.product([0, 1, -2.5], repeat=n)]
        for x, y in itertools.product(lists + [None], repeat=2):
            if x is None or y is None or len(x) == len(y):
                if not (x is None or y is None) or True:
                    yield dict(k="add", x=x, y=y, array=False)
                    if x is not None and y is not None:
                        yield dict(k="add", x=x, y=y, array=True)
        for n in (1, 2, 3):
            for v in itertools.product([0.0, 1.0, -2.5, 4.0], repeat=n):
                for p in (0, 0.5, -1, 0.999, 1, 1.001, 1.5, 2, 2.5, 3, 4, 7, 10, 11, 12, 16, 30, 60, 100, 101, 200, "inf"):
                    for array in (False, True):
                        yield dict(k="norm", v=list(v), p=p, array=array, default=False)
                yield dict(k="norm", v=list(v), p=2, array=True, default=True)
    else:
        for shape in range(0, 7 if block["big"] else 6):
            for r in range(shape + 1):
                for ix in itertools.combinations(range(shape), r):
                    for vs in ([1.5, 0.0, -2.0, "x", None, 7][:r], [0, 1, 2, 3, 4, 5][:r]):
                        if None in vs:
                            continue
                        yield dict(k="sparse", ix=list(ix), vs=vs, shape=shape)
                        if r > 1:
                            yield dict(k="sparse", ix=list(ix)[::-1], vs=vs, shape=shape)
        for i, w, f, l in itertools.product((None, 0, "id7"), (1.0, 0, 0.5), (None, [1, 2]), (None, 0, "a")):
            yield dict(k="inst", id=i, w=w, f=f, l=l)


def explore(ctx, block):
    for case in cases(block):
        r = ctx.case(case, lambda: run_case(case), steps=len(case.get("seq", [0])))
        if r is not None:
            ctx.state(case)
            ctx.outcome(r)
        elif case["k"] == "add":
            ctx.state(case)


def run_case(case):
    return dict(seq=run_seq, two=run_two, vec=run_vec, mat=run_mat, add=run_add, norm=run_norm, sparse=run_sparse, inst=run_inst)[case["k"]](case)
