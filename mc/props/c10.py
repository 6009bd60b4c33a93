"""C10 - binning: split points and bins are consistent, and the caller's data stays as it was."""
import itertools
import pickle

from mc import compat, core, scale  # noqa: F401
from mc.core import expect, close
from mc.parts import PartTable
from mc.props.c09 import judge as rank_judge
import numpy as np
from computing.d_table import DTable
from ml.feature.binning.quantile_binning import QuantileBinning
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.param.feature_binning_param import FeatureBinningParam
from ml.tree.boosting_tree import BoostingTree

META = dict(
    title="Binning puts every value into the bin its split points define, and only that",
    statement="Fitting gives each selected column an increasing list of fewer split points than bins, each an actual value (or the 0 of absent entries) whose rank is within the promised error of its quantile. Converting replaces exactly the asked columns of every row by the number of split points below the value - so equal values share a bin and larger values never get a lower one - keeps ids, labels, weights, the other columns and the header, and returns the split points used in header order together with the bin of zero per column. Dense and sparse rows are treated alike, other data is binned by the same split points, given split points are used instead of fitted ones, the partitions the rows lie in make no difference to these promises, and neither fitting, converting nor the dense-to-sparse alignment changes the caller's rows.",
    quantifier=dict(over=["inputs", "configurations"], text="all dense and sparse tables of up to four rows (one column: five) over small value grids with absent entries, bin numbers 2-4, all column selections, buffer sizes and thresholds, conversion of other data and with given split points, all ways of laying the rows in up to three partitions; fixed data of up to 300 rows, 10 columns and 100 bins"),
    why_tests_cant="No test bins anything. Ties, duplicates, columns of one value, absent entries, zero on a split point and column subsets decide the result, and each needs its own data.",
    anchors=dict(files=["ml/feature/binning/base_binning.py", "ml/feature/binning/quantile_binning.py", "ml/feature/quantile_summaries.py", "ml/feature/sparse_vector.py", "ml/tree/boosting_tree.py"],
                 state=[dict(name="split_points", meaning="per column", where="Binning.split_points")],
                 mechanism=[dict(name="fit", where="QuantileBinning.fit_split_points"), dict(name="bin of a value", where="Binning.get_bin_num"),
                            dict(name="convert", where="convert_feature_to_bin, _convert_sparse_data, _convert_dense_data"),
                            dict(name="bin of zero", where="get_sparse_bin"), dict(name="alignment", where="BoostingTree.data_alignment")],
                 observe_at=["returned tables and split points", "the caller's table"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive enumeration of tables and binning settings against a counting reference",
    level_note="Exhaustive over the stated space; which quantile a split point belongs to is judged by its rank (C09), so any correct summary passes.",
    bounds=dict(quick=dict(rows=5, columns=2, bins=4), thorough=dict(rows=6, columns=2, bins=5)),
    rule="a case is (rows, settings); states are distinct cases; outcomes are distinct (split points, bins)",
    assumptions=["stored sparse entries are not zero, nothing between 0 and 1e-6 (the project's zero) occurs"],
)
HEAD = ["b", "a", "c", "z", "k", "f1", "f10", "f2", "B", "x0"]


def rows_of(table, sparse):
    out = {}
    for k, inst in table.collect():
        f = inst.features
        if sparse:
            expect(type(f).__name__ == "SparseVector", "row %s has features of type %s", k, type(f).__name__)
            out[k] = [f.get_data(i) for i in range(f.get_shape())]
            expect(len(f.sparse_vec) == sum(1 for v in out[k] if v is not None), "row %s holds entries outside its shape: %r", k, f)
        else:
            out[k] = list(f)
    return out


def table(rows, sparse):
    out = []
    for i, r in enumerate(rows):
        if sparse:
            idx = [j for j, v in enumerate(r) if v is not None]
            f = SparseVector(idx, [r[j] for j in idx], len(r))
        else:
            f = np.array(r, dtype=float)
        out.append(("k%d" % i, Instance(inst_id="k%d" % i, weight=2.0 + i, features=f, label=i % 2)))
    t = DTable(True, out)
    t.schema = {"header": HEAD[:len(rows[0])]}
    return t


def bin_of(v, sp):
    return sum(1 for x in sp if x < v)


def run(case):
    rows, sparse = case["rows"], case["sparse"]
    m = len(rows[0])
    cols = case.get("cols", -1)
    sel = list(range(m)) if cols == -1 else list(cols)
    param = FeatureBinningParam(bin_num=case["bins"], cols=cols if cols == -1 else list(cols), head_size=case.get("head", 10000), compress_thres=case.get("thr", 10000), error=case.get("error", 0.001))
    t = table(rows, sparse)
    if case.get("parts"):
        p = PartTable(True, list(t.collect()), {"k%d" % i: k for i, k in enumerate(case["parts"])}, 3)
        p.schema = t.schema
        t = p
    blob = pickle.dumps(t)
    abn = case.get("abnormal")
    settings = repr(param.__dict__)
    b = QuantileBinning(param, abnormal_list=abn)
    # another binning of the same process, with settings of its own, is made and used in between
    o = QuantileBinning(FeatureBinningParam(bin_num=2, cols=[0]), abnormal_list=[17.5])
    got = o.fit_split_points(table([(float(i),) for i in range(4)], False))
    expect(list(got) == [HEAD[0]] and len(got[HEAD[0]]) == 1 and got[HEAD[0]][0] in (0.0, 1.0, 2.0, 3.0), "the other binning's split points are %r", got)
    sp = b.fit_split_points(t)
    expect(sorted(sp) == sorted(HEAD[c] for c in sel), "split points for %r, selected are the columns %r", sorted(sp), sel)
    for c in sel:
        vals = [r[c] for r in rows if r[c] is not None]
        zeros = len(rows) - len(vals)
        vals = [v for v in vals if v not in (abn or [])]
        if not vals and not zeros:
            continue
        s = [float(x) for x in sp[HEAD[c]]]
        expect(1 <= len(s) <= max(1, case["bins"] - 1), "%d split points for %d bins", len(s), case["bins"])
        expect(all(x < y for x, y in zip(s, s[1:])), "the split points %r of column %d do not increase", s, c)
        rates = [i / case["bins"] for i in range(1, case["bins"])]
        # every quantile is answered within the error by one of the split points, every split point answers some
        hit = set()
        for p in rates:
            ok = []
            for x in s if not case.get("light") else s[max(0, round(p * (len(s) + 1)) - 3):round(p * (len(s) + 1)) + 2]:
                try:
                    rank_judge(vals, p, case.get("error", 0.001), x, zeros)
                    ok.append(x)
                except core.Violation:
                    pass
            expect(ok, "no split point of %r is near quantile %r of column %r", s, p, vals + [0.0] * zeros)
            hit.update(ok)
        expect(hit == set(s), "split point %r of %r is no quantile of %r", set(s) - hit, s, vals + [0.0] * zeros)
    expect(pickle.dumps(t) == blob, "fitting changed the caller's table")
    expect(repr(param.__dict__) == settings, "fitting changed the settings to %r", param.__dict__)
    sp = {k: [float(x) for x in v] for k, v in sp.items()}

    outs = []

    def convert(tab, src, tcols, given):
        use = given if given is not None else sp
        keep = pickle.dumps(tab)
        tsel = sel if isinstance(tcols, int) else list(tcols)
        args = {} if given is None else dict(split_points={k: list(v) for k, v in given.items()})
        if not isinstance(tcols, int):
            args["transform_cols_idx"] = tcols
        new, arr, zb = b.convert_feature_to_bin(tab, **args)
        expect(pickle.dumps(tab) == keep, "converting changed the caller's table")
        got = rows_of(new, sparse)
        expect(sorted(got) == sorted("k%d" % i for i in range(len(src))), "rows %r after converting %d rows", sorted(got), len(src))
        expect(new.schema.get("header") == HEAD[:m], "header %r", new.schema)
        for i, r in enumerate(src):
            g = got["k%d" % i]
            inst = dict(new.collect())["k%d" % i]
            expect((inst.inst_id, inst.weight, inst.label) == ("k%d" % i, 2.0 + i, i % 2), "row %d: id, weight, label became %r", i, (inst.inst_id, inst.weight, inst.label))
            expect(len(g) == len(r), "row %d has %d features", i, len(g))
            for c in range(m):
                want = None if r[c] is None else bin_of(r[c], use[HEAD[c]]) if c in tsel else r[c]
                expect((g[c] is None) == (want is None) and (want is None or g[c] == want),
                       "row %d column %d: value %r became %r instead of %r (split points %r)", i, c, r[c], g[c], want, use.get(HEAD[c]))
        order = [HEAD[c] for c in range(m) if HEAD[c] in use]
        expect(len(arr) == len(order), "%d split point lists for the columns %r", len(arr), order)
        for a, name in zip(arr, order):
            expect([float(x) for x in a] == use[name], "split points of column %s are returned as %r instead of %r", name, list(a), use[name])
        expect({int(k): int(v) for k, v in zb.items()} == {c: bin_of(0.0, use[HEAD[c]]) for c in tsel}, "the bins of zero are %r, split points %r", zb, use)
        outs.append([got["k%d" % i] for i in range(len(src))])

    convert(t, rows, -1, None)
    for c in sel:
        convert(t, rows, [c], None)
    if len(sel) > 1:
        convert(t, rows, sel[::-1], None)
        convert(t, rows, tuple(sel[1:]), None)
    convert(t, rows, -1, {HEAD[c]: [-1.0, 0.0, 2.5] for c in sel})
    other = [[(2.2, -1.0, 0.5, -3.0, 9.0, None if sparse else 0.0)[(i + 2 * c) % 6] for c in range(m)] for i in range(3)]
    convert(table(other, sparse), other, -1, None)
    expect(repr(param.__dict__) == settings, "converting changed the settings to %r", param.__dict__)
    none = b.convert_feature_to_bin(t, transform_cols_idx=None)
    expect(none[0] is t and none[1] is None and none[2] is None, "converting no columns gives %r", none)
    fresh = QuantileBinning(FeatureBinningParam(bin_num=case["bins"], cols=cols))
    b = fresh
    convert(t, rows, -1, {HEAD[c]: [0.5] for c in sel})
    return sp, outs[0]


def run_align(case):
    rows = case["rows"]
    t = DTable(True, [("k%d" % i, Instance(inst_id=i, weight=1.5, features=np.array(r, dtype=float), label=i % 2)) for i, r in enumerate(rows)])
    t.schema = {"header": HEAD[:len(rows[0])]}
    blob = pickle.dumps(t)
    bt = BoostingTree()
    a = bt.data_alignment(t)
    expect(pickle.dumps(t) == blob, "the alignment changed the caller's table")
    expect(a.schema.get("header") == HEAD[:len(rows[0])], "the header became %r", a.schema)
    got = rows_of(a, True)
    expect(len(got) == len(rows), "%d rows of %d", len(got), len(rows))
    for i, r in enumerate(rows):
        inst = dict(a.collect())["k%d" % i]
        expect((inst.inst_id, inst.weight, inst.label) == (i, 1.5, i % 2), "row %d: id, weight, label became %r", i, (inst.inst_id, inst.weight, inst.label))
        want = [v if abs(v) >= 1e-6 else None for v in r]
        expect(got["k%d" % i] == want, "row %r became %r", r, got["k%d" % i])
    again = bt.data_alignment(a)
    expect(rows_of(again, True) == got, "aligning twice gives %r instead of %r", rows_of(again, True), got)
    try:
        bt.data_alignment(DTable(True, []))
    except ValueError:
        return got
    expect(False, "an empty table is accepted")


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of, big=big) for i in range(of))
    for sparse in (False, True):
        for n in range(1, 7 if big else 6):
            add(b="one", n=n, sparse=sparse, of=1 if n < 5 else 8)
        for n in range(1, 5 if big else 4):
            add(b="two", n=n, sparse=sparse, of=1 if n < 3 else 8 if n == 3 else 32)
        add(b="three", sparse=sparse, of=4)
        add(b="abnormal", sparse=sparse, of=2)
        add(b="parts", sparse=sparse, of=4)
        add(b="scale", sparse=sparse, of=4)
        add(b="exact", sparse=sparse, of=2)
        add(b="inf", sparse=sparse, of=2)
        add(b="near", sparse=sparse, of=2)
        add(b="counts", sparse=sparse, of=4)
    add(b="align", of=2)
    return out


def cases(block):
    b, big, sparse = block["b"], block["big"], block.get("sparse")
    if b == "one":
        vals = [-1.5, None if sparse else 0.0, 2.0, 3.0]
        for col in itertools.product(vals, repeat=block["n"]):
            for bins in (2, 3, 4, 5) if big or block["n"] < 5 else (2, 3):
                for head, thr, err in ((10000, 10000, 0.001), (1, 1, 0.001), (2, 3, 0.1)):
                    yield dict(rows=[[v] for v in col], sparse=sparse, bins=bins, head=head, thr=thr, error=err)
    elif b == "two":
        vals = [-1.0, None if sparse else 0.0, 2.0]
        cell = list(itertools.product(vals, vals))
        for rows in itertools.combinations_with_replacement(cell, block["n"]) if block["n"] > 3 else itertools.product(cell, repeat=block["n"]):
            for bins in (2, 3):
                for cols in (-1, [0], [1], [1, 0]):
                    yield dict(rows=[list(r) for r in rows], sparse=sparse, bins=bins, cols=cols)
    elif b == "three":
        z = None if sparse else 0.0
        cell = [(1.0, z, -2.0), (z, z, 4.0), (1.0, 3.0, z), (-1.0, 5.0, -2.0), (z, z, z)]
        for rows in itertools.product(cell, repeat=4):
            for bins in (2, 4):
                for cols in (-1, [2, 0], [1], [0, 2]):
                    yield dict(rows=[list(r) for r in rows], sparse=sparse, bins=bins, cols=cols)
    elif b == "abnormal":
        vals = [-1.5, None if sparse else 0.0, 2.0, 77.0, -77.0]
        for n in range(1, 6 if big else 5):
            for col in itertools.product(vals, repeat=n):
                for bins in (2, 3, 4):
                    yield dict(rows=[[v, 1.0] for v in col], sparse=sparse, bins=bins, abnormal=[77.0, -77.0])
    elif b == "parts":
        # rows in up to three partitions, some of them empty
        z = None if sparse else 0.0
        for n in range(1, 6 if big else 5):
            for col in itertools.product([-1.5, z, 2.0] if n > 3 else [-1.5, z, 2.0, 3.0], repeat=n):
                for parts in itertools.product(range(3), repeat=n):
                    if sum(parts) % 2 == 0 or n < 4 or big:
                        yield dict(rows=[[v, (z, 4.0)[i % 2]] for i, v in enumerate(col)], sparse=sparse, bins=2 + (sum(parts) + n) % 3, parts=list(parts))
        # partitions that hold nothing but abnormal values, or no value at all
        for n in range(2, 6 if big else 5):
            for col in itertools.product([77.0, -1.5, z, 2.0], repeat=n):
                if 77.0 in col:
                    for parts in ([i % 2 for i in range(n)], [0] * (n - 1) + [1], [0] + [1] * (n - 1), [0] + [2] * (n - 1)):
                        yield dict(rows=[[v, (z, 4.0)[i % 2]] for i, v in enumerate(col)], sparse=sparse, bins=3 + n % 2, parts=parts, abnormal=[77.0])
        for k in range(2, 9):
            for first in ([1.0, 2.0, 3.0, 4.0], [-1.0, z, 2.0, -3.0], [-4.0, -3.0, -2.0, -1.0]):
                for flip in (0, 1):
                    yield dict(rows=[[v] for v in first + [77.0] * k], sparse=sparse, bins=4, parts=[flip] * 4 + [1 - flip] * k, abnormal=[77.0])
    elif b == "counts":
        # every number of bins, around and beyond the number of distinct values
        z = None if sparse else 0.0
        for bins in range(2, 301 if big else 131):
            for n in (bins + 1, 2 * bins + 1) if bins < 70 else (bins + bins // 7,):
                yield dict(rows=[[float(v) if v != 20 else z] for v in (range(n) if bins % 2 else range(n, 0, -1))], sparse=sparse, bins=bins, light=True)
        for bins in (257, 300, 520):
            yield dict(rows=[[float(v) if v != 20 else z, float(v % 3)] for v in range(bins + 9)], sparse=sparse, bins=bins, light=True)
    elif b == "near":
        # values that differ only in the last digits a float holds, very large and very small ones
        z = None if sparse else 0.0
        for vals in ([1.0, 1.0 + 1e-12, 1.0 - 1e-12, z], [16777216.0, 16777217.0, -16777217.0, 1e300], [1e-5, 1.0001e-5, -1e-5, z], [123456.789, 123456.7890001, z, -1e300]):
            for n in range(1, 6 if big else 5):
                for col in itertools.product(vals, repeat=n):
                    for bins in (2, 3, 4) if n < 4 else (3, 4):
                        yield dict(rows=[[v] for v in col], sparse=sparse, bins=bins, **(dict(head=2, thr=2) if bins == 3 else {}))
    elif b == "exact":
        # values that survive no rounding, under every choice of up to three columns of many
        odd = [lambda i, c: 0.1 * (i + 1) + c, lambda i, c: 16777217.0 + i + 3 * c, lambda i, c: (i + 1) * 1e-300, lambda i, c: (-1) ** i * 1e300 / (c + 1),
               lambda i, c: 2.0 ** 53 - 1 - i, lambda i, c: float((i * c) % 3) / 3.0, lambda i, c: -(i + 1) / 7.0]
        for n, m in ((3, 4), (5, 5), (4, 7), (5, 10)):
            for kind in range(7):
                rows = [[odd[(kind + c) % 7](i, c) for c in range(m)] for i in range(n)]
                for k in (1, 2, 3):
                    for cols in itertools.combinations(range(m), k):
                        if k < 3 or m < 8 or sum(cols) % 5 == kind % 5:
                            yield dict(rows=rows, sparse=sparse, bins=3, cols=list(cols))
                yield dict(rows=rows, sparse=sparse, bins=4)
    elif b == "inf":
        inf = float("inf")
        for n in (1, 2, 3, 4):
            for col in itertools.product([-inf, -1.0, None if sparse else 0.0, 2.5, inf], repeat=n):
                for bins in (2, 3, 4):
                    yield dict(rows=[[v] for v in col], sparse=sparse, bins=bins)
                if n == 3:
                    for two in itertools.product([-inf, 1.0, inf], repeat=n):
                        yield dict(rows=[list(r) for r in zip(col, two)], sparse=sparse, bins=3, **(dict(cols=[1]) if two[0] == col[0] else {}))
    elif b == "scale":
        # more rows, columns and bins than the grids hold; the data is a fixed function of the sizes
        for n, m, bins in [(12, 1, 5), (12, 4, 5), (40, 1, 3), (40, 3, 9), (40, 10, 4), (120, 2, 16), (120, 2, 33), (120, 1, 100), (300, 1, 10), (300, 2, 32)]:
            for kind in range(4):
                def val(i, c):
                    h = scale.h(i, c, kind)
                    v = [float(h % 9 - 4), (h % 1999) / 16.0 - 60.0, float(i * (1 if c % 2 else -1)), 1e6 * (h % 3) + h % 2][kind]
                    return (None if sparse else 0.0) if v == 0 or h % 4 == 0 else v
                rows = [[val(i, c) for c in range(m)] for i in range(n)]
                for head, thr, err in ((10000, 10000, 0.001), (7, 5, 0.01), (50, 20, 0.05)):
                    for parts in (None, [i % 3 for i in range(n)], [i * 3 // n for i in range(n)]):
                        yield dict(rows=rows, sparse=sparse, bins=bins, head=head, thr=thr, error=err, cols=-1 if m < 4 else [m - 1, 0, 2], **({} if parts is None else dict(parts=parts)))
    elif b == "align":
        vals = [0.0, 1e-9, -1e-7, -2.0, 3.5, 1e-5, 1e9]
        for n in (1, 2):
            for m in (1, 2, 3) if n == 1 else (1, 2):
                for flat in itertools.product(vals, repeat=n * m):
                    yield dict(align=True, rows=[list(flat[i * m:(i + 1) * m]) for i in range(n)])


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run_case(case))
        if r is not None:
            ctx.state(core.jsonable(case))
            ctx.outcome(r)


def run_case(case):
    return run_align(case) if case.get("align") else run(case)
