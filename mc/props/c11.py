"""C11 - histograms hold, per node, feature and bin, the sums over exactly the right rows."""
import itertools
import pickle

from mc import compat, core, priv, scale  # noqa: F401
from mc.core import expect, close
from mc.fed import objarr
from mc.parts import PartTable
from computing.d_table import DTable
from ml.feature.instance import Instance
from ml.feature.sparse_vector import SparseVector
from ml.tree.feateur_histogram import FeatureHistogram

META = dict(
    title="Histograms hold the exact gradient, hessian and row sums per node, feature, bin",
    statement="For every table of binned rows, every assignment of rows to nodes and every selection of nodes and features, the histogram of a node, feature and bin holds the sum of gradients, the sum of hessians and the number of exactly those open rows of that node whose feature lies in that bin, absent entries counting in the bin of zero; rows of finished nodes or of other batches do not count. Masked features get no bins. Accumulation turns bins into prefix sums, and merging the histograms of two parts of the data gives the histogram of the whole. The same holds when the numbers are ciphertexts.",
    quantifier=dict(over=["inputs", "configurations"], text="all tables of up to three rows over two features with present and absent entries, all node assignments over three nodes with open and closed rows, all node selections, masks and zero bins from small sets; plain and encrypted numbers; all ways to lay the rows in two table partitions; fixed data of up to 1100 rows, 300 features, 600 bins and 300 nodes"),
    why_tests_cant="No test covers histograms. The zero-bin correction is computed by difference, so an error shows only when entries are absent, nodes are mixed and features are masked at once.",
    anchors=dict(files=["ml/tree/feateur_histogram.py"],
                 state=[dict(name="histograms", meaning="node x feature x bin x (grad, hess, count)", where="FeatureHistogram")],
                 mechanism=[dict(name="zero-bin correction", where="batch_calculate_histogram (zero_optim)"),
                            dict(name="prefix sums", where="accumulate_histogram"), dict(name="partition merge", where="aggregate_histogram")],
                 observe_at=["returned histograms"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive enumeration of binned tables, node assignments and selections against a set-comprehension reference",
    level_note="Exhaustive over the stated space, on plain floats and on opaque ciphertexts.",
    bounds=dict(quick=dict(rows=3, features=2, nodes=3), thorough=dict(rows=4, features=2, nodes=3)),
    rule="a case is (rows, node assignment, gradients, node map, mask, zero bins); states are distinct cases; outcomes are distinct histograms",
    assumptions=["every row has a gradient"],
)


def reference(case):
    nb = case["nbins"]
    out = {}
    for node in case["nodes"]:
        for f in range(len(nb)):
            for b in range(nb[f]):
                rows = [i for i, r in enumerate(case["rows"]) if case["at"][i] == [1, node] and (case["zero"][f] if r[f] is None else r[f]) == b]
                out[(node, f, b)] = (sum(case["gh"][i][0] for i in rows), sum(case["gh"][i][1] for i in rows), len(rows))
    return out


def tables(case):
    idx = range(len(case["rows"]))
    enc = (lambda v: priv.Opaque(v)) if case.get("cipher") else (lambda v: v)
    data, gh = [], []
    for i in idx:
        r = case["rows"][i]
        fs = [f for f in range(len(r)) if r[f] is not None]
        inst = Instance(features=SparseVector(fs, [r[f] for f in fs], len(r)))
        data.append(("k%d" % i, (inst, tuple(case["at"][i]))))
        gh.append(("k%d" % i, (enc(case["gh"][i][0]), enc(case["gh"][i][1]))))
    return DTable(True, data), DTable(True, gh)


def plain(x):
    return priv._TABLE[x.token] if isinstance(x, priv.Opaque) else x


def compare(case, hist, want, acc):
    nb = case["nbins"]
    expect(len(hist) == len(case["nodes"]), "%d node histograms for %d nodes", len(hist), len(case["nodes"]))
    order = case.get("order") or list(range(len(case["nodes"])))
    for pos, node in zip(order, case["nodes"]):
        for f in range(len(nb)):
            h = hist[pos][f]
            if case["valid"] is not None and not case["valid"][f]:
                expect(len(h) == 0, "masked feature %d has %d bins", f, len(h))
                continue
            expect(len(h) == nb[f], "feature %d has %d bins instead of %d", f, len(h), nb[f])
            run = [0.0, 0.0, 0]
            for b in range(nb[f]):
                w = want[(node, f, b)]
                run = [x + y for x, y in zip(run, w)] if acc else list(w)
                got = [plain(x) for x in h[b]]
                expect(close(got[0], run[0], 1e-9, 1e-9) and close(got[1], run[1], 1e-9, 1e-9) and plain(got[2]) == run[2],
                       "node %r feature %d bin %d holds %r, %s rows sum to %r", node, f, b, got, "its and all lower bins'" if acc else "its", run)


def run(case):
    priv._TABLE.clear()
    nb = case["nbins"]
    sp = objarr([[float(b) for b in range(n - 1)] for n in nb])
    order = case.get("order") or list(range(len(case["nodes"])))
    nmap = {n: p for p, n in zip(order, case["nodes"])}
    zero = {f: z for f, z in enumerate(case["zero"])}
    want = reference(case)
    d, g = tables(case)
    blob = pickle.dumps((d, [(k, tuple(map(plain, v))) for k, v in g.collect()]))
    valid = None if case["valid"] is None else list(case["valid"])
    hist = FeatureHistogram.calculate_histogram(d, g, sp, zero, valid, nmap)
    compare(case, hist, want, False)
    expect(pickle.dumps((d, [(k, tuple(map(plain, v))) for k, v in g.collect()])) == blob, "computing the histogram changed its input")
    hist2 = FeatureHistogram.calculate_histogram(d, g, sp, zero, valid, nmap)
    acc = FeatureHistogram.accumulate_histogram(hist2)
    compare(case, acc, want, True)
    if case.get("cut") is not None:
        # rows in two partitions
        dd, gg = tables(case)
        part = {"k%d" % i: case["cut"] >> i & 1 for i in range(len(case["rows"]))}
        dd, gg = (PartTable(True, list(x.collect()), part, 2) for x in (dd, gg))
        compare(case, FeatureHistogram.calculate_histogram(dd, gg, sp, zero, valid, nmap), want, False)
    return [[[[plain(x) for x in b] for b in f] for f in n] for n in hist]


GH = [[0.5, 0.25], [-2.0, 1.0], [4.0, 0.0625], [1.0, 8.0]]


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of) for i in range(of))
    add(b="rows", n=2, of=2)
    add(b="rows", n=3, of=16)
    if big:
        add(b="rows4", n=4, of=16)
    add(b="conf", of=4)
    add(b="gh", of=4)
    add(b="cipher", of=4)
    add(b="scale", of=4)
    return out


CELL = [None, 0, 1, 2]
ATS = [[1, 0], [1, 4], [0, 0], [1, 9]]          # open in node 0, open in node 4, closed, open in a node of another batch


def cases(block):
    b, n = block["b"], block.get("n", 3)
    rows1 = list(itertools.product(CELL, CELL[:3]))
    if b == "rows":
        k = 0
        for rows in itertools.combinations_with_replacement(rows1, n):
            for at in itertools.product(ATS, repeat=n):
                k += 1
                yield dict(rows=[list(r) for r in rows], at=list(at), gh=GH[:n], nbins=[3, 2], nodes=[0, 4], zero=[k % 3, k % 2],
                           valid=[None, [True, True], [True, False], [False, True]][k % 4], cut=k % (1 << n))
    elif b == "rows4":
        sel = [(None, 0), (2, None), (1, 1), (None, None), (0, 1)]
        for k, (rows, at) in enumerate(itertools.product(itertools.product(sel, repeat=4), itertools.product(ATS[:3], repeat=4))):
            yield dict(rows=[list(r) for r in rows], at=list(at), gh=GH, nbins=[3, 2], nodes=[0, 4], zero=[k % 3, k % 2],
                       valid=[None, [True, True], [True, False], [False, True]][k % 4], cut=k % 16)
    elif b == "conf":
        # every configuration over fixed tables
        base = [([[0, 1], [None, 0], [2, None]], [[1, 0], [1, 4], [1, 0]]), ([[None, None], [1, 1], [1, 0]], [[1, 4], [1, 4], [1, 9]]),
                ([[2, 1], [2, 1], [None, None]], [[1, 0], [0, 4], [1, 0]])]
        for rows, at in base:
            for zero in itertools.product(range(3), range(2)):
                for valid in (None, [True, True], [True, False], [False, True], [False, False]):
                    for nodes, order in (([0], None), ([0, 4], None), ([0, 4], [1, 0]), ([4, 0, 9], [2, 0, 1]), ([4], None), ([7], None), ([0, 1, 2, 4], [3, 2, 1, 0])):
                        for cut in range(8):
                            yield dict(rows=rows, at=at, gh=GH[:3], nbins=[3, 2], nodes=nodes, order=order, zero=list(zero), valid=valid, cut=cut)
    elif b == "gh":
        # gradients and hessians of every kind: zero, cancelling, tiny, large, whole numbers
        pool = list(itertools.product((0.0, 1.5, -1.5, 1e-9, 3, 1e6), (0.0, 1e-9, 0.25)))
        for k, gh in enumerate(itertools.product(pool, repeat=3)):
            rows, at = [([[0, 1], [None, 0], [2, None]], [[1, 0], [1, 0], [1, 0]]), ([[1, 1], [1, 1], [None, None]], [[1, 4], [1, 0], [1, 4]])][k // 7 % 2]
            yield dict(rows=rows, at=at, gh=[list(v) for v in gh], nbins=[3, 2], nodes=[0, 4], zero=[k % 3, k % 2], valid=[True, True], cut=k % 8, **(dict(cipher=True) if k % 5 == 0 else {}))
    elif b == "scale":
        h = scale.h
        big = [(700, 2, 3, 300), (400, 300, 3, 2), (700, 2, 600, 3), (1100, 1, 70, 70)]
        for n, m, nb, nn in itertools.chain(itertools.product((5, 17, 60, 140), (1, 3, 8), (1, 2, 9, 40), (1, 3, 12)), big):
            nbins = [1 + (nb - 1) // (1 + f % 2) for f in range(m)]
            rows = [[None if h(i, f, "x") % 3 == 0 else h(i, f) % nbins[f] for f in range(m)] for i in range(n)]
            at = [[1 if h(i, "o") % 5 else 0, h(i, "n") % (nn + 1)] for i in range(n)]
            gh = [[(h(i, "g") % 64 - 32) / 8.0, (h(i, "h") % 32) / 16.0] for i in range(n)]
            nodes = list(range(nn))
            for k, valid in enumerate((None, [f % 2 == 0 for f in range(m)], [True] * m)):
                yield dict(rows=rows, at=at, gh=gh, nbins=nbins, nodes=nodes, order=nodes[::-1] if k else None, zero=[h(f, k) % b for f, b in enumerate(nbins)],
                           valid=valid, cut=h(n, m, nb, nn, k) % (1 << min(n, 31)), **(dict(cipher=True) if k == 2 and n < 60 else {}))
    elif b == "cipher":
        for k, rows in enumerate(itertools.product(rows1, repeat=2)):
            for at in itertools.product(ATS[:3], repeat=2):
                yield dict(rows=[list(r) for r in rows], at=list(at), gh=GH[:2], nbins=[3, 2], nodes=[0, 4], zero=[k % 3, k % 2],
                           valid=[None, [True, True], [True, False], [False, True]][k % 4], cut=k % 4, cipher=True)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run(case))
        if r is not None:
            ctx.state(core.jsonable(case))
            ctx.outcome(r)


def run_case(case):
    return run(case)
