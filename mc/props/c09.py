"""C09 - quantile summaries answer within their error, in any insertion order, batching and merge."""
import itertools
import math
import pickle

from mc import compat, core  # noqa: F401
from mc.core import expect
from ml.feature.quantile_summaries import QuantileSummaries, SparseQuantileSummaries

META = dict(
    title="Quantile summaries answer within their promised error for every stream",
    statement="Whatever values are inserted in whatever order, with whatever buffer size, compression threshold and error, and however the stream is split over partitions whose summaries are merged, a query returns an inserted value (or 0 for absent entries) whose rank is within the promised error of the asked one: count*(p-2e) .. count*(p+2e), rounded outwards. Answers never fall as the quantile grows, the count is the number of inserted values that are not marked abnormal, extreme quantiles give the extremes of what was stored, querying changes no later answer, an empty summary answers 0, and quantiles outside [0, 1] are refused.",
    quantifier=dict(over=["inputs", "histories", "configurations"], text="all streams of up to six values (sparse: five) over small value sets, buffer sizes and compression thresholds from one upwards, five errors, all two- and three-way splits with either merge order, all query quantiles from a grid, all query orders of pairs; structured streams of up to 400 values (thorough: 3000) in up to six merged parts"),
    why_tests_cant="No test covers the summaries. Loss or misplacement of samples shows only for particular orders of values against buffer and compression boundaries.",
    anchors=dict(files=["ml/feature/quantile_summaries.py"],
                 state=[dict(name="sampled", meaning="(value, g, delta) triples", where="QuantileSummaries.sampled"),
                        dict(name="head_sampled", meaning="unsorted buffer", where="QuantileSummaries.head_sampled")],
                 mechanism=[dict(name="buffer flush", where="_insert_head_buffer"), dict(name="compression", where="_compress_immut"),
                            dict(name="merge", where="merge"), dict(name="query", where="query"), dict(name="zeros", where="SparseQuantileSummaries")],
                 observe_at=["query", "count"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive enumeration of insert / merge / query histories against sorted-list ranks",
    level_note="Exhaustive over the stated space. The bound is the one the summaries promise (2 * error * count, rounded outwards by one rank as the code's ceil does).",
    bounds=dict(quick=dict(stream=6, partitions=3), thorough=dict(stream=8, partitions=3)),
    rule="a case is (stream, split, buffer size, threshold, error); states are distinct cases; outcomes are distinct answer vectors",
    assumptions=["an exact sparse summary (error 0) may be one rank off at the border between the zeros and the other values"],
)
PS = [0.0, 0.05, 0.1, 0.2, 0.25, 1 / 3, 0.4, 0.5, 0.6, 2 / 3, 0.75, 0.8, 0.9, 0.95, 1.0]


def bounds(vals, p, e):
    n = len(vals)
    # the code rounds both the target rank and the error up
    return min(n, math.floor((p - 2 * e) * n + 1e-9)), max(1, math.ceil((p + 2 * e) * n - 1e-9) + 0)


def judge(vals, p, e, got, zeros=0):
    n = len(vals) + zeros
    full = sorted(list(vals) + [0.0] * zeros)
    if n == 0:
        expect(got == 0, "an empty summary answers %r", got)
        return
    expect(got in full, "quantile %r of %r is answered with %r, which was never inserted", p, full, got)
    lo, hi = sum(1 for v in full if v < got) + 1, sum(1 for v in full if v <= got)
    low, high = bounds(full, p, e)
    expect(lo <= high and hi >= low, "quantile %r of %r with error %r is answered with %r of rank %d..%d, allowed is %d..%d", p, full, e, got, lo, hi, low, high)


def build(case):
    cls = SparseQuantileSummaries if case.get("sparse") else QuantileSummaries
    parts = []
    for seg in case["parts"]:
        s = cls(compress_thres=case["thr"], head_size=case["head"], error=case["error"], abnormal_list=case.get("abnormal"))
        for v in seg:
            s.insert(v)
        if case.get("compress"):
            s.compress()
        parts.append(s)
    if case.get("tree") == "right" and len(parts) == 3:
        parts[1].merge(parts[2])
        parts[0].merge(parts[1])
    else:
        for o in parts[1:]:
            parts[0].merge(o)
    return parts[0]


def run(case):
    abn = case.get("abnormal") or []
    vals = [float(v) for seg in case["parts"] for v in seg if v not in abn]
    zeros = case.get("zeros", 0)
    e = case["error"] + case.get("slack", 0)          # an exact sparse summary may be one rank off where the zeros begin and end
    s = build(case)
    if case.get("sparse"):
        s.set_total_count(sum(map(len, case["parts"])) + zeros)
    blob = pickle.dumps(s)
    out = []
    for p in PS:
        got = s.query(p)
        judge(vals, p, e, got, zeros)
        out.append(got)
    expect(s.count == len(vals), "%d values were inserted, the summary counts %d", len(vals), s.count)
    if vals or zeros:
        expect(all(a <= b for a, b in zip(out, out[1:])), "the answers at %r are %r: they fall", PS, out)
    if len(case["parts"]) == 1 and vals and not zeros:
        expect(out[0] == min(vals), "the lowest quantile of %r is %r", vals, out[0])
        expect(out[-1] == max(vals), "the highest quantile of %r is %r", vals, out[-1])
    # a query leaves later queries as they are, in any order
    for p, want in list(zip(PS, out))[::-1]:
        expect(s.query(p) == want, "asking again for %r gives %r instead of %r", p, s.query(p), want)
    for k in (3, 7, 11):
        fresh = pickle.loads(blob)
        expect(fresh.query(PS[k]) == out[k], "asked first, %r gives %r instead of %r", PS[k], fresh.query(PS[k]), out[k])
    if case.get("reject"):
        for bad in (-0.001, 1.001, -1, 2):
            try:
                s.query(bad)
            except ValueError:
                continue
            expect(False, "the quantile %r is answered", bad)
    # inserting after a query continues the stream
    if case.get("more") is not None and len(case["parts"]) == 1:
        for v in case["more"]:
            s.insert(v)
        both = vals + [float(v) for v in case["more"]]
        for p in PS:
            judge(both, p, e, s.query(p))
    return out


def run_ops(case):
    """Any sequence of inserting, asking, compressing and merging keeps the answers right."""
    kw = dict(compress_thres=case["thr"], head_size=case["head"], error=case["error"])
    new = lambda: QuantileSummaries(**kw)
    s, ref, k, out = {"a": new(), "b": new()}, {"a": [], "b": []}, 0, []
    for op in case["ops"]:
        o, w = op[0], op[-1]
        if o == "i":
            for _ in range(int(op[1])):
                v = float([3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7][k % 14])
                k += 1
                s[w].insert(v)
                ref[w].append(v)
        elif o == "q":
            for p in (0.5, 0, 1, 0.25):
                got = s[w].query(p)
                judge(ref[w], p, case["error"], got)
                out.append(got)
        elif o == "c":
            s[w].compress()
        elif o == "m":
            v = "b" if w == "a" else "a"
            s[w].merge(s[v])
            ref[w] = ref[w] + ref[v]
            s[v], ref[v] = new(), []
    for w in "ab":
        ps = PS if ref[w] else PS[:1]
        got = [s[w].query(p) for p in ps]
        for p, x in zip(ps, got):
            judge(ref[w], p, case["error"], x)
        expect(s[w].count == len(ref[w]), "%d values went in, the summary counts %d", len(ref[w]), s[w].count)
        out.append(got)
    return out


ERR = [0.0, 0.001, 0.1, 0.25, 0.05]


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of, big=big) for i in range(of))
    for n in range(0, 9 if big else 7):
        add(b="stream", n=n, of=1 if n < 5 else 8 if n < 7 else 32)
    add(b="perm", n=8 if big else 6, of=16)
    add(b="long", of=8)
    add(b="merge", n=6 if big else 5, of=16)
    add(b="merge3", of=8)
    for n in range(0, 8 if big else 6):
        add(b="sparse", n=n, of=1 if n < 4 else 16)
    add(b="sparsemerge", of=4)
    add(b="abnormal", of=2)
    add(b="far", of=8)
    add(b="sparseabnormal", of=8)
    add(b="scale", of=12)
    add(b="ops", n=6 if big else 5, of=12)
    return out


CONF = [(h, t) for h in (1, 2, 3, 10) for t in (1, 2, 4, 100)]


def cases(block):
    b, n, big = block["b"], block.get("n"), block["big"]
    if b == "stream":
        for st in itertools.product((1, 2, 3), repeat=n):
            for h, t in CONF:
                for e in ERR[:4]:
                    yield dict(parts=[list(st)], head=h, thr=t, error=e, more=list(st[:2][::-1]) + [2] if h == 2 else None, reject=h == 1)
    elif b == "perm":
        for st in itertools.permutations(range(1, n + 1)):
            for h, t in ((1, 1), (2, 3), (3, 2), (4, 100), (10, 10)):
                for e in (0.001, 0.1, 0.25):
                    yield dict(parts=[list(st)], head=h, thr=t, error=e)
    elif b == "long":
        # long streams: every rotation and reversal of structured orders
        base = list(range(1, 25))
        orders = [base, base[::2] + base[1::2], [1 + (7 * i) % 24 for i in range(24)], [1 + (5 * i) % 12 for i in range(24)], [1] * 12 + [2] * 12, [1 + (i * i) % 24 for i in range(24)]]
        for o in orders:
            for r in range(24):
                for rev in (False, True):
                    st = o[r:] + o[:r]
                    st = st[::-1] if rev else st
                    for h, t in ((1, 1), (1, 5), (3, 4), (5, 2), (7, 3), (8, 100), (23, 1), (24, 5), (25, 1)):
                        for e in (0.001, 0.01, 0.05, 0.1, 0.2):
                            yield dict(parts=[st], head=h, thr=t, error=e)
    elif b == "merge":
        for m in range(1, n + 1):
            for st in itertools.product((1, 2, 3, 4) if m < 4 else (1, 2, 3), repeat=m):
                for cut in range(0, m + 1):
                    for h, t in ((1, 1), (2, 2), (10, 100)):
                        for e in ERR[:4]:
                            yield dict(parts=[list(st[:cut]), list(st[cut:])], head=h, thr=t, error=e, compress=(h + cut) % 2 == 0)
    elif b == "merge3":
        for st in itertools.permutations(range(1, 7), 6):
            k = sum(st[:3]) % 2
            for parts in ([st[:2], st[2:4], st[4:]], [st[:3], st[3:4], st[4:]], [[], st[:4], st[4:]]):
                for h, t in ((1, 2), (3, 100)):
                    for e in (0.001, 0.1):
                        yield dict(parts=[list(p) for p in parts], head=h, thr=t, error=e, tree="right" if k else "left", compress=bool(k))
    elif b == "sparse":
        for st in itertools.product((-2, -1, 1, 2), repeat=n):
            for zeros in (0, 1, 2, 5):
                if n + zeros == 0:
                    continue
                for h, t in ((1, 1), (2, 3), (10, 100)):
                    for e in (0.001, 0.01, 0.1, 0.25):
                        yield dict(parts=[list(st)], head=h, thr=t, error=e, sparse=True, zeros=zeros)
                    yield dict(parts=[list(st)], head=h, thr=t, error=0.0, slack=0.001, sparse=True, zeros=zeros)
    elif b == "sparsemerge":
        for n in range(1, 5):
            for st in itertools.product((-2, -1, 1, 3), repeat=n):
                for cut in range(n + 1):
                    for zeros in (0, 1, 3):
                        yield dict(parts=[list(st[:cut]), list(st[cut:])], head=2, thr=3, error=0.001, sparse=True, zeros=zeros, compress=True)
    elif b == "abnormal":
        for n in range(1, 6):
            for st in itertools.product((1, 2, 3, -99), repeat=n):
                for abn in ([-99], [-99, 2]):
                    if all(v in abn for v in st):
                        pass
                    yield dict(parts=[list(st)], head=2, thr=3, error=0.001, abnormal=abn)
                    yield dict(parts=[list(st[:n // 2]), list(st[n // 2:])], head=2, thr=3, error=0.1, abnormal=abn)
    elif b == "scale":
        for L in (30, 75, 160, 400) + ((1000, 3000) if big else ()):
            orders = dict(up=list(range(1, L + 1)), down=list(range(L, 0, -1)), stride=[1 + (i * 37) % L for i in range(L)], few=[1 + (i * 7) % 5 for i in range(L)],
                          zigzag=[i if i % 2 else L - i for i in range(1, L + 1)], heavy=[1 + (i % 3 == 0) * (i % 11) for i in range(L)])
            for name, st in orders.items():
                for h, t in ((1, 1), (5, 10), (50, 20), (L, 3), (L - 1, 3), (L + 1, L), (50000, 10000), (13, 10000)):
                    for e in (0.0, 0.001, 0.01, 0.05, 0.2):
                        if h == 1 and L > 200 and e < 0.05:
                            continue
                        yield dict(parts=[st], head=h, thr=t, error=e)
                        if h in (5, 50, 50000):
                            for k in (2, 3, 6):
                                yield dict(parts=[st[i::k] for i in range(k)], head=h, thr=t, error=e, compress=k != 3)
                                yield dict(parts=[st[i * L // k:(i + 1) * L // k] for i in range(k)], head=h, thr=t, error=e, tree="right" if k == 3 else "left", compress=True)
                            for z in (1, L // 2, 3 * L) if e else ():
                                yield dict(parts=[[v - L // 2 - 0.5 for v in st]], head=h, thr=t, error=e, sparse=True, zeros=z)
    elif b == "far":
        # streams longer than any buffer or threshold, also the default ones
        for L in (5000, 12000) if not big else (5000, 12000, 25000, 70000):
            for st in ([i * 7919 % L for i in range(L)], list(range(L)), [(i * 31) % 97 for i in range(L)]):
                for h, t in ((50, 100), (1000, 700), (50000, 10000), (10000, 10000)):
                    for e in (0.001, 0.01):
                        yield dict(parts=[st], head=h, thr=t, error=e)
                        if e == 0.01:
                            yield dict(parts=[st[i::3] for i in range(3)], head=h, thr=t, error=e, compress=h == 50)
                            yield dict(parts=[[v - L // 2 - 0.5 for v in st]], head=h, thr=t, error=e, sparse=True, zeros=L // 3)
    elif b == "ops":
        names = ["i1a", "i2b", "i3a", "qa", "qb", "ca", "cb", "ma", "mb"]
        for m in range(2, n + 1):
            for ops in itertools.product(names, repeat=m):
                if not any(o[0] == "i" for o in ops) or ops[-1][0] in "qc":
                    continue
                # a query straight after a query and such add nothing
                if any(x == y and x[0] in "qcm" for x, y in zip(ops, ops[1:])):
                    continue
                for h, t, e in ((1, 1, 0.1), (2, 2, 0.001), (4, 100, 0.25)) if m < 5 or big else ((2, 2, 0.1),):
                    yield dict(ops=list(ops), head=h, thr=t, error=e)
    elif b == "sparseabnormal":
        # entries marked abnormal are no zeros, stored zeros are
        for n in range(1, 6 if big else 5):
            for st in itertools.product((-2, 0.0, 1, 99, -99), repeat=n):
                for abn in ([99], [-99, 99], [1, 0.0]):
                    for zeros in (0, 2):
                        for e in (0.001, 0.1):
                            yield dict(parts=[list(st)], head=2, thr=3, error=e, sparse=True, zeros=zeros, abnormal=abn)
                        yield dict(parts=[list(st[:n // 2]), list(st[n // 2:])], head=2, thr=3, error=0.001, sparse=True, zeros=zeros, abnormal=abn, compress=n % 2 == 0)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run_case(case), steps=len(case["ops"]) if "ops" in case else sum(map(len, case["parts"])) + len(PS))
        if r is not None:
            ctx.state(core.jsonable(case))
            ctx.outcome(r)


def run_case(case):
    return run_ops(case) if "ops" in case else run(case)
