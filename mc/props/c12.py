"""C12 - split search: guest and host consider exactly the admissible splits and pick the best."""
import itertools

from mc import compat, core, priv, scale  # noqa: F401
from mc.core import expect, close
from ml.tree.creterion import XgboostCriterion
from ml.tree.splitter import Splitter

META = dict(
    title="Split search considers exactly the admissible splits and finds the best one",
    statement="For every accumulated histogram, the guest's search returns a feature and bin whose gain is the maximum over all admissible splits (usable features, enough rows in the node and on both sides, gain above the minimum) together with the left sums of that very split, and reports no split exactly when none qualifies. The host's search lists every admissible split of its usable features once, with its feature, bin and left sums, and the sums it hands out for encryption-side evaluation stand at the same positions. Several nodes are answered in the order asked. Gains and leaf weights follow G^2/(H+lambda) and -G/(H+lambda).",
    quantifier=dict(over=["inputs", "configurations"], text="all histograms of one or two features with up to three bins (one feature: four; thorough one more each) over small sets of gradients and row counts, all masks, minimum sizes 1-3, minimum samples, minimum gains and regularisations (including none) from small sets, one to three nodes; fixed histograms of up to 12 features, 40 bins and 11 nodes"),
    why_tests_cant="No test covers the search; boundary rows counts, empty bins, negative gains and ties decide it, and they occur only for particular histograms.",
    anchors=dict(files=["ml/tree/splitter.py", "ml/tree/creterion.py", "ml/tree/node.py"],
                 state=[dict(name="SplitInfo", meaning="candidate split", where="ml.tree.node")],
                 mechanism=[dict(name="guest search", where="find_split, find_split_single_histogram_guest"),
                            dict(name="host candidate list", where="find_split_host, find_split_single_histogram_host"),
                            dict(name="gain and weight", where="XgboostCriterion")],
                 observe_at=["returned split infos"], hook_needed=None),
    level="model_checking",
    technique="bounded-exhaustive enumeration of histograms and limits against a brute-force reference",
    level_note="Exhaustive over the stated space; gains within 2.5e-6 of each other or of the minimum count as ties. The last bin (an empty right side) is excluded by the minimum leaf size, which is at least 1.",
    bounds=dict(quick=dict(features=2, bins=3, nodes=3), thorough=dict(features=2, bins=4, nodes=3)),
    rule="a case is (histograms, mask, limits); states are distinct cases; outcomes are distinct choices",
    assumptions=["min_leaf_node >= 1", "all features of a node sum to the same totals, as histograms do"],
)
TOL = 2.5e-6


def accumulate(feats):
    out = []
    for f in feats:
        run, acc = [0.0, 0.0, 0], []
        for c in f:
            run = [run[0] + c[0], run[1] + c[1], run[2] + c[2]]
            acc.append(list(run))
        out.append(acc)
    return out


def gain(lam, s, left):
    r = [s[0] - left[0], s[1] - left[1]]
    q = lambda g, h: g * g / (h + lam)      # noqa: E731
    return q(left[0], left[1]) + q(*r) - q(s[0], s[1])


def admissible(hist, valid, c):
    for f, acc in enumerate(hist):
        if not valid[f] or not acc:
            continue
        tot = acc[-1]
        if tot[2] < c["min_sample"]:
            continue
        for b, left in enumerate(acc):
            if left[2] >= c["min_leaf"] and tot[2] - left[2] >= c["min_leaf"]:
                yield f, b, left, gain(c["lam"], tot, left)


def run(case):
    c = case
    s = Splitter("xgboost", c["crit"] if "crit" in c else [c["lam"]], c["min_impurity"], c["min_sample"], c["min_leaf"])
    # another search of the same process, with limits of its own, is made and used in between
    other = Splitter("xgboost", [c["lam"] + 2.5], c["min_impurity"] + 1.0, c["min_sample"] + 2, c["min_leaf"] + 1)
    expect(close(other.node_weight(2.0, 1.0), -2.0 / (c["lam"] + 3.5)), "a second splitter's weight is %r", other.node_weight(2.0, 1.0))
    # a usable feature without any bin offers no split, and hides none of another feature
    hists = [[acc if f not in case.get("empty", ()) else [] for f, acc in enumerate(accumulate(n))] for n in case["nodes"]]
    valid = list(case["valid"])
    masked = [[acc if valid[f] or not case.get("drop") else [] for f, acc in enumerate(h)] for h in hists]
    copy = repr(masked)
    infos = s.find_split(masked, valid)
    expect(len(infos) == len(hists), "%d answers for %d nodes", len(infos), len(hists))
    out = []
    for k, (info, h) in enumerate(zip(infos, hists)):
        cand = list(admissible(h, valid, c))
        best = max((x[3] for x in cand), default=None)
        if info.best_fid is None:
            expect(best is None or best <= c["min_impurity"] + TOL, "node %d: no split is reported, but one gains %r > %r", k, best, c["min_impurity"])
            expect(info.gain <= c["min_impurity"] + TOL, "node %d: no split is reported with a gain of %r above the minimum", k, info.gain)
        else:
            hit = [x for x in cand if x[0] == info.best_fid and x[1] == info.best_bid]
            expect(len(hit) == 1, "node %d: the split at feature %r bin %r is not admissible", k, info.best_fid, info.best_bid)
            f, b, left, g = hit[0]
            expect(g >= best - TOL and g > c["min_impurity"] - TOL, "node %d: the chosen split gains %r, the best one %r (minimum %r)", k, g, best, c["min_impurity"])
            expect(close(info.gain, g, 1e-6, 1e-7), "node %d: the gain %r is reported as %r", k, g, info.gain)
            expect(close(info.sum_grad, left[0], 1e-9, 1e-9) and close(info.sum_hess, left[1], 1e-9, 1e-9),
                   "node %d: left sums %r, %r are reported for the split with %r", k, info.sum_grad, info.sum_hess, left)
            expect(info.sitename == "guest", "node %d: the guest's split is attributed to %r", k, info.sitename)
            out.append((f, b))
    # host
    priv._TABLE.clear()
    ench = [[[[priv.Opaque(x[0]), priv.Opaque(x[1]), x[2]] for x in acc] for acc in h] for h in masked]
    si, sums = s.find_split_host(ench, valid, "host.3")
    expect(len(si) == len(hists) and len(sums) == len(hists), "%d/%d candidate lists for %d nodes", len(si), len(sums), len(hists))
    for k, h in enumerate(hists):
        want = {(f, b): left for f, b, left, _ in admissible(h, valid, c)}
        got = [(x.best_fid, x.best_bid) for x in si[k]]
        expect(sorted(got) == sorted(want), "node %d: the host lists the splits %r, admissible are %r", k, got, sorted(want))
        expect(len(sums[k]) == len(si[k]), "node %d: %d sums for %d candidates", k, len(sums[k]), len(si[k]))
        for x, (gl, hl) in zip(si[k], sums[k]):
            left = want[(x.best_fid, x.best_bid)]
            v = [priv._TABLE[y.token] for y in (gl, hl, x.sum_grad, x.sum_hess)]
            expect(close(v[0], left[0]) and close(v[1], left[1]) and close(v[2], left[0]) and close(v[3], left[1]),
                   "node %d: the candidate at feature %d bin %d carries the sums %r instead of %r", k, x.best_fid, x.best_bid, v, left)
            expect(x.sitename == "host.3", "node %d: the host's split is attributed to %r", k, x.sitename)
    # the same search on numbers that compare equal, as without encryption
    si, sums = s.find_split_host(masked, valid, "host.3")
    for k, h in enumerate(hists):
        want = {(f, b): left for f, b, left, _ in admissible(h, valid, c)}
        got = [(x.best_fid, x.best_bid) for x in si[k]]
        expect(sorted(got) == sorted(want), "node %d: the host lists the splits %r of plain numbers, admissible are %r", k, got, sorted(want))
        expect([tuple(map(float, x)) for x in sums[k]] == [tuple(map(float, want[g][:2])) for g in got], "node %d: the sums of plain numbers stand at other positions", k)
    expect(repr(masked) == copy, "the search changed the histograms")
    # criterion
    one = next(acc for acc in hists[0] if acc)
    tot = one[-1]
    for g, hh in [(tot[0], tot[1])] + [(x[0], x[1]) for x in one]:
        if min(hh, tot[1] - hh, tot[1]) + c["lam"] <= 0:
            continue
        expect(close(s.node_weight(g, hh), -g / (hh + c["lam"])), "weight of G=%r H=%r is %r", g, hh, s.node_weight(g, hh))
        expect(close(s.node_gain(g, hh), g * g / (hh + c["lam"])), "gain of G=%r H=%r is %r", g, hh, s.node_gain(g, hh))
        sg = s.split_gain(tot[0], tot[1], g, hh, tot[0] - g, tot[1] - hh)
        expect(close(sg, gain(c["lam"], tot, [g, hh]), 1e-9, 1e-9), "split gain of %r at %r is %r", tot, [g, hh], sg)
        expect(close(XgboostCriterion(c["lam"]).split_gain([tot[0], tot[1]], [g, hh], [tot[0] - g, tot[1] - hh]), sg), "the criterion and the splitter disagree")
    return out


CELLS = [(0.0, 0.0, 0), (1.0, 1.0, 1), (-2.0, 1.0, 1), (2.5, 2.0, 2), (-1.0, 0.5, 3), (0.0, 1.0, 1)]
LIMITS = [dict(min_sample=ms, min_leaf=ml, min_impurity=mi, lam=lam) for ms in (2, 3, 5) for ml in (1, 2, 3) for mi in (1e-3, 0.0, 2.0) for lam in (0.1, 1.0, 0.0)]

TINY = [(1e-3, 1e-6, 1), (-2.0, 1e-4, 2), (2.0, 1e-9, 1), (-1.0, 0.9e-3, 3), (300.0, 2.0, 5), (1.0, 0.0, 1), (0.5, 1.0, 2)]


def lam_ok(lim):
    return lim["lam"] > 0


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of) for i in range(of))
    add(b="one", bins=3, of=2)
    add(b="one", bins=4, of=8)
    add(b="two", of=16, bins=3)
    if big:
        add(b="one", bins=5, of=32)
        add(b="two", of=64, bins=4)
    add(b="mask", of=4)
    add(b="nodes", of=2)
    add(b="crit")
    add(b="scale", of=4)
    add(b="tiny", of=4)
    add(b="tail", of=4)
    add(b="null", of=4)
    return out


def cases(block):
    b = block["b"]
    if b == "crit":
        # no usable regularisation given: the default of 0.1
        for crit in (None, [], ["x"], [None], [[1.0]], ["0.5"], [2, "x"], [1.0, 0.0]):
            lam = dict(_0_5=0.5, _2=2.0, _1_0=1.0).get("_" + str((crit or [""])[0]).replace(".", "_"), 0.1)
            for f in itertools.product(CELLS[1:], repeat=3):
                yield dict(dict(min_sample=2, min_leaf=1, min_impurity=1e-3, lam=lam), crit=crit, nodes=[[f]], valid=[True])
    elif b == "one":
        for f in itertools.product(CELLS, repeat=block["bins"]):
            for lim in LIMITS:
                yield dict(lim, nodes=[[f]], valid=[True])
    elif b == "two":
        n = block["bins"]
        for f in itertools.product(CELLS, repeat=n):
            for f2 in sorted(set(itertools.permutations(f))):
                f2 = list(f2)
                merged = f2[:-2] + [tuple(x + y for x, y in zip(f2[-2], f2[-1]))]
                for lim in LIMITS:
                    for second in (f2, merged):
                        yield dict(lim, nodes=[[f, second]], valid=[True, True])
    elif b == "mask":
        fs = [(CELLS[1], CELLS[2], CELLS[3]), (CELLS[2], CELLS[1], CELLS[3]), (CELLS[3], CELLS[2], CELLS[1]), (CELLS[0], CELLS[4], CELLS[1])]
        for trio in itertools.product(fs[:3], repeat=3):
            for valid in itertools.product([True, False], repeat=3):
                for drop in (True, False):
                    for lim in LIMITS:
                        yield dict(lim, nodes=[list(trio)], valid=list(valid), drop=drop)
                        if all(valid) and drop:
                            for empty in ([0], [1], [2], [0, 1], [0, 2], [1, 2]):
                                yield dict(lim, nodes=[list(trio)], valid=list(valid), empty=empty)
                                yield dict(lim, nodes=[list(trio), list(trio)[::-1]], valid=list(valid), empty=empty)
    elif b == "scale":
        h = scale.h
        for m, nb, nn in itertools.product((1, 3, 7, 12), (1, 2, 6, 15, 40), (1, 2, 5, 11)):
            nodes = []
            for k in range(nn):
                rows = [((h(k, i, "g") % 64 - 32) / 8.0, (1 + h(k, i, "h") % 16) / 16.0, [h(k, i, f) % nb for f in range(m)]) for i in range(4 + h(k, m, nb) % 40)]
                nodes.append([[tuple(map(sum, zip((0.0, 0.0, 0), *[(r[0], r[1], 1) for r in rows if r[2][f] == b]))) for b in range(nb)] for f in range(m)])
            for valid in ([True] * m, [f % 3 != 0 or m == 1 for f in range(m)]):
                for lim in LIMITS[::5]:
                    yield dict(lim, nodes=nodes, valid=valid, drop=valid[0])
    elif b == "tiny":
        # magnitudes: hessians down to rounding noise and gradients far from one
        for f in itertools.product(TINY, repeat=3):
            for lim in LIMITS:
                if lam_ok(lim) and lim["min_sample"] == 2:
                    yield dict(lim, nodes=[[f]], valid=[True])
        for f in itertools.product([(0.01, 1.0, 1), (-0.02, 0.5, 1), (0.05, 1.0, 2), (-0.3, 0.25, 1)], repeat=3):
            for mi in (0.0, 1e-5, 1e-4, 1e-3, 0.01, 0.05):
                for lam in (0.1, 0.5, 1.0):
                    yield dict(min_sample=2, min_leaf=1, min_impurity=mi, lam=lam, nodes=[[f]], valid=[True])
    elif b == "null":
        # rows without gradient or hessian still count as rows
        cells = [(0.0, 0.0, 2), (0.0, 0.0, 0), (1.0, 1.0, 1), (-2.0, 1.0, 1), (0.0, 0.0, 1)]
        for f in itertools.product(cells, repeat=4):
            if sum(x[1] for x in f) > 0:
                for lim in LIMITS:
                    if lim["lam"] == 1.0:
                        yield dict(lim, nodes=[[f]], valid=[True])
    elif b == "tail":
        # many bins, features or nodes, the best split at every position
        lim = dict(min_sample=2, min_leaf=1, min_impurity=1e-3, lam=0.1)
        up, down = (1.0, 0.5, 1), (-1.5, 0.5, 1)
        for j in range(300):
            yield dict(lim, nodes=[[[up if i <= j else down for i in range(301)]]], valid=[True])
            flat, best = [up, up], [up, down]
            yield dict(lim, nodes=[[best if f == j else flat for f in range(300)]], valid=[True] * 300)
            if j % 10 == 9 or j > 250:
                yield dict(lim, nodes=[[best if k == j else flat] for k in range(300)], valid=[True])
    elif b == "nodes":
        fs = [(CELLS[1], CELLS[2], CELLS[3]), (CELLS[2], CELLS[0], CELLS[0]), (CELLS[0], CELLS[0], CELLS[0]), (CELLS[4], CELLS[1], CELLS[2])]
        for n in (1, 2, 3):
            for hs in itertools.product(fs, repeat=n):
                for lim in LIMITS:
                    yield dict(lim, nodes=[[h] for h in hs], valid=[True])


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run(case))
        if r is not None:
            ctx.state(core.jsonable(case))
            ctx.outcome(r)


def run_case(case):
    return run(case)
