"""Reference judgements written from the definitions, independent of the repository's code."""
from mc.core import expect, close

TOL = 2.5e-6          # gains closer than this are ties (the code treats 1e-6 as zero)


def gain(g, h, gl, hl, lam):
    gr, hr = g - gl, h - hl

    def score(a, b):
        return a * a / (b + lam)
    return score(gl, hl) + score(gr, hr) - score(g, h)


def candidates(party, rows):
    """(feature, bin) -> instances going left, over the party's allowed features."""
    for f in range(party.nf):
        if not party.valid[f]:
            continue
        for b in range(party.nbins[f]):
            yield f, b, [i for i in rows if party.rows[i][f] <= b]


def check_tree(tv, parties, gh, p, weights=None, check_threshold=True, ties=None):
    """Node by node: best split over all parties, leaf weights, stop rules.  Returns leaf of each row."""
    lam = p["lam"]
    n = len(gh)
    leaf_of = {}
    depth_seen = tv.check_shape()
    expect(depth_seen <= p["max_depth"], "the tree has %d levels, allowed are %d", depth_seen, p["max_depth"])
    splits = {}

    def walk(nid, rows, level):
        node = tv.nodes[nid]
        g, h = sum(gh[i][0] for i in rows), sum(gh[i][1] for i in rows)
        best, best_at = None, None
        offers = {}                 # partition of the rows -> gain
        if level < p["max_depth"] and len(rows) >= p["min_sample"]:
            for who, party in enumerate(parties):
                for f, b, left in candidates(party, rows):
                    if len(left) < p["min_leaf"] or len(rows) - len(left) < p["min_leaf"]:
                        continue
                    gl, hl = sum(gh[i][0] for i in left), sum(gh[i][1] for i in left)
                    x = gain(g, h, gl, hl, lam)
                    if best is None or x > best:
                        best, best_at = x, (who, f, b)
                    if ties is not None:
                        offers[frozenset(left) if rows[0] in left else frozenset(rows) - frozenset(left)] = x
        if ties is not None and best is not None:
            near = [x for x in offers.values() if x > best - 1e-4 * max(1, abs(best))]
            if len(near) > 1 or abs(best - p["min_impurity"]) < 1e-4:
                ties.append(nid)
        if node.is_leaf:
            expect(best is None or best <= p["min_impurity"] + TOL,
                   "node %d (rows %r) is a leaf although splitting at party/feature/bin %r gains %.9g > %.9g", nid, rows, best_at, best, p["min_impurity"])
            w = -g / (h + lam)
            if rows:
                expect(close(node.weight, w, 1e-6, 1e-9), "leaf %d (rows %r) has weight %r, -G/(H+lambda) is %r", nid, rows, node.weight, w)
            for i in rows:
                leaf_of[i] = nid
            return
        expect(level < p["max_depth"], "node %d at level %d is split, allowed are %d levels", nid, level, p["max_depth"])
        expect(len(rows) >= p["min_sample"], "node %d with %d samples is split, the minimum is %d", nid, len(rows), p["min_sample"])
        who = tv.owner(node)
        party = parties[who]
        f = node.fid
        expect(0 <= f < party.nf and party.valid[f], "node %d is split on feature %r of party %d, which is not allowed", nid, f, who)
        thr = tv.threshold(node)
        hits = [b for b in range(len(party.thresholds[f])) if close(party.thresholds[f][b], thr)]
        expect(len(hits) == 1, "node %d has threshold %r, the split points are %r", nid, thr, party.thresholds[f])
        b = hits[0]
        left = [i for i in rows if party.rows[i][f] <= b]
        right = [i for i in rows if i not in left]
        expect(len(left) >= p["min_leaf"] and len(right) >= p["min_leaf"],
               "node %d is split into %d and %d samples, the minimum is %d", nid, len(left), len(right), p["min_leaf"])
        gl, hl = sum(gh[i][0] for i in left), sum(gh[i][1] for i in left)
        x = gain(g, h, gl, hl, lam)
        expect(x > p["min_impurity"] - TOL, "node %d is split for a gain of %.9g, the minimum is %.9g", nid, x, p["min_impurity"])
        expect(best is not None and x >= best - TOL * max(1, abs(best)),
               "node %d (rows %r) is split at party %d feature %d bin %d for a gain of %.9g; %r gains %.9g", nid, rows, who, f, b, x, best_at, best)
        splits[nid] = (who, f, x, rows)
        walk(node.left_nodeid, left, level + 1)
        walk(node.right_nodeid, right, level + 1)

    walk(0, list(range(n)), 1)
    if weights is not None:
        expect(set(weights) == set(range(n)), "leaf weights were assigned to rows %r of %d", sorted(weights), n)
        for i in range(n):
            expect(close(weights[i], tv.nodes[leaf_of[i]].weight, 1e-9, 1e-12),
                   "row %d got weight %r, its leaf %d has %r", i, weights[i], leaf_of[i], tv.nodes[leaf_of[i]].weight)
    return leaf_of, splits


# ---------------------------------------------------------------------------
# boosting: objectives from their formulas
# ---------------------------------------------------------------------------
import math  # noqa: E402


def _sig(f):
    return 1 / (1 + math.exp(-f)) if f >= 0 else math.exp(f) / (1 + math.exp(f))


def _soft(fs):
    m = max(fs)
    e = [math.exp(x - m) for x in fs]
    return [x / sum(e) for x in e]


def objective(name, params, classes):
    """(mean loss, per-dimension gradients, hessians) of y, f; y is a class number for classification."""
    a = (params or [None])[0]
    a = a if a is not None and abs(a) >= 1e-8 else 1e-8
    if name == "cross_entropy" and classes == 2:
        return (lambda y, f: -math.log(_sig(f[0]) if y == 1 else 1 - _sig(f[0])),
                lambda y, f: [_sig(f[0]) - y], lambda y, f: [_sig(f[0]) * (1 - _sig(f[0]))])
    if name == "cross_entropy":
        return (lambda y, f: -math.log(_soft(f)[y]),
                lambda y, f: [p - (1 if k == y else 0) for k, p in enumerate(_soft(f))],
                lambda y, f: [p * (1 - p) for p in _soft(f)])
    d = lambda y, f: f[0] - y                                              # noqa: E731
    if name == "lse":
        return lambda y, f: d(y, f) ** 2, lambda y, f: [2 * d(y, f)], lambda y, f: [2.0]
    if name == "lae":
        return (lambda y, f: abs(d(y, f)), lambda y, f: [0.0 if abs(d(y, f)) <= 1e-8 else math.copysign(1.0, d(y, f))],
                lambda y, f: [1.0])
    if name == "huber":
        return (lambda y, f: a * a * (math.sqrt(1 + (d(y, f) / a) ** 2) - 1),
                lambda y, f: [d(y, f) / math.sqrt(1 + (d(y, f) / a) ** 2)],
                lambda y, f: [(1 + (d(y, f) / a) ** 2) ** -1.5])
    if name == "fair":
        return (lambda y, f: a * abs(d(y, f)) - a * a * math.log(abs(d(y, f)) / a + 1),
                lambda y, f: [a * d(y, f) / (abs(d(y, f)) + a)],
                lambda y, f: [a * a / (abs(d(y, f)) + a) ** 2])
    if name == "log_cosh":
        return (lambda y, f: abs(d(y, f)) + math.log1p(math.exp(-2 * abs(d(y, f)))) - math.log(2), lambda y, f: [math.tanh(d(y, f))],
                lambda y, f: [1 - math.tanh(d(y, f)) ** 2])
    raise KeyError(name)
