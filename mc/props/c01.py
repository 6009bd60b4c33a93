"""C01 - tables: every operation computes its definition and leaves its operands alone.

Lock-step exploration: pools of real tables against pools of plain dicts; every sequence
of operations up to a depth, each over every choice of operands; after EVERY step every
table of the pool is compared with its model.
"""
import copy
import itertools

import numpy as np

from mc.core import expect, Violation
from computing.d_table import DTable

META = dict(
    title="Table operations compute their definition and never touch their operands",
    statement="Whatever sequence of table operations is performed, each result is exactly the key-value mapping its operation is defined to give (map, mapValues, mapPartitions, mapReducePartitions, reduce, filter, join, union, subtractByKey, take, first, count, collect), for every key and value including falsy ones, with the left operand's value passed first to a combining function. No operation changes any table that existed before, and the schema of one table is never shared with another. Ill-formed construction (duplicate keys, items that are not pairs, not a list) is rejected.",
    quantifier=dict(over=["histories", "inputs"], text="all operation sequences up to the depth bound, over all tables up to the size bound with keys and values from a small domain that includes falsy ones; single operations and pairs of them on tables of up to 150 rows with many kinds of keys and values and every degree of overlap"),
    why_tests_cant="The unit tests run each operation once on one or two fixed tables and look only at its result; they never chain operations, use falsy keys or values, or look at the operands afterwards.",
    anchors=dict(files=["computing/d_table.py", "computing/_computing.py"],
                 state=[dict(name="table contents", meaning="key to value mapping", where="computing/d_table.py DTable.__init__"),
                        dict(name="schema", meaning="per-table metadata", where="computing/_computing.py CTableABC.schema")],
                 mechanism=[dict(name="every operation builds a new table", where="computing/d_table.py"),
                            dict(name="deep copy before union", where="computing/d_table.py DTable.union")],
                 observe_at=["collect/take/first/count of every table after every operation"], hook_needed=None),
    level="model_checking",
    technique="explicit-state lock-step exploration of the real tables against a dict model, all operation sequences to a depth",
    level_note="Exhaustive within the bounds (all tables of up to 3 of 4 keys over 3 values for single operations; all operation sequences to depth 2 over 16 start pairs and to depth 3 over 2, deeper when thorough). Trusts the 60-line dict model. Iteration order is only constrained to list order for tables built from a list.",
    bounds=dict(quick=dict(keys=4, values=3, max_rows=3, depth=3), thorough=dict(keys=4, values=4, max_rows=4, depth=4)),
    rule="a case is a start pool and a sequence of operations with operands; states are distinct model pools (after every step)",
    assumptions=["values given to reduce are never None (None is its own start value)", "predicates return booleans"],
)

KEYS = [0, 1, "", "k"]
VALS = [0, "", 1, "x"]
# more of them for the large tables: negative, fractional, long, nested
KEYS += [(-i, i + 0.5, "k%d" % i, (i, "p"), 10 ** 12 + i, str(i))[i % 6] for i in range(4, 800)]
VALS += [(-i, i / 4.0, "v%d" % i, (i, ""), [i, 0], False, {"d": i}, [], -0.5)[i % 9] for i in range(4, 200)]


def tables(nkeys, nvals, maxrows):
    for r in range(maxrows + 1):
        for ks in itertools.permutations(range(nkeys), r):
            for vs in itertools.product(range(nvals), repeat=r):
                yield [[k, v] for k, v in zip(ks, vs)]


def build(rows):
    return DTable(True, [(KEYS[k], VALS[v]) for k, v in rows])


def model(rows):
    return {KEYS[k]: VALS[v] for k, v in rows}


def tag(*a):
    return "<" + "|".join(repr(x) for x in a) + ">"


def _mapper(kvs):
    # several records per key, keys shared between records
    out = []
    for k, v in kvs:
        out.append((0, "[%r]" % (k,)))
        out.append(("" if isinstance(k, str) else 1, "[%r]" % (v,)))
    return out


def _multiset(s):
    return sorted(s.replace("][", "]\n[").split("\n"))


def _parts(kvs):
    return [0, len(list(kvs)), ""]


UNARY = ["map", "mapValues", "mapFalsy", "mapNone", "filterKey", "filterVal", "filterNp", "filterNone", "mrp", "parts"]
BINARY = ["join", "joinF", "union", "unionF", "sub"]


def apply_real(op, a, b=None):
    if op == "map":
        return a.map(lambda k, v: tag(k, v))
    if op == "mapValues":
        return a.mapValues(lambda v: tag(v))
    if op == "mapFalsy":
        return a.mapValues(lambda v: 0)
    if op == "mapNone":
        # a value is no reason to lose a row, whatever it is
        return a.mapValues(lambda v: None if v in (1, "") else v)
    if op == "filterKey":
        return a.filter(lambda k, v: isinstance(k, int))
    if op == "filterVal":
        return a.filter(lambda k, v: not v)
    if op == "filterNp":
        return a.filter(lambda k, v: np.bool_(isinstance(v, str)))
    if op == "filterNone":
        return a.filter(lambda k, v: False)
    if op == "mrp":
        return a.mapReducePartitions(_mapper, lambda x, y: x + y)
    if op == "parts":
        return a.mapPartitions(_parts)
    if op == "join":
        return a.join(b)
    if op == "joinF":
        return a.join(b, lambda x, y: tag(x, y))
    if op == "union":
        return a.union(b)
    if op == "unionF":
        return a.union(b, lambda x, y: tag(x, y))
    if op == "sub":
        return a.subtractByKey(b)
    raise KeyError(op)


def apply_model(op, a, b=None):
    if op == "map":
        return {k: tag(k, v) for k, v in a.items()}
    if op == "mapValues":
        return {k: tag(v) for k, v in a.items()}
    if op == "mapFalsy":
        return {k: 0 for k in a}
    if op == "mapNone":
        return {k: None if v in (1, "") else v for k, v in a.items()}
    if op == "filterKey":
        return {k: v for k, v in a.items() if isinstance(k, int)}
    if op == "filterVal":
        return {k: v for k, v in a.items() if not v}
    if op == "filterNp":
        return {k: v for k, v in a.items() if isinstance(v, str)}
    if op == "filterNone":
        return {}
    if op == "mrp":
        out = {}
        for k, v in _mapper(a.items()):
            out[k] = out.get(k, "") + v
        return out
    if op == "parts":
        return dict(enumerate(_parts(a.items())))
    if op in ("join", "joinF"):
        return {k: (tag(a[k], b[k]) if op == "joinF" else a[k]) for k in a if k in b}
    if op in ("union", "unionF"):
        out = dict(a)
        for k, v in b.items():
            out[k] = v if k not in a else (tag(a[k], v) if op == "unionF" else a[k])
        return out
    if op == "sub":
        return {k: v for k, v in a.items() if k not in b}
    raise KeyError(op)


def same(got, want):
    """Same mapping; types of keys and values matter (0 is not '')."""
    return (len(got) == len(want) and
            all(k in got and type(got[k]) is type(want[k]) and got[k] == want[k] for k in want))


def same_mrp(got, want):
    return set(got) == set(want) and all(
        isinstance(got[k], str) and _multiset(got[k]) == _multiset(want[k]) for k in want)


def observe(t, m, who):
    got = list(t.collect())
    expect(len(got) == len(dict(got)) == len(m) and same(dict(got), m), "%s: collect gives %r, the mapping is %r", who, got, m)
    expect(t.count() == len(m), "%s: count gives %r for %r", who, t.count(), m)
    expect(set(t.get_keys()) == set(m), "%s: get_keys", who)
    expect(sorted(map(repr, t.get_values())) == sorted(map(repr, m.values())), "%s: get_values", who)
    expect(sorted(map(repr, t.get_kvs())) == sorted(repr(x) for x in m.items()), "%s: get_kvs", who)
    pairs = {repr(x) for x in m.items()}
    for n in [*range(min(len(m), 12) + 2), len(m) - 1, len(m), len(m) + 1]:
        if n < 0:
            continue
        got = t.take(n)
        expect(isinstance(got, list) and len(got) == min(n, len(m)) == len({repr(x) for x in got})
               and {repr(x) for x in got} <= pairs, "%s: take(%d) gives %r of %r", who, n, got, m)
    f = t.first()
    if m:
        expect(any(repr(f) == repr(v) for v in m.values()), "%s: first gives %r of %r", who, f, m)
    else:
        expect(f is None, "%s: first of an empty table gives %r", who, f)


def check_reduce(t, m, who):
    vals = list(m.values())
    got = t.mapValues(lambda v: (1, [repr(v)])).reduce(lambda x, y: (x[0] + y[0], x[1] + y[1]))
    if not vals:
        expect(got is None, "%s: reduce of an empty table gives %r", who, got)
    else:
        expect(got[0] == len(vals) and sorted(got[1]) == sorted(map(repr, vals)), "%s: reduce gives %r of %r", who, got, vals)
        # the values are folded as they are listed
        expect(got[1] == [repr(v) for v in t.get_values()], "%s: reduce folds %r in the order %r", who, t.get_values(), got[1])
    # the accumulated value may be falsy at any point; a combiner need not be an addition
    for what, num, comb, fold in REDUCERS:
        got = t.mapValues(num).reduce(comb)
        want = fold([num(v) for v in vals]) if vals else None
        expect(type(got) is type(want) and got == want, "%s: reducing %r with %s gives %r", who, [num(v) for v in vals], what, got)
        # the same, within one key and within two keys of mapReducePartitions
        one = dict(t.mapReducePartitions(lambda kvs: [("all", num(v)) for _, v in kvs], comb).collect())
        expect(one == ({"all": want} if vals else {}), "%s: mapReducePartitions of %r with %s gives %r", who, [num(v) for v in vals], what, one)
        two = dict(t.mapReducePartitions(lambda kvs: [(isinstance(v, str), num(v)) for _, v in kvs], comb).collect())
        want = {g: fold([num(v) for v in vals if isinstance(v, str) == g]) for g in {isinstance(v, str) for v in vals}}
        expect(two == want, "%s: mapReducePartitions of %r by type with %s gives %r, expected %r", who, vals, what, two, want)


def _product(xs):
    out = 1
    for x in xs:
        out *= x
    return out


REDUCERS = [
    ("+", lambda v: 1 if v else 0, lambda x, y: x + y, sum),
    ("+", lambda v: 1 if v else -1, lambda x, y: x + y, sum),
    ("max", lambda v: {0: 0, 1: -1, "": -2, "x": 1}[v], max, max),
    ("min", lambda v: {0: 0, 1: 1, "": 2, "x": -1}[v], min, min),
    ("*", lambda v: {0: 0, 1: 2, "": 3, "x": -5}[v], lambda x, y: x * y, _product),
    ("or", lambda v: bool(v), lambda x, y: x or y, any),
    ("and", lambda v: bool(v), lambda x, y: x and y, all),
    ("set union", lambda v: frozenset([v] if v else []), lambda x, y: x | y, lambda xs: frozenset().union(*xs)),
    ("set intersection", lambda v: frozenset([v] if v else [1, "x"]), lambda x, y: x & y, lambda xs: frozenset(xs[0]).intersection(*xs)),
]


def run_history(start, ops, ctx=None):
    real = [build(rows) for rows in start]
    mod = [model(rows) for rows in start]
    for i, t in enumerate(real):
        t.schema["header"] = ["t%d" % i]
    for op in ops:
        name, args = op[0], op[1:]
        r = apply_real(name, *[real[i] for i in args])
        m = apply_model(name, *[mod[i] for i in args])
        got = dict(r.collect())
        who = "%s%r" % (name, tuple(args))
        if name == "mrp":
            expect(same_mrp(got, m), "%s gives %r, expected %r", who, got, m)
            m = got
        else:
            expect(same(got, m), "%s gives %r, expected %r", who, got, m)
        expect(all(r is not t for t in real), "%s returned one of its operands' tables", who)
        r.schema["header"] = ["t%d" % len(real)]
        real.append(r)
        mod.append(copy.deepcopy(m))
        for i, (t, mm) in enumerate(zip(real, mod)):
            g = dict(t.collect())
            expect(same(g, mm) and t.count() == len(mm), "after %s table %d is %r, was %r", who, i, g, mm)
            expect(t.schema == {"header": ["t%d" % i]}, "after %s the schema of table %d is %r", who, i, t.schema)
        if ctx is not None:
            ctx.step()
            ctx.state([sorted(map(repr, x.items())) for x in mod])
    observe(real[-1], mod[-1], "result")


def all_ops(pool):
    for op in UNARY:
        for i in range(pool):
            yield [op, i]
    for op in BINARY:
        for i in range(pool):
            for j in range(pool):
                yield [op, i, j]


def histories(pool, depth):
    if depth == 0:
        yield []
        return
    for op in all_ops(pool):
        for rest in histories(pool + 1, depth - 1):
            yield [op] + rest


STARTS = [
    [[], []], [[], [[0, 0]]], [[[0, 0]], [[0, 1]]], [[[0, 1]], [[2, 2]]],
    [[[0, 0], [1, 2]], [[1, 0], [2, 1]]], [[[2, 1], [0, 0]], [[0, 3], [2, 2]]],
    [[[3, 3], [2, 0]], [[3, 1]]], [[[0, 2], [1, 1], [2, 0]], [[2, 3], [0, 1]]],
    [[[1, 0]], [[1, 1], [0, 0]]], [[[0, 0], [2, 0]], []],
    [[[0, 1], [1, 1], [2, 1], [3, 1]], [[3, 0], [2, 0], [1, 0], [0, 0]]],
    [[[0, 3], [3, 2]], [[1, 3], [3, 0]]], [[[2, 2], [3, 3]], [[0, 0], [1, 1]]],
    [[[1, 3]], [[1, 3]]], [[[3, 0], [1, 1]], [[1, 2], [3, 0], [0, 0]]], [[[2, 0]], [[2, 0], [3, 1]]],
]


def check_construct(case):
    kind = case["kind"]
    if kind == "list":
        vals = [VALS[i] for i in case["vals"]]
        src = list(vals)
        t = DTable(False, src)
        expect(src == vals, "the list given was changed")
        observe(t, dict(enumerate(vals)), "DTable(False, %r)" % (vals,))
        # list order is kept through mapValues, map and filter
        expect([repr(v) for _, v in t.collect()] == [repr(v) for v in vals], "list order lost by collect")
        expect([repr(v) for _, v in t.mapValues(lambda v: v).collect()] == [repr(v) for v in vals], "list order lost by mapValues")
        expect([k for k, _ in t.filter(lambda k, v: not v).collect()] == [i for i, v in enumerate(vals) if not v], "list order lost by filter")
    elif kind == "pairs":
        rows = case["rows"]
        pairs = [(KEYS[k], VALS[v]) for k, v in rows]
        src = list(pairs)
        try:
            t = DTable(True, src)
        except ValueError:
            expect(len({k for k, _ in pairs}) < len(pairs), "distinct keys %r were rejected", pairs)
            return
        expect(len({k for k, _ in pairs}) == len(pairs), "duplicate keys %r were accepted: %r", pairs, dict(t.collect()))
        expect(src == pairs, "the list given was changed")
        observe(t, dict(pairs), "DTable(True, %r)" % (pairs,))
        src.append(("later", 1))
        expect(t.count() == len(pairs), "the table follows its source list")
    elif kind == "bad":
        key, data = BAD[case["i"]]
        try:
            DTable(key, data)
        except TypeError:
            return
        raise Violation("DTable(%r, %r) was accepted" % (key, data))
    elif kind == "empty":
        for a in ((True,), (False,), (True, []), (False, [])):
            observe(DTable(*a), {}, "DTable%r" % (a,))


BAD = [(True, [(0, 1, 2)]), (True, [(0,)]), (True, [5]), (True, [(0, 1), [1, 2]]), (True, ["ab"]),
       (True, {0: 1}), (False, {0: 1}), (True, ((0, 1),)), (False, (1, 2)), (False, "ab"), (False, 5), (1, []),
       (0, [1]), ("yes", [(0, 1)]), (None, [1])]


# keys that read, hash or print alike, but are different keys
ALIKE = [[1, "1", (1,), "(1,)"], ["a", "A", " a", "a "], [0, "0", "", None], [2 ** 61 - 1, "2305843009213693951", -1, -2], [True, "True", "1", 0],
         [1.5, "1.5", 1, 2], [("a", 1), "('a', 1)", ("a", "1"), "a"], ["k1", "k10", "k", "1"], [None, "None", False, ""], [b"a", "a", "b'a'", ("a",)],
         [10 ** 20, "100000000000000000000", 1e21, 10 ** 20 + 1], [float(2 ** 53), 2 ** 53 + 1, str(2 ** 53), -(2 ** 53)]]


def run_alike(case):
    """Both tables hold some of four keys that look alike."""
    ks = ALIKE[case["alike"]]
    ma = {k: "l%d" % i for i, k in enumerate(ks) if case["left"] >> i & 1}
    mb = {k: "r%d" % i for i, k in enumerate(ks) if case["right"] >> i & 1}
    a, b = DTable(True, list(ma.items())), DTable(True, list(mb.items()))
    for op in BINARY:
        got, want = dict(apply_real(op, a, b).collect()), apply_model(op, ma, mb)
        expect(same(got, want), "%s of %r and %r gives %r", op, ma, mb, got)
    observe(a, ma, "table")
    got = dict(a.map(lambda k, v: (k, v)).collect())
    expect(got == {k: (k, v) for k, v in ma.items()}, "map of %r gives %r", ma, got)
    got = dict(a.mapReducePartitions(lambda kvs: [kv for k, v in kvs for kv in ((k, v), (k, "+"))], lambda x, y: x + y).collect())
    expect(set(got) == set(ma) and all(set(got[k]) == set(v + "+") for k, v in ma.items()), "mapReducePartitions of %r gives %r", ma, got)
    got = dict(a.filter(lambda k, v: k == ks[0]).collect())
    expect(got == {k: v for k, v in ma.items() if k == ks[0]}, "filter of %r gives %r", ma, got)


def run_case(case, ctx=None):
    if "kind" in case:
        return check_construct(case)
    if "inplace" in case:
        # a combiner that updates its left argument in place must not reach the left table
        a, b = case["inplace"]
        ta = DTable(True, [(KEYS[k], [v]) for k, v in a])
        tb = DTable(True, [(KEYS[k], [v]) for k, v in b])

        def extend(x, y):
            x.extend(y)
            return x
        r = dict(ta.union(tb, extend).collect())
        da, db = dict(map(tuple, a)), dict(map(tuple, b))
        want = {KEYS[k]: ([da[k]] if k in da else []) + ([db[k]] if k in db else []) for k in set(da) | set(db)}
        expect(r == want, "union with an in-place combiner gives %r, expected %r", r, want)
        left = dict(ta.collect())
        expect(left == {KEYS[k]: [v] for k, v in a}, "union with an in-place combiner changed its left table to %r", left)
        return None
    if "wide" in case:
        n, shift, nv = case["wide"], case["shift"], case["vals"]

        def rows_of(a):
            return [[(a + (i * 7 if n % 7 else i)) % n if a == 0 else a + i, (i * 5 + a) % nv] for i in range(n)]
        start = [rows_of(0), rows_of(shift)]
        if not case["ops"]:
            for rows in start:
                observe(build(rows), model(rows), "table of %d" % n)
                if nv <= 4:
                    check_reduce(build(rows), model(rows), "table of %d" % n)
            return None
        return run_history(start, case["ops"], ctx)
    if "alike" in case:
        return run_alike(case)
    if "single" in case:
        rows = case["single"]
        t, m = build(rows), model(rows)
        observe(t, m, "table")
        check_reduce(t, m, "table")
        observe(t, m, "table afterwards")
        for op in UNARY:
            run_history([rows], [[op, 0]], ctx)
        return None
    return run_history(case["start"], case["ops"], ctx)


def tasks(tier):
    out = [dict(b="construct", n=3 if tier == "quick" else 4)]
    big = tier != "quick"
    out += [dict(b="single", first=k, rows=4 if big else 3, vals=4) for k in range(-1, 4)]
    pool = list(tables(4, 3 if big else 2, 2))
    for i in range(8):
        out.append(dict(b="pairs", part=i, of=8, vals=3 if big else 2))
    _ = pool
    out += [dict(b="wide", n=n, big=big) for n in ((5, 8, 13, 40, 101, 150) if not big else (5, 6, 7, 8, 9, 10, 13, 16, 33, 40, 64, 101, 150, 199))]
    for i in range(len(STARTS)):
        out.append(dict(b="hist", start=i, depth=2, part=0, of=1))
    deep = [4, 14] if not big else range(len(STARTS))
    for i in deep:
        for p in range(8):
            out.append(dict(b="hist", start=i, depth=3, part=p, of=8))
    if big:
        for i in (5,):
            for p in range(64):
                out.append(dict(b="hist", start=i, depth=4, part=p, of=64))
    return out


def explore(ctx, block):
    b = block["b"]

    def go(case, steps=1):
        ctx.state(case)
        ctx.case(case, lambda: run_case(case, ctx), steps=steps)

    if b == "construct":
        go(dict(kind="empty"))
        for i in range(len(ALIKE)):
            for left, right in itertools.product(range(16), repeat=2):
                go(dict(alike=i, left=left, right=right))
        for n in range(block["n"] + 1):
            for vals in itertools.product(range(4), repeat=n):
                go(dict(kind="list", vals=list(vals)))
            for ks in itertools.product(range(4), repeat=n):
                for vs in itertools.product(range(2), repeat=n):
                    go(dict(kind="pairs", rows=[list(x) for x in zip(ks, vs)]))
        for i in range(len(BAD)):
            go(dict(kind="bad", i=i))
    elif b == "single":
        for rows in tables(4, block["vals"], block["rows"]):
            if (rows[0][0] if rows else -1) == block["first"]:
                go(dict(single=rows))
    elif b == "wide":
        n = block["n"]
        for nv in (4, 1, 190):
            for shift in (0, 1, n // 2, n, 2 * n):
                go(dict(wide=n, shift=shift, vals=nv, ops=[]))
                depth = 2 if nv == 190 and shift == n // 2 and (n < 50 or block["big"]) else 1
                for ops in histories(2, depth):
                    case = dict(wide=n, shift=shift, vals=nv, ops=ops)
                    ctx.case(case, lambda: run_case(case, ctx), steps=0)
    elif b == "pairs":
        ts = list(tables(4, block["vals"], 2))
        for i, a in enumerate(ts):
            if i % block["of"] != block["part"]:
                continue
            for c in ts:
                for op in BINARY:
                    go(dict(start=[a, c], ops=[[op, 0, 1]]))
                go(dict(inplace=[a, c]))
    elif b == "hist":
        start = STARTS[block["start"]]
        for i, first in enumerate(all_ops(2)):
            if i % block["of"] != block["part"]:
                continue
            for rest in histories(3, block["depth"] - 1):
                case = dict(start=start, ops=[first] + rest)
                ctx.case(case, lambda: run_case(case, ctx), steps=0)
