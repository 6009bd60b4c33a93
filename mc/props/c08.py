"""C08 - the encryption modes: fresh or updated, what arrives always decrypts to what was sent."""
import itertools
import random
import zlib

import numpy as np

from mc import core, priv
from mc.core import expect
from mc.props import c07
from computing.d_table import DTable
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.encrypt_mode import EncryptModeCalculator

META = dict(
    title="In every mode and round the encrypted table decrypts to that round's values",
    statement="For each encryption mode and any sequence of tables over the same rows, the table returned for a round decrypts, row by row and component by component, to exactly that round's input, keeps the keys and the row types, and stays valid in later rounds. strict encrypts every value afresh in every round; fast encrypts afresh only in the first and updates afterwards; balance encrypts afresh in the first round and whenever the random draw is at most the re-encryption rate. The input tables are never changed.",
    quantifier=dict(over=["histories", "inputs", "configurations"], text="all sequences of up to three (thorough: four) rounds over a set of row values (including changes down to 1e-10, rows in another table order, and rounds of integers), all row types (tuple, list, array, single number), all modes, all outcomes of the random draw per round, and rates below, at and above the draws; and tables of up to 2000 rows, rows of up to 12 components and histories of up to 70 rounds, sizes enumerated on fixed values"),
    why_tests_cant="No test covers the modes; an update computed from the wrong previous round is exact in round two and wrong from round three on, and only for values that change.",
    anchors=dict(files=["ml/secureprotol/encrypt_mode.py", "ml/secureprotol/fate_paillier.py"],
                 state=[dict(name="prev_data, prev_encrypted_data", meaning="the previous round", where="EncryptModeCalculator")],
                 mechanism=[dict(name="mode choice", where="EncryptModeCalculator.encrypt"),
                            dict(name="difference and update", where="get_differance, add_differance")],
                 observe_at=["returned tables", "number of fresh encryptions", "input tables"], hook_needed=None),
    level="model_checking",
    technique="exhaustive exploration of round histories, modes and random outcomes on the real calculator with opaque and real ciphertexts",
    level_note="Exhaustive within the bounds with opaque ciphertexts; shorter histories with real 256-bit Paillier.",
    bounds=dict(quick=dict(rounds=3, rows=2), thorough=dict(rounds=4, rows=2)),
    rule="a case is (mode, rate, row type, sequence of tables, random draws); states are distinct (mode, decision history, tables)",
    assumptions=["all rounds have the same row keys, as boosting rounds do"],
)


class Opq:
    def __init__(self):
        self.fresh = 0

    def encrypt(self, v):
        self.fresh += 1
        return priv.Opaque(float(v))

    def decrypt(self, c):
        return priv._TABLE[c.token]


class Real:
    def __init__(self):
        self.e = PaillierEncrypt()
        pub, prv = c07.key(256)
        self.e.set_public_key(pub)
        self.e.set_privacy_key(prv)
        self.fresh = 0

    def encrypt(self, v):
        self.fresh += 1
        return self.e.encrypt(v)

    def decrypt(self, c):
        return self.e.decrypt(c)


ROW = {
    "tuple": (lambda vs: tuple(vs), lambda r: list(r), tuple),
    "list": (lambda vs: list(vs), lambda r: list(r), list),
    "array": (lambda vs: np.array(vs, dtype=float), lambda r: list(r), np.ndarray),
    "number": (lambda vs: float(vs[0]), lambda r: [r], None),
}


ALIKE = [["7", 7], ["a", "A"], ["k", "k "], ["1", "01"], [(1, 2), "(1, 2)"], [2 ** 53, 2 ** 53 + 1], [-1, -2], ["10", "9"]]


def keys(n, alike=False):
    return (["a", 7] if not alike else ALIKE[alike - 1])[:n] + ["k%d" % i if i % 3 else 1000 + i for i in range(2, n)]


def widen(case):
    """Many rows, components and rounds; the values follow from the sizes."""
    w = case["wide"]
    rounds = [[[(zlib.crc32(b"%d %d %d" % (r if (i + c) % 3 else 0, i, c)) % 2001 - 1000) / 64.0 for c in range(w["width"])] for i in range(w["rows"])] for r in range(w["rounds"])]
    draws = [0.5] + [0.2 if (w["pattern"] >> (r % 3)) & 1 else 0.9 for r in range(w["rounds"] - 1)]
    return dict(case, rounds=rounds, draws=draws)



def make_int(row, vs):
    """The same (whole) values as integers."""
    vs = [int(v) for v in vs]
    return np.array(vs) if row == "array" else vs[0] if row == "number" else ROW[row][0](vs)


def run(case):
    if "wide" in case:
        case = widen(case)
    KEYS = keys(len(case["rounds"][0]), case.get("alike"))
    priv._TABLE.clear()
    enc = Real() if case.get("real") else Opq()
    make, parts, typ = ROW[case["row"]]
    calc = EncryptModeCalculator(enc, case["mode"], case["rate"])
    saved = random.random
    draws = []
    history = []
    try:
        for rnd, vals in enumerate(case["rounds"]):
            items = [(k, make(v)) for k, v in zip(KEYS, vals)]
            if case.get("ints") and case["ints"][rnd]:
                items = [(k, make_int(case["row"], v)) for k, v in zip(KEYS, vals)]
            if case.get("order") and case["order"][rnd]:
                items.reverse()
            table = DTable(True, items)
            before = enc.fresh

            def draw():
                draws.append(rnd)
                return case["draws"][rnd]
            random.random = draw
            out = calc.encrypt(table)
            random.random = saved
            got = dict(out.collect())
            expect(set(got) == set(KEYS), "round %d returns the keys %r", rnd, sorted(map(repr, got)))
            history.append((got, vals))
            n = sum(len(v) if typ is not None else 1 for v in vals)
            fresh = enc.fresh - before
            if case["mode"] == "strict" or rnd == 0:
                want = n
            elif case["mode"] == "fast":
                want = 0
            else:
                want = n if case["draws"][rnd] <= case["rate"] + 1e-8 else 0
            expect(fresh == want, "mode %s encrypts %d values afresh in round %d, expected %d of %d (draw %r, rate %r)", case["mode"], fresh, rnd, want, n, case["draws"][rnd], case["rate"])
            # this round and all earlier ones decrypt to their inputs
            for old, (g, v) in enumerate(history):
                for at, (k, row) in enumerate(zip(KEYS, v)):
                    if typ is not None:
                        expect(isinstance(g[k], typ), "round %d returns rows of type %s for %s", old, type(g[k]).__name__, typ.__name__)
                    cs = parts(g[k])
                    expected = row if typ is not None else row[:1]
                    expect(len(cs) == len(expected), "round %d returns %d components for row %r of %d", old, len(cs), k, len(expected))
                    for j, (c, x) in enumerate(zip(cs, expected)):
                        d = enc.decrypt(c)
                        size = max([abs(h[1][at][j]) for h in history])
                        expect(abs(d - x) <= 1e-12 * size + 1e-30, "after round %d, round %d's row %r decrypts to %r instead of %r (inputs %r)", rnd, old, k, d, x, [h[1] for h in history])
            # the input is untouched
            now = dict(table.collect())
            for k, v in zip(KEYS, vals):
                expect(parts(now[k]) == (v if typ is not None else v[:1]), "round %d changed the input row %r to %r", rnd, k, now[k])
    finally:
        random.random = saved
    return [repr(h[1]) for h in history]


ROWS = [[0.5, 0.25], [-1.5, 2.0], [0.0, 0.0]]


def tasks(tier):
    big = tier != "quick"
    out = []
    for row in ROW:
        for mode in ("strict", "fast", "balance"):
            n = 2 if big else 1
            out.extend(dict(row=row, mode=mode, rounds=4 if big else 3, part=i, of=n, real=False) for i in range(n))
    out.extend(dict(row=row, mode=mode, rounds=4 if big else 3, part=0, of=1, real=real, extra=extra) for row in ROW for mode in ("fast", "balance", "strict")
               for extra in ("order", "drift", "small", "ints") for real in (False, True))
    out.extend(dict(row=row, mode=mode, real=real, part=0, of=1, wide=4 if big else 1) for row in ROW for mode in ("fast", "balance", "strict") for real in (False, True))
    out.extend(dict(row=row, mode=mode, rounds=3, part=0, of=1, real=True) for row in ROW for mode in ("fast", "balance", "strict"))
    return out


DRIFT = [[0.5, 0.25], [0.500004, 0.25], [0.50004, 0.249998], [1e-7, 0.25], [0.5, 0.2500000001]]
SMALL = [[1e-10, 2.0], [3e-10, 2.0], [0.0, 2e-13], [-1e-16, 2.0], [1e-25, 0.0]]
WHOLE = [[1.0, 2.0], [-3.0, 0.0]]


def extra_cases(block):
    """Other row orders, tiny changes, and integers in some rounds."""
    n, extra = block["rounds"], block["extra"]
    if block["mode"] == "balance":
        combos = [(0.5, d) for d in itertools.product((0.2, 0.9), repeat=n - 1)]
    else:
        combos = [(1, (0.0,) * (n - 1))]
    if block["real"]:
        combos, n = combos[-1:], min(n, 3)
    base = dict(row=block["row"], mode=block["mode"], real=block["real"])
    for rate, d in combos:
        base.update(rate=rate, draws=[0.5] + list(d))
        if extra == "order":
            seqs = [[[ROWS[i], ROWS[j]] for i, j in zip(a, b)] for a, b in (((0, 1, 2, 0), (1, 0, 1, 2)), ((0, 0, 1, 1), (1, 1, 2, 0)))]
            for seq in seqs:
                for order in itertools.product((0, 1), repeat=n):
                    yield dict(base, rounds=seq[:n], order=list(order))
                    for alike in range(1, len(ALIKE) + 1):
                        if sum(order) in (0, 1):
                            yield dict(base, rounds=seq[:n], order=list(order), alike=alike)
        elif extra in ("drift", "small"):
            pool = DRIFT if extra == "drift" else SMALL
            for ids in itertools.product(range(len(pool)), repeat=n):
                if not block["real"] or len(set(ids)) == n:
                    yield dict(base, rounds=[[pool[i], pool[(i + r) % len(pool)]] for r, i in enumerate(ids)])
        else:
            for ints in itertools.product((0, 1), repeat=n):
                for vals in itertools.product((0, 1, 2, 3) if not block["real"] else (0, 3), repeat=n):
                    rounds = [[WHOLE[v % 2], WHOLE[v // 2]] if i else [ROWS[v % 2], ROWS[v // 2]] for i, v in zip(ints, vals)]
                    yield dict(base, rounds=rounds, ints=list(ints))


def wide_cases(block):
    base = dict(row=block["row"], mode=block["mode"], rate=0.5, real=block["real"])
    if block["real"]:
        sizes = [(9, 2, 3), (2, 5, 2), (1, 2, 6)]
    else:
        sizes = [(n, w, r) for n in (1, 2, 3, 9, 33, 130) for w in (1, 2, 5) for r in (1, 2, 5, 9, 16)]
        sizes += [(3, 2, r) for r in (20, 40, 70)]
        sizes += [(2000 * block["wide"], 2, 2), (300, 2, 12 * block["wide"]), (300, 12 * block["wide"], 3)]
    for n, w, r in sizes:
        for pattern in (range(8) if block["mode"] == "balance" and r > 1 and n < 1000 else (2,)):
            yield dict(base, wide=dict(rows=n, width=w, rounds=r, pattern=pattern))


def cases(block):
    if block.get("wide"):
        yield from wide_cases(block)
        return
    if block.get("extra"):
        yield from extra_cases(block)
        return
    n = block["rounds"]
    one = [[a, b] for a in ROWS for b in (ROWS[0], ROWS[1])]
    if block["real"]:
        one = [one[0], one[3]]
    elif n == 4:
        one = [[a, ROWS[1 - i % 2]] for i, a in enumerate(ROWS)]
    if block["mode"] == "balance":
        combos = [(rate, d) for rate in (0, 0.3, 0.5, 1) for d in itertools.product((0.0, 0.5, 0.999) if not block["real"] else (0.2, 0.9), repeat=n - 1)]
        if block["real"]:
            combos = [c for c in combos if c[0] == 0.5]
    else:
        combos = [(1, (0.0,) * (n - 1)), (0.1, (0.999,) * (n - 1))]
    for rounds in itertools.product(one, repeat=n):
        for rate, d in combos:
            yield dict(row=block["row"], mode=block["mode"], rate=rate, draws=[0.5] + list(d), rounds=[list(r) for r in rounds], real=block["real"])


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run(case), steps=len(case["rounds"]) if "rounds" in case else case["wide"]["rounds"])
        if r is not None:
            ctx.state(core.jsonable(case))
            ctx.outcome((case["mode"], r))


def run_case(case):
    return run(case)
