"""C22 - fixed-point numbers: coding and arithmetic."""
import itertools
import math
import operator
from fractions import Fraction

import numpy as np

from mc import compat, core, scale
from mc.core import expect
from ml.secureprotol.fixedpoint import FixedPointNumber as Fix

META = dict(
    title="Fixed-point numbers code and compute reals to floating-point accuracy",
    statement="Encoding a number and decoding it gives it back: integers exactly, reals to a relative error of 2^-50 or within half the precision asked for, magnitudes below 1e-200 as 0; an exponent asked for is at least reached. What does not fit the range, is not finite or is no number is refused. Sums, differences, products and quotients of fixed-point numbers and plain numbers, on either side and in any nesting, are those of the hidden numbers to floating-point accuracy (integers exactly) while they and their aligned encodings fit the range, in the default ring and in that of a key; a sum that leaves the range is reported when it is decoded or built. Comparisons agree with those of the decoded numbers. Raising the exponent keeps the value, lowering it is refused. No operation changes its operands.",
    quantifier=dict(over=["inputs", "histories", "configurations"], text="all pairs and triples of values over pools of ints, floats and numpy scalars of very different magnitude and sign, all operators on both sides, several rings, precisions and exponents; all integers of small rings and all their pairs; chains of up to a hundred operations"),
    why_tests_cant="Nothing tests the number coding under the encryption. Sign handling, range ends and exponent alignment fail only for particular magnitudes and orders of operations.",
    anchors=dict(files=["ml/secureprotol/fixedpoint.py", "ml/secureprotol/fate_paillier.py"],
                 state=[dict(name="encoding, exponent, n", meaning="value = signed encoding * 16^-exponent", where="FixedPointNumber")],
                 mechanism=[dict(name="coding", where="encode, decode"), dict(name="alignment", where="increase_exponent_to"), dict(name="arithmetic", where="operators")],
                 observe_at=["decode", "comparison results", "errors"], hook_needed=None),
    level="model_checking",
    technique="exhaustive enumeration of value tuples and operator nestings against exact rational arithmetic",
    level_note="Exhaustive over the stated pools; small rings over all their integers.",
    bounds=dict(quick=dict(pool=18, nesting=2, ring=101), thorough=dict(pool=30, nesting=2, ring=211)),
    rule="a case is a tuple of values with operators and a ring; states are distinct cases, outcomes distinct results",
    assumptions=["aligned encodings and products fit the range of the ring (the alignment of wildly different magnitudes is not detected)"],
)

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
BIG_N = 2 ** 255 - 19


def val(v):
    """A value of the pool from its JSON form."""
    if isinstance(v, list):
        return getattr(np, v[0])(v[1])
    return v


def ring(n):
    return {} if n is None else dict(n=n, max_int=n // 3 - 1)


def signed(x):
    if x.encoding <= x.max_int:
        return x.encoding
    if x.encoding >= x.n - x.max_int:
        return x.encoding - x.n
    return None


def value(x):
    m = signed(x)
    return None if m is None else Fraction(m) * Fraction(16) ** -x.exponent


def frac(v):
    return Fraction(int(v)) if isinstance(v, (int, np.integer)) else Fraction(float(v))


def snap(x):
    return (x.encoding, x.exponent, x.n, x.max_int) if isinstance(x, Fix) else x


def run_code(case):
    v = val(case["v"])
    f = frac(v)
    kw = dict(ring(case["n"]))
    p, m = case.get("precision"), case.get("exponent")
    if p is not None:
        kw["precision"] = p
    if m is not None:
        kw["max_exponent"] = m
    top = (kw.get("n", Fix.Q)) // 3 - 1
    try:
        x = Fix.encode(v, **kw)
    except (ValueError, OverflowError):
        # refused: must be because it does not fit at the unit that was asked for
        e = 0 if isinstance(v, (int, np.integer)) and p is None else (53 - math.frexp(float(v))[1]) // 4 if p is None else math.ceil(-math.log(p, 16) + 1e-9) + 1
        e = max(e, m if m is not None else e)
        expect(abs(f) * Fraction(16) ** e * 2 > top, "%r is refused (%r)", v, kw)
        return "refused"
    expect(x.exponent >= m if m is not None else True, "exponent %r is less than the %r asked for", x.exponent, m)
    got = value(x)
    expect(got is not None and abs(signed(x)) <= top, "%r is coded outside the range: %r", v, snap(x))
    d = x.decode()
    if abs(f) < Fraction(1e-200) and p is None:
        expect(d == 0, "%r comes back as %r", v, d)
        return d
    tol = abs(f) / 2 ** 50 + (Fraction(p) * Fraction(501, 1000) if p is not None else 0)
    if isinstance(v, (int, np.integer)) and p is None:
        expect(got == f, "the integer %r is coded as %s", v, got)
        if m is None or m <= 0:
            expect(d == int(v), "the integer %r comes back as %r", v, d)
        tol = abs(f) / 2 ** 50
    expect(abs(got - f) <= tol, "%r is coded as %s", v, float(got))
    expect(abs(frac(d) - f) <= tol, "%r comes back as %r", v, d)
    for up in (0, 1, 7):
        if abs(signed(x)) * 16 ** up <= top:
            was = snap(x)
            y = x.increase_exponent_to(x.exponent + up)
            expect(snap(x) == was and y.exponent == x.exponent + up and value(y) == got and y.n == x.n, "raising the exponent of %r by %d gives %r", v, up, snap(y))
            expect(abs(frac(y.decode()) - f) <= tol, "after raising the exponent %r comes back as %r", v, y.decode())
    try:
        x.increase_exponent_to(x.exponent - 1)
    except ValueError:
        pass
    else:
        expect(False, "the exponent was lowered")
    return d


BAD = {"nan": float("nan"), "inf": float("inf"), "-inf": -float("inf"), "str": "1.5", "none": None, "list": [1.0], "complex": 1j}


def run_bad(case):
    if case["v"] in BAD:
        try:
            x = Fix.encode(BAD[case["v"]])
        except (TypeError, ValueError, OverflowError):
            return "refused"
        expect(False, "%r is coded as %r", BAD[case["v"]], snap(x))
    # corrupted numbers
    n = 1009
    top = n // 3 - 1
    e = case["v"]
    x = Fix(e, 0, n, top)
    try:
        d = x.decode()
    except (ValueError, OverflowError):
        expect(e >= n or top < e < n - top, "the encoding %d is not decoded", e)
        return "refused"
    expect((e <= top and d == e) or (n - top <= e < n and d == e - n), "the encoding %d is decoded as %r", e, d)
    return d


def fits(x, y, op, top):
    """May this operation be judged? (exact result and alignment within the range)"""
    a, b = signed(x), signed(y)
    if op == "*":
        return abs(a * b) <= top
    e = max(x.exponent, y.exponent)
    return abs(a) * 16 ** (e - x.exponent) <= top and abs(b) * 16 ** (e - y.exponent) <= top


TINY = Fraction(1, 10 ** 199)


def apply(op, x, y, top):
    """x op y on the real class, judged; None when it may not be judged."""
    fx, fy = (value(v) if isinstance(v, Fix) else frac(v) for v in (x, y))
    fx, fy = (v if abs(v) >= Fraction(1e-200) else Fraction(0) for v in (fx, fy))     # counts as 0
    ref = x if isinstance(x, Fix) else y
    kw = dict(n=ref.n, max_int=ref.max_int)
    ex, ey = (v if isinstance(v, Fix) else Fix.encode(v, **kw) for v in (x, y))
    if op == "/":
        if fy == 0:
            try:
                OPS[op](x, y)
            except ZeroDivisionError:
                return None
            expect(False, "dividing %r by zero gives a result", x)
        if isinstance(y, (np.float32, np.float16)):
            return None                 # numpy divides in its own precision
        want = fx / fy
        if isinstance(x, Fix) and not fits(ex, Fix.encode(1 / float(fy), **kw), "*", top):
            return None
    else:
        want = OPS[op](fx, fy)
        if not fits(ex, ey, op, top) or (op == "-" and not isinstance(x, Fix) and not fits(ey, ex, op, top)):
            return None
        # subtraction codes the subtrahend anew, which may choose a finer unit
        if op == "-":
            for v in (fx, fy):
                if v and not fits(Fix.encode(float(v), **kw), ex, "+", top) or v and not fits(Fix.encode(float(v), **kw), ey, "+", top):
                    return None
    sx, sy = snap(x), snap(y)
    try:
        z = OPS[op](x, y)
        got = value(z)
        dec = z.decode()
    except (OverflowError, ValueError) as e:
        scale = Fraction(16) ** -max(ex.exponent, ey.exponent)
        expect(abs(want) > (top - 2) * scale, "%r %s %r is not computed: %s", x if not isinstance(x, Fix) else x.decode(), op, y if not isinstance(y, Fix) else y.decode(), e)
        return None
    expect(isinstance(z, Fix) and z.n == ref.n, "%r %s %r is in another ring", sx, op, sy)
    expect(snap(x) == sx and snap(y) == sy, "%s changed an operand", op)
    big = max(abs(fx), abs(fy)) if op in "+-" else abs(want)
    tol = big / 2 ** 47 + TINY
    names = tuple(v.decode() if isinstance(v, Fix) else v for v in (x, y))
    expect(abs(frac(dec) - want) <= tol and abs(got - want) <= tol, "%r %s %r is %r instead of %r", names[0], op, names[1], dec, float(want))
    if fx.denominator == 1 and fy.denominator == 1 and op in "+*" and ex.exponent == ey.exponent == 0:
        expect(dec == int(want), "%r %s %r is %r", names[0], op, names[1], dec)
    return z


def run_arith(case):
    n = case["n"]
    kw = ring(n)
    top = kw.get("n", Fix.Q) // 3 - 1
    vs = [val(v) for v in case["vs"]]
    try:
        xs = [Fix.encode(v, **kw) for v in vs]
    except ValueError:
        return "range"
    out = []
    if len(vs) == 2:
        (a, b), (x, y) = vs, xs
        for c in CMP:
            want = CMP[c](frac(x.decode()), frac(y.decode()))
            expect(CMP[c](x, y) == want, "%r %s %r is %r", x.decode(), c, y.decode(), CMP[c](x, y))
            expect(CMP[c](x, b) == CMP[c](frac(x.decode()), frac(b)), "%r %s %r is %r", x.decode(), c, b, CMP[c](x, b))
        for op in OPS:
            for p, q in ((x, y), (x, b), (a, y)):
                if isinstance(p, np.generic):
                    continue            # numpy's own operator decides then
                z = apply(op, p, q, top)
                out.append(None if z is None else z.decode())
        if case.get("other"):
            # numbers of two rings
            z = Fix.encode(b, **ring(case["other"]))
            for op in "+-*":
                apply(op, x, z, top)
        return out
    for o1, o2 in itertools.product(OPS, repeat=2):
        z = apply(o1, xs[0], xs[1], top)
        if z is None or signed(z) is None:
            continue
        w = apply(o2, z, xs[2], top)
        out.append(None if w is None else w.decode())
        w = apply(o2, xs[2], z, top)
        out.append(None if w is None else w.decode())
        if not isinstance(vs[2], np.generic):
            apply(o2, vs[2], z, top)
    return out


def run_chain(case):
    """One number carried through many operations, each judged."""
    kw = ring(case["n"])
    top = kw.get("n", Fix.Q) // 3 - 1
    pool = [val(v) for v in POOL + MORE]
    z, done, out = Fix.encode(1.5, **kw), 0, []
    for k in range(6 * case["len"]):
        c = scale.h(k, case["salt"])
        v = pool[c % len(pool)]
        o = "++--*/"[c // 64 % 6]
        w = apply(o, z, v if c // 512 % 3 else Fix.encode(v, **kw), top)
        if w is None or signed(w) is None:
            continue
        if not 1e-40 < abs(value(w)) < 1e30 or w.exponent > 40:
            z = Fix.encode(float(v) or 2.5, **kw)         # start again before the range is used up
            continue
        z, done = w, done + 1
        out.append(z.decode())
        if done == case["len"]:
            break
    return out[-3:] + [len(out)]


def run_ring(case):
    """Every pair of integers of a small ring."""
    n, a = case["n"], case["a"]
    kw = ring(n)
    top = n // 3 - 1
    x = Fix.encode(a, **kw)
    out = 0
    for b in range(-top, top + 1):
        y = Fix.encode(b, **kw)
        for op in "+-":
            want = OPS[op](a, b)
            for q in (y, b):
                try:
                    got = OPS[op](x, q).decode()
                except (OverflowError, ValueError):
                    got = None
                expect(got == (want if abs(want) <= top else None), "%d %s %d modulo %d is %r", a, op, b, n, got)
        if abs(a * b) <= top:
            expect((x * y).decode() == a * b and (x * b).decode() == a * b and (b * x).decode() == a * b, "%d * %d modulo %d is %r", a, b, n, (x * y).decode())
        out += 1
    for b in (top + 1, -top - 1, n, 10 * n):
        try:
            Fix.encode(b, **kw)
        except ValueError:
            continue
        expect(False, "%d is coded modulo %d", b, n)
    return out


# ---------------------------------------------------------------------- enumeration

POOL = [0, 1, -1, 3, 2 ** 40, -2 ** 40 + 1, 0.5, -0.1, 1 / 3, 1e-6, 123456.789, -7.25e8, -2.0, 1e12,
        ["float64", 2.5], ["int64", -5], ["float32", 0.1], ["float16", -0.75]]
MORE = [0.0, -0.0, 7, 7.0, 1.0, -2, ["float32", 3.0], 2 ** 62, -1e-9, 255.99609375, 16.0, -4096.5]
CODE = POOL + MORE + [-2 ** 63, 2 ** 63, -2 ** 63 - 1, -2 ** 31, -2 ** 15, 1e-201, 1e-200, 1.1e-200, -1e-100, 5e-324, 1e30, -1e38, 1e300, 2 ** 125, Fix.Q // 3 - 1, Fix.Q // 3, -(Fix.Q // 3 - 1), -(Fix.Q // 3),
                      ["int32", 2 ** 31 - 1], ["int32", -2 ** 31], ["int64", 2 ** 63 - 1], True, ["float64", -1e-15], ["float32", 1e-30], ["float32", -3.4e38], ["float16", 6e-8], ["float16", 65504.0], ["float32", 1e-45]]


def tasks(tier):
    big = tier != "quick"
    out = [dict(b="code", n=n) for n in (None, BIG_N, 10 ** 12 + 39)]
    out += [dict(b="bits", part=i, of=8, big=big) for i in range(8)]
    out += [dict(b="bad"), dict(b="chain", big=big)]
    out += [dict(b="pair", n=n, big=big) for n in (None, BIG_N)]
    out += [dict(b="triple", n=n, big=big, part=i, of=8) for n in (None, BIG_N) for i in range(8)]
    out += [dict(b="ring", n=n) for n in ((101, 31, 10, 211, 1009) if big else (101, 31, 10))]
    return out


def cases(block):
    b, n = block["b"], block.get("n")
    if b == "code":
        for v in CODE:
            for p in (None, 1, 1e-3, 1 / 16, 2.0 ** -20, 1e-9, 100.0):
                for m in (None, -3, 0, 5, 13, 20):
                    yield dict(k="code", v=v, n=n, precision=p, exponent=m)
    elif b == "bits":
        # every binary exponent with mantissas that leave one to three bits beyond the unit
        for e in range(-664, 420, 1 if block["big"] else 3):
            for m in (1.0, 1.5, 1 + 2.0 ** -52, 2 - 2.0 ** -52, 1 + 2.0 ** -50 + 2.0 ** -52):
                for s in (1, -1):
                    yield dict(k="code", v=s * math.ldexp(m, e), n=None)
        # numpy's narrow floats, over all their exponents
        for name, lo, hi in (("float32", -149, 128), ("float16", -24, 16)):
            for e in range(lo, hi):
                for m in (1.0, 1.5, 1.9990234375):
                    for s in (1, -1):
                        if m == 1.0 or e >= lo + 10:
                            for n in (None, BIG_N) if e < 60 else (None,):
                                yield dict(k="code", v=[name, s * math.ldexp(m, e)], n=n)
    elif b == "chain":
        for n in (None, BIG_N, 2 ** 511 - 187):
            for length in (4, 5, 8, 16, 40, 100) + ((1000,) if block["big"] else ()):
                for salt in range(60 if block["big"] else 25):
                    yield dict(k="chain", n=n, len=length, salt=salt)
    elif b == "bad":
        for k in BAD:
            yield dict(k="bad", v=k)
        for e in range(0, 1030):
            yield dict(k="bad", v=e)
    elif b == "pair":
        pool = POOL + MORE
        for x, y in itertools.product(pool, repeat=2):
            yield dict(k="arith", n=n, vs=[x, y], other=(BIG_N if n is None else 2 ** 127 - 1))
    elif b == "triple":
        pool = POOL + (MORE if block["big"] else [])
        for vs in itertools.product(pool, repeat=3):
            yield dict(k="arith", n=n, vs=list(vs))
    else:
        top = n // 3 - 1
        for a in range(-top, top + 1):
            yield dict(k="ring", n=n, a=a)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block.get("of", 1) != block.get("part", 0):
            continue
        r = ctx.case(case, lambda: run_case(case), steps=len(case.get("vs", [0])) ** 2)
        if r is not None:
            ctx.state(case)
            ctx.outcome(r)


def run_case(case):
    return dict(chain=run_chain, code=run_code, bad=run_bad, arith=run_arith, ring=run_ring)[case["k"]](case)
