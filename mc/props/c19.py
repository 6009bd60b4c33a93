"""C19 - number theory, RSA, the affine cipher and the helpers that encrypt whole collections."""
import contextlib
import itertools
import math
import random
from fractions import Fraction

import numpy as np

from mc import compat, core, fed, scale
from mc.core import expect
from computing.d_table import DTable
from ml.secureprotol import gmpy_math
from ml.secureprotol.affine_encoder import AffineEncoder
from ml.secureprotol.affine import AffineCipher, AffineCipherKey, AffineCiphertext
from ml.secureprotol.encrypt import AffineEncrypt, FakeEncrypt, PaillierEncrypt, RsaEncrypt
from ml.secureprotol.fate_paillier import PaillierEncryptedNumber

META = dict(
    title="RSA, affine cipher and collection helpers return what was put in",
    statement="RSA decryption inverts encryption for every message below the modulus, encryption is deterministic and multiplicative, and keys handed over as public or private part work at the party that gets them. The affine cipher decrypts every number, and every sum, difference and integer multiple of encrypted numbers, to its value (within 2^-99 and float accuracy) while it is within the key's range; combinations it does not define are refused; key generation ends with a usable key whatever the ratios drawn. The helpers encrypt and decrypt every element of lists, arrays of any dimension and tables in its place, leaving the collection as it was; an object without the key answers None; the fake encryption changes nothing; Paillier honours an asked-for precision. Modular powers, inverses, square roots and primes are correct, and a missing inverse is reported.",
    quantifier=dict(over=["inputs", "histories", "configurations"], text="all messages and message pairs under all toy RSA keys, all affine expressions to a depth over a pool of values and keys, all arguments below a bound and around powers of two for the number theory, all shapes up to three dimensions and all table sizes up to four for the helpers, all ratios from a grid in key generation; long sums, larger arrays and tables, sizes enumerated"),
    why_tests_cant="No test touches these ciphers. Sign handling, offsets that accumulate over additions and the shapes of nested collections fail only for particular values, orders and sizes.",
    anchors=dict(files=["ml/secureprotol/encrypt.py", "ml/secureprotol/affine.py", "ml/secureprotol/affine_encoder.py", "ml/secureprotol/gmpy_math.py"],
                 state=[dict(name="e, d, n", meaning="RSA key parts", where="RsaEncrypt"), dict(name="cipher, multiplier", meaning="affine ciphertext and how many offsets it holds", where="AffineCiphertext")],
                 mechanism=[dict(name="RSA", where="RsaEncrypt"), dict(name="affine", where="AffineCipherKey, AffineCiphertext"), dict(name="collections", where="Encrypt.encrypt_list, distribute_*, recursive_*"), dict(name="number theory", where="gmpy_math")],
                 observe_at=["decrypted values", "returned collections", "errors"], hook_needed=None),
    level="model_checking",
    technique="exhaustive enumeration of toy keys, messages, expressions and collection shapes against integer and rational arithmetic",
    level_note="Toy keys over their whole message space, generated keys over the value pools. gmpy2 is replaced by a stand-in built on Python integers, which is trusted.",
    bounds=dict(quick=dict(rsa_primes=23, expression_depth=2, dimensions=3, arguments=40), thorough=dict(rsa_primes=41, expression_depth=3, dimensions=3, arguments=70)),
    rule="a case is (key, message), an expression, a collection or an argument tuple; states are distinct cases",
    assumptions=["affine results stay within a tenth of the modulus", "moduli are greater than one", "RSA messages are Python integers, not numpy ones"],
)

PRIMES = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]


def rsa_pair(p, q):
    n, phi = p * q, (p - 1) * (q - 1)
    e = next(x for x in range(3, phi) if math.gcd(x, phi) == 1)
    d = next(x for x in range(1, phi) if x * e % phi == 1)
    a, b = RsaEncrypt(), RsaEncrypt()
    a.set_public_key({"e": e, "n": n})
    b.set_privacy_key({"d": d, "n": n})
    return a, b, (e, d, n)


def run_rsa(case):
    a, b, (e, d, n) = rsa_pair(case["p"], case["q"])
    expect(tuple(a.get_public_key()) == (e, n) and tuple(b.get_privacy_key()) == (d, n), "the keys come back as %r, %r", a.get_public_key(), b.get_privacy_key())
    cs = []
    for m in range(n):
        c = a.encrypt(m)
        expect(0 <= c < n and b.decrypt(c) == m, "%d becomes %r and %r modulo %d", m, c, b.decrypt(c), n)
        expect(a.encrypt(m) == c, "%d is encrypted differently the second time", m)
        cs.append(c)
    expect(len(set(cs)) == n, "two messages have the same ciphertext")
    for x in range(0, n, max(1, n // 12)):
        for y in range(0, n, max(1, n // 12)):
            expect(cs[x] * cs[y] % n == cs[x * y % n], "E(%d)E(%d) is not E(%d)", x, y, x * y % n)
    expect(a.decrypt(5) is None and b.encrypt(5) is None, "half a key answers %r, %r", a.decrypt(5), b.encrypt(5))
    # keys that arrive at a party that held others before
    (p2, q2) = (case["p"], case["q"] + 2) if math.gcd(case["q"] + 2, case["p"]) == 1 else (case["p"], case["q"] + 4)
    u, w = RsaEncrypt(), RsaEncrypt()
    u.set_public_key({"e": 3, "n": p2 * q2})
    u.set_privacy_key({"d": d, "n": n})
    w.set_privacy_key({"d": 3, "n": p2 * q2})
    w.set_public_key({"e": e, "n": n})
    for m in range(0, n, max(1, n // 12)):
        expect(w.encrypt(m) == cs[m] and u.decrypt(cs[m]) == m, "a party that held another key before says %r, %r for %d modulo %d", w.encrypt(m), u.decrypt(cs[m]), m, n)
    expect(tuple(w.get_public_key()) == (e, n) and tuple(u.get_privacy_key()) == (d, n), "keys that replace others come back as %r, %r", w.get_public_key(), u.get_privacy_key())
    return cs[2:6]


def run_rsakey(case):
    k = RsaEncrypt()
    expect(k.encrypt(5) is None and k.decrypt(5) is None, "no key answers %r", k.encrypt(5))
    k.generate_key(case["bits"])
    e, d, n = k.get_key_pair()
    expect(n.bit_length() == case["bits"] and tuple(k.get_public_key()) == (e, n) and tuple(k.get_privacy_key()) == (d, n), "the parts of the key differ")
    other, mine = RsaEncrypt(), RsaEncrypt()
    other.set_public_key({"e": e, "n": n})
    mine.set_privacy_key({"d": d, "n": n})
    for m in [0, 1, 2, 3, 255, 2 ** 63, 2 ** 64, 2 ** 64 + 1, 2 ** 200 + 7, n - 1, n - 2, n // 2]:
        c = other.encrypt(m)
        expect(c == k.encrypt(m) and mine.decrypt(c) == m and k.decrypt(c) == m, "%d comes back as %r", m, mine.decrypt(c))
    return "ok"


@contextlib.contextmanager
def ratios(seq):
    """The random shares drawn in key generation; everything else stays random."""
    it = iter(seq)
    saved = random.SystemRandom.random

    def draw(self):
        return next(it, 0.5)
    random.SystemRandom.random = draw
    try:
        yield
    finally:
        random.SystemRandom.random = saved


_KEYS = {}


def affine(name):
    if name not in _KEYS:
        if name == "gen":
            _KEYS[name] = AffineCipher.generate_keypair(key_size=1024)
        elif name == "toy":
            _KEYS[name] = AffineCipherKey(7, 3, 2 ** 130 + 1 - 0, 2 ** 20) if math.gcd(7, 2 ** 130 + 1) == 1 else AffineCipherKey(11, 3, 2 ** 130 + 1, 2 ** 20)
        elif name == "odd":
            _KEYS[name] = AffineCipherKey(2 ** 60 + 33, 2 ** 250 + 9, 3 ** 160, 2 ** 100)
        else:
            _KEYS[name] = AffineCipherKey(1, 0, 2 ** 200 + 235, 2 ** 100)
    return _KEYS[name]


def ev(t, key):
    """-> (ciphertext or int 0, exact value, magnitude)"""
    if t[0] == "v":
        return key.encrypt(t[1]), Fraction(t[1]), abs(Fraction(t[1]))
    if t[0] == "0":
        return 0, Fraction(0), Fraction(0)
    if t[0] == "*":
        x, v, m = ev(t[1], key)
        return (x * t[2] if t[3] else t[2] * x), v * t[2], m * abs(t[2])
    x, v, m = ev(t[1], key)
    y, w, k = ev(t[2], key)
    return (x + y if t[0] == "+" else x - y), (v + w if t[0] == "+" else v - w), m + k


def run_affine(case):
    key = affine(case["key"])
    mult = Fraction(2 ** 20 if case["key"] == "toy" else 2 ** 100)
    c, v, mag = ev(case["t"], key)
    expect(isinstance(c, AffineCiphertext), "%r gives %r", case["t"], c)
    got = key.decrypt(c)
    size = 1 + sum(1 for x in repr(case["t"]) if x == "v") * 60
    expect(abs(Fraction(got) - v) <= size / mult + mag / 2 ** 50, "%r decrypts to %r instead of %r", case["t"], got, float(v))
    expect(key.decrypt(c) == got, "the second decryption differs")
    return got


def run_refuse(case):
    key = affine("odd")
    c = key.encrypt(2.5)
    f = {"+1": lambda: c + 1, "1+": lambda: 1 + c, "+f": lambda: c + 0.5, "*f": lambda: c * 0.5, "*c": lambda: c * c, "+s": lambda: c + "x", "*s": lambda: c * "x", "-1": lambda: c - 1, "+none": lambda: c + None}[case["what"]]
    try:
        r = f()
    except TypeError:
        return "refused"
    expect(False, "%s gives %r", case["what"], r)


def run_affkey(case):
    with ratios(case["ratios"]):
        e = AffineEncrypt()
        expect(e.encrypt(1.0) is None and e.decrypt(None) is None, "without a key the answer is %r", e.encrypt(1.0))
        e.generate_key(case["size"])
    for v in (0, 1, -1, 0.5, -123.25, 1e6):
        expect(e.decrypt(e.encrypt(v)) == v, "%r comes back as %r", v, e.decrypt(e.encrypt(v)))
    s = e.encrypt(2.5) + e.encrypt(-4.0) * 3
    expect(e.decrypt(s) == -9.5, "2.5 - 12 is %r", e.decrypt(s))
    return "ok"


# ------------------------------------------------------------------------ collections

_PAILLIER = []


def coder(name):
    if name == "fake":
        return FakeEncrypt(), FakeEncrypt()
    if name == "rsa":
        a, b, _ = rsa_pair(101, 103)
        return a, b
    if not _PAILLIER:
        k = PaillierEncrypt()
        k.generate_key(256)
        _PAILLIER.append(k)
    pub, prv = PaillierEncrypt(), PaillierEncrypt()
    pub.set_public_key(_PAILLIER[0].get_public_key())
    prv.set_privacy_key(_PAILLIER[0].get_privacy_key())
    return pub, prv


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))


def run_helper(case):
    enc, dec = coder(case["cipher"])
    vals, shape = case["vals"], case["shape"]
    secret = case["cipher"] == "paillier"

    def hidden(x, v):
        if secret:
            expect(isinstance(x, PaillierEncryptedNumber), "%r is encrypted as %r", v, x)
        elif case["cipher"] == "rsa":
            expect(x == enc.encrypt(v), "%r is encrypted as %r", v, x)
        else:
            expect(x == v, "%r is changed to %r", v, x)
    if shape == "list":
        keep = list(vals)
        c = enc.encrypt_list(vals)
        expect(isinstance(c, list) and len(c) == len(vals) and vals == keep, "encrypting %r gives %r", keep, c)
        for x, v in zip(c, vals):
            hidden(x, v)
        d = dec.decrypt_list(c)
        expect(isinstance(d, list) and same(d, vals), "%r comes back as %r", vals, d)
        return d
    if shape == "table":
        t = DTable(True, [("k%d" % i, v) for i, v in enumerate(vals)])
        before = list(t.collect())
        c = enc.distribute_encrypt(t)
        expect(list(t.collect()) == before, "encrypting changed the table")
        cd = dict(c.collect())
        expect(set(cd) == {k for k, _ in before}, "the rows are %r", sorted(cd))
        for k, v in before:
            hidden(cd[k], v)
        d = dict(dec.distribute_decrypt(c).collect())
        expect(set(d) == set(cd) and same([d[k] for k, _ in before], vals), "%r comes back as %r", before, d)
        cc = dict(c.collect())
        expect(all(cc[k] is cd[k] for k in cd), "decrypting changed the encrypted table")
        if vals and case["cipher"] != "rsa":
            r = dec.recursive_decrypt(enc.recursive_encrypt(t))
            expect(isinstance(r, np.ndarray) and same(list(np.ravel(r)), vals), "the table %r comes back as %r", before, r)
            r = dec.recursive_decrypt(c)
            expect(same(list(np.ravel(r)), vals), "the encrypted table %r comes back as %r", before, r)
        return sorted(map(repr, d.items()))
    if shape == "rows":
        t = DTable(True, [("k%d" % i, np.array([v, v + 1])) for i, v in enumerate(vals)])
        r = dec.recursive_decrypt(enc.recursive_encrypt(t))
        want = [x for v in vals for x in (v, v + 1)]
        expect(np.shape(r) == (len(vals), 2) and same(list(np.ravel(r)), want), "the table of rows comes back as %r", r)
        return r.tolist()
    a = np.array(vals).reshape(shape)
    src = a.tolist() if case["aslist"] else a
    keep = repr(src)
    c = enc.recursive_encrypt(src)
    full = tuple(shape) if len(shape) > 1 else (1, shape[0])
    expect(np.shape(c) == full, "an array of shape %r becomes one of shape %r", shape, np.shape(c))
    for x, v in zip(np.ravel(c), np.ravel(a)):
        hidden(x, v)
    d = dec.recursive_decrypt(c)
    expect(np.shape(d) == full and d.dtype == np.float64 and same(list(np.ravel(d)), list(np.ravel(a))), "%r comes back as %r", keep, d)
    expect(repr(src) == keep, "encrypting changed the array")
    return d.tolist()


def run_nokey(case):
    for cls in (RsaEncrypt, PaillierEncrypt, AffineEncrypt):
        e = cls()
        expect(e.encrypt(3) is None and e.decrypt(3) is None, "%s without a key answers %r", cls.__name__, e.encrypt(3))
        if hasattr(e, "encrypt_list"):
            expect(e.encrypt_list([1, 2]) == [None, None] and e.decrypt_list([1, 2]) == [None, None], "%s without a key answers %r", cls.__name__, e.encrypt_list([1, 2]))
    pub, prv = coder("paillier")
    expect(prv.encrypt(1) is None and pub.decrypt(pub.encrypt(1)) is None, "half a key answers")
    return "ok"


def run_precision(case):
    pub, prv = coder("paillier")
    v, p = case["v"], case["p"]
    c = pub.get_public_key().encrypt(v, precision=p)
    got = prv.decrypt(c)
    expect(abs(got - v) <= p * 0.501 + abs(v) * 2 ** -50, "%r with precision %r comes back as %r", v, p, got)
    s = prv.decrypt(c + c)
    expect(abs(s - 2 * v) <= p * 1.01 + abs(v) * 2 ** -48, "the double of %r with precision %r is %r", v, p, s)
    return got


def run_encode(case):
    """Encoded values add up: the sum of k codes, decoded as k of them, is the sum of the values."""
    e = AffineEncoder(case["mult"], case["trans"]) if case["trans"] is not None else AffineEncoder(mult=case["mult"])
    codes = [e.encode(v) for v in case["vals"]]
    expect(all(isinstance(c, int) for c in codes), "the codes of %r are %r", case["vals"], codes)
    got = e.decode(sum(codes), len(codes)) if len(codes) > 1 or case["say"] else e.decode(codes[0])
    want = sum(case["vals"])
    expect(abs(got - want) <= len(codes) * (1.0 / case["mult"] + 1e-9 * (1 + abs(case["trans"] or 0) + max(map(abs, case["vals"])))), "%r offset by %r come back as %r", case["vals"], case["trans"], got)
    return repr(got)


# --------------------------------------------------------------------------- arithmetic

def is_prime(n):
    if n < 2:
        return False
    return all(n % i for i in range(2, math.isqrt(n) + 1))


@contextlib.contextmanager
def bits(value):
    saved = random.SystemRandom.getrandbits
    random.SystemRandom.getrandbits = lambda self, n: value & ((1 << n) - 1)
    try:
        yield
    finally:
        random.SystemRandom.getrandbits = saved


def run_num(case):
    w = case["what"]
    if w == "powmod":
        a, b, c = case["args"]
        got = gmpy_math.powmod(a, b, c)
        expect(isinstance(got, int) and got == pow(a, b, c), "powmod(%d, %d, %d) is %r", a, b, c, got)
    elif w == "invert":
        a, b = case["args"]
        try:
            got = gmpy_math.invert(a, b)
        except ZeroDivisionError:
            expect(math.gcd(a, b) != 1, "%d has an inverse modulo %d", a, b)
            return "none"
        expect(0 < got < b and a * got % b == 1, "the inverse of %d modulo %d is %r", a, b, got)
    elif w == "isqrt":
        n = case["args"][0]
        got = gmpy_math.isqrt(n)
        expect(got >= 0 and got * got <= n < (got + 1) ** 2, "the root of %d is %r", n, got)
    else:
        n, r = case["args"]
        with bits(r):
            got = gmpy_math.getprimeover(n)
        expect(is_prime(got) and got.bit_length() >= n, "the %d-bit prime is %r", n, got)
    return got


# ---------------------------------------------------------------------- enumeration

VALS = [0, 1, -1, 0.5, -2.25, 1e6, -123456.789, 1 / 3]
LARGE = [11, 99, 100, 255, 256, 1000, 32767, 32768, 65535, 65536, 65537, 100000, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 10 ** 10]
LONG = [1 / 3, 16777217.0, -123456789.123, 1e-5 / 7, -2.0 ** 31 - 1, 1e-300, 1e15 + 0.125]
MULS = [0, 1, -1, 2, -3, 1000]


def tasks(tier):
    big = tier != "quick"
    ps = [p for p in PRIMES if p <= (41 if big else 23)]
    out = [dict(b="rsa", p=p, qs=[q for q in ps if q > p]) for p in ps[:-1]]
    out += [dict(b="rsakey", bits=b) for b in ([1024, 1024, 2048] if big else [1024])]
    out += [dict(b="affine", key=k, deep=big, part=i, of=4) for k in ("gen", "toy", "odd", "one") for i in range(4)]
    out += [dict(b="affkey", big=big), dict(b="rest")]
    out += [dict(b="helper", cipher=c) for c in ("fake", "rsa", "paillier")]
    out += [dict(b="wide", big=big, part=i, of=4) for i in range(4)]
    out += [dict(b="num", big=big, what=w) for w in ("powmod", "invert", "isqrt", "prime")]
    return out


def cases(block):
    b = block["b"]
    if b == "rsa":
        for q in block["qs"]:
            if (block["p"] - 1) * (q - 1) > 8:
                yield dict(k="rsa", p=block["p"], q=q)
    elif b == "rsakey":
        yield dict(k="rsakey", bits=block["bits"])
    elif b == "affine":
        vals = VALS if block["key"] != "toy" else [0, 1, -1, 0.5, -2.25, 1000.0]
        leaf = [["v", v] for v in vals]
        one = leaf + [["*", x, m, s] for x in leaf[:5] for m in MULS for s in (True, False)]
        one += [[o, x, y] for o in "+-" for x in leaf for y in leaf] + [[o, ["0"], y] for o in "+-" for y in leaf] + [["+", y, ["0"]] for y in leaf] + [["-", y, ["0"]] for y in leaf]
        for t in one:
            yield dict(k="affine", key=block["key"], t=t)
        for x in leaf:
            for m in LARGE:
                for t in (["*", x, m, True], ["*", x, -m, False], ["+", ["*", x, m, True], ["*", leaf[1], -m, True]], ["-", ["v", 2], ["*", x, m, False]]):
                    yield dict(k="affine", key=block["key"], t=t)
        some = one[len(leaf)::1 if block["deep"] else 3]
        for o in "+-":
            for x in some:
                for y in leaf[1:5] + some[::7]:
                    yield dict(k="affine", key=block["key"], t=[o, x, y])
        for x in some:
            for m in MULS:
                yield dict(k="affine", key=block["key"], t=["*", x, m, True])
        # long sums
        for n in (1, 2, 10, 50):
            for v in vals:
                t = ["v", v]
                for _ in range(n):
                    t = ["+", t, ["v", v]]
                yield dict(k="affine", key=block["key"], t=t)
        for w in ("+1", "1+", "+f", "*f", "*c", "+s", "*s", "-1", "+none"):
            yield dict(k="refuse", what=w)
        # values up to the ends of the range, one by one, as sums and as multiples
        key = affine(block["key"])
        unit = 2 ** 20 if block["key"] == "toy" else 2 ** 100
        if block["key"] != "gen":
            top = key.n // unit
            for share in (0.09, 0.05, 0.02, 0.01, 0.009, 0.001, 1e-4):
                v = float(int(top * share))
                for t in (["v", v], ["v", -v], ["-", ["v", v / 2], ["v", -v / 2]], ["+", ["v", -v / 2], ["v", -v / 2]], ["-", ["0"], ["v", v]], ["*", ["v", v / 1024], 1024, True], ["*", ["v", v / 1024], -1024, False],
                          ["-", ["-", ["v", v], ["v", v]], ["v", v]], ["+", ["*", ["v", v], -1, True], ["v", 1.0]], ["+", ["+", ["v", v / 3], ["v", -v]], ["v", v / 5]]):
                    yield dict(k="affine", key=block["key"], t=t)
        else:
            for e in (10, 52, 53, 64, 200, 400, 700, 850, 900):
                for v in (2.0 ** e, -2.0 ** e, 1.1 * 2.0 ** e, -1.9 * 2.0 ** e):
                    for t in (["v", v], ["-", ["v", v], ["v", v * 2]], ["*", ["v", v], -3, True]):
                        yield dict(k="affine", key=block["key"], t=t)
    elif b == "affkey":
        grid = [0.0, 1e-5, 0.0009, 0.001, 0.002, 0.1, 0.5, 0.9, 0.999]
        for x, y in itertools.product(grid, repeat=2):
            for size in (512, 1024) if not block["big"] else (512, 1024, 2048):
                yield dict(k="affkey", ratios=[x, y], size=size)
    elif b == "rest":
        yield dict(k="nokey")
        for v in (0, 1, -7, 3.14159, -0.001, 123456.789, 1e-9):
            for p in (1, 0.5, 1e-3, 1 / 16, 2.0 ** -20, 1e-9, 100.0):
                yield dict(k="precision", v=v, p=p)
        for mult in (1, 1000, 2 ** 40, 2 ** 100):
            for trans in (None, 0, 1, -3, 0.5, 1000):
                for k in (1, 2, 3):
                    for vals in itertools.combinations_with_replacement((0, 1, -7, 0.25, 123456.5), k):
                        for say in (False, True):
                            yield dict(k="encode", mult=mult, trans=trans, vals=list(vals), say=say)
    elif b == "helper":
        ints = block["cipher"] == "rsa"
        pool = [0, 1, 7, 250] if ints else [0.0, 1.5, -2.25, 7.0]
        for n in range(0, 5):
            for vals in itertools.product(pool, repeat=n):
                if block["cipher"] == "paillier" and n > 2 and len(set(vals)) < n:
                    continue
                yield dict(k="helper", cipher=block["cipher"], vals=list(vals), shape="list")
                yield dict(k="helper", cipher=block["cipher"], vals=list(vals), shape="table")
                if n and not ints:
                    yield dict(k="helper", cipher=block["cipher"], vals=list(vals), shape="rows")
        shapes = [[1], [2], [3], [1, 1], [1, 3], [2, 2], [3, 1], [3, 2], [1, 1, 1], [2, 1, 2], [2, 2, 2], [1, 2, 3], [3, 2, 1]]
        for sh in shapes if not ints else []:
            n = int(np.prod(sh))
            for off in range(3):
                vals = [pool[(i * 3 + off) % len(pool)] + i for i in range(n)]
                for al in (False, True):
                    yield dict(k="helper", cipher=block["cipher"], vals=vals, shape=sh, aslist=al)
            # numbers with many digits, large and small
            for off in range(3):
                vals = [(LONG[(i + off) % len(LONG)]) for i in range(n)]
                for al in (False, True):
                    yield dict(k="helper", cipher=block["cipher"], vals=vals, shape=sh, aslist=al)
        for n in (1, 2, 3, 7) if not ints else ():
            for sh in ("list", "table", "rows"):
                yield dict(k="helper", cipher=block["cipher"], vals=LONG[:n], shape=sh)
    elif b == "wide":
        for p, q in ((101, 103), (3, 997), (61, 211), (2, 509)) + (((401, 409),) if block["big"] else ()):
            yield dict(k="rsa", p=p, q=q)
        for c in ("fake", "rsa", "paillier"):
            ints = c == "rsa"
            for n in (5, 8, 9, 10, 11, 17, 33, 65, 130, 1025) if c != "paillier" else (5, 9, 10, 11, 17, 33, 65):
                vals = [i * 37 % 251 if ints else (i * 37 % 251 - 100) / 4.0 for i in range(n)]
                for sh in ("list", "table") + (("rows",) if not ints else ()):
                    yield dict(k="helper", cipher=c, vals=vals, shape=sh)
                if not ints:
                    for sh in ([n], [1, n], [n, 2], [2, n], [2, 2, n], [n, 1, 1], [2, 1, 2, n], [1, 1, 1, 1, n]):
                        m = int(np.prod(sh))
                        if m < 300 or c == "fake":
                            for al in (False, True):
                                yield dict(k="helper", cipher=c, vals=[(i * 37 % 251 - 100) / 4.0 + i // 251 for i in range(m)], shape=sh, aslist=al)
        for key in ("gen", "toy", "odd", "one"):
            # sums of many different terms, of differences and of multiples
            for n in (3, 5, 9, 17, 33, 100) + ((400,) if block["big"] else ()):
                for salt in range(4):
                    t = ["v", 1]
                    for i in range(n):
                        c = scale.h(i, salt)
                        x = ["v", (c % 2001 - 1000) / 4.0]
                        if c // 4096 % 3 == 0:
                            x = ["*", x, MULS[c // 9 % len(MULS)], bool(c & 1)]
                        t = [("+", "-")[c // 64 % 2], t, x] if c // 128 % 2 else [("+", "-")[c // 64 % 2], x, t]
                    yield dict(k="affine", key=key, t=t)
    elif b == "num":
        top = 70 if block["big"] else 40
        w = block["what"]
        if w == "powmod":
            for a, x, c in itertools.product(range(top // 2), range(top // 3), range(2, top // 2)):
                yield dict(k="num", what=w, args=[a, x, c])
            edge = [2, 3, 2 ** 32, 2 ** 63 - 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 127 - 1, 3 ** 90]
            for a in edge + [0, 1]:
                for x in [0, 1, 2, 65537, 2 ** 64 - 1, 2 ** 64 + 1]:
                    for c in edge:
                        yield dict(k="num", what=w, args=[a, x, c])
        elif w == "invert":
            for a, m in itertools.product(range(-top, 3 * top), range(2, 3 * top)):
                yield dict(k="num", what=w, args=[a, m])
            for a in (3, 2 ** 64, 2 ** 64 + 1, 3 ** 60):
                for m in (2 ** 64 - 1, 2 ** 127 - 1, 3 ** 61, 10 ** 40):
                    yield dict(k="num", what=w, args=[a, m])
        elif w == "isqrt":
            for n in range(100 * top):
                yield dict(k="num", what=w, args=[n])
            for r in (2 ** 26, 2 ** 27 + 1, 94906265, 94906266, 2 ** 32 - 1, 2 ** 53, 3 ** 60):
                for d in (-1, 0, 1, 2 * r):
                    yield dict(k="num", what=w, args=[r * r + d])
        else:
            for n in range(2, 11 if block["big"] else 9):
                for r in range(2 ** n):
                    yield dict(k="num", what=w, args=[n, r])


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block.get("of", 1) != block.get("part", 0):
            continue
        r = ctx.case(case, lambda: run_case(case), steps=len(case.get("vals", [0])) or 1)
        if r is not None:
            ctx.state(case)
            ctx.outcome(r)


def run_case(case):
    return dict(rsa=run_rsa, rsakey=run_rsakey, affine=run_affine, refuse=run_refuse, affkey=run_affkey, helper=run_helper, nokey=run_nokey,
                precision=run_precision, encode=run_encode, num=run_num)[case["k"]](case)
