"""C07 - additively homomorphic encryption computes on the hidden numbers."""
import contextlib
import itertools
import random
import zlib
from fractions import Fraction

import numpy as np

from mc import core
from mc.core import expect, Violation
from ml.secureprotol.encrypt import PaillierEncrypt
from ml.secureprotol.fate_paillier import PaillierKeypair, PaillierPrivateKey, PaillierPublicKey
from computing.d_table import DTable

META = dict(
    title="Decrypting what was computed on ciphertexts gives the sum, difference or product",
    statement="Under every Paillier key, decryption inverts encryption for every representable number, and any chain of additions and subtractions of ciphertexts and plain numbers and of multiplications and divisions by plain numbers decrypts to the same arithmetic on the hidden numbers (to floating-point accuracy, ints exactly). Numbers outside the key's range are refused; one addition that leaves the range is reported, never silently wrapped. Mixing keys and decrypting foreign objects is refused. Encryption and ciphertext() are randomised without changing the hidden value, and key generation yields two different primes and a modulus of exactly the requested length whatever the random source returns.",
    quantifier=dict(over=["inputs", "histories", "configurations"], text="all plaintexts and plaintext pairs under all small prime pairs, all operation trees to a depth over a set of ints, floats and numpy scalars of very different magnitude and sign under a 256-bit key, all outcomes of the random source in key generation for short keys; chains of up to 300 operations and keys of up to 2048 bits"),
    why_tests_cant="No test touches the encryption. Wrap-around, sign handling and exponent alignment fail only for particular combinations of magnitude, sign and operation order.",
    anchors=dict(files=["ml/secureprotol/fate_paillier.py", "ml/secureprotol/fixedpoint.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/gmpy_math.py"],
                 state=[dict(name="ciphertext, exponent", meaning="hidden fixed-point number", where="PaillierEncryptedNumber")],
                 mechanism=[dict(name="raw encryption and CRT decryption", where="raw_encrypt, raw_decrypt, crt, h_func, l_func"),
                            dict(name="exponent alignment", where="increase_exponent_to, __align_exponent"),
                            dict(name="fixed-point coding with sign range", where="FixedPointNumber.encode/decode")],
                 observe_at=["decrypt of results", "errors"], hook_needed=None),
    level="model_checking",
    technique="exhaustive enumeration of toy key spaces and of operation trees, compared with exact rational arithmetic",
    level_note="Toy keys are explored over their whole plaintext space; long keys over all operation trees to the stated depth on a value set. gmpy2 is replaced by a 40-line stand-in built on Python integers, which is trusted. Cryptographic hardness is out of scope.",
    bounds=dict(quick=dict(toy_primes=23, tree_depth=2), thorough=dict(toy_primes=47, tree_depth=3)),
    rule="a case is (key, plaintexts) or (key, operation tree); states are distinct cases; outcomes are distinct decrypted values",
    assumptions=["toy keys use randomness coprime to n, as long keys do except with negligible probability", "magnitudes stay within the key's range unless the case is about leaving it"],
)

PRIMES = [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47]


def toy(p, q):
    pub = PaillierPublicKey(p * q)
    return pub, PaillierPrivateKey(pub, p, q)


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def toy_ok(p, q):
    return p != q and gcd(p * q, (p - 1) * (q - 1)) == 1


def raw(case):
    """Whole plaintext space of a toy key: inverse and additivity of the raw scheme."""
    p, q = case["p"], case["q"]
    pub, prv = toy(p, q)
    n, n2 = p * q, (p * q) ** 2
    units = [r for r in range(2, n) if gcd(r, n) == 1]
    rs = [units[0], units[len(units) // 2], units[-1]]
    cs = []
    for m in range(n):
        for j, r in enumerate(rs):
            c = pub.raw_encrypt(m, r)
            expect(c == pow(1 + n, m, n2) * pow(r, n, n2) % n2, "encrypting %d with randomness %d under n=%d gives %d", m, r, n, c)
            d = prv.raw_decrypt(c)
            expect(d == m, "n=%d: %d encrypted with %d decrypts to %d", n, m, r, d)
            if j == 0:
                cs.append(c)
    for a in range(n):
        for b in range(a, n, case.get("step", 1)):
            d = prv.raw_decrypt(cs[a] * cs[b] % n2)
            expect(d == (a + b) % n, "n=%d: the product of the ciphertexts of %d and %d decrypts to %d", n, a, b, d)
    return n * len(rs) + n * n // 2


@contextlib.contextmanager
def patched(name, fn):
    """Replace a method of random.SystemRandom for every user of it."""
    cls = random.SystemRandom
    own = cls.__dict__.get(name)
    setattr(cls, name, fn)
    try:
        yield
    finally:
        if own is None:
            delattr(cls, name)
        else:
            setattr(cls, name, own)


def unit_randomness():
    """SystemRandom().randrange draws only numbers coprime to a toy n."""
    count = [1]

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        count[0] += 1
        v = 2 + count[0] * 7 % max(1, stop - 3)
        while gcd(v, stop) != 1 or v in (0, 1):
            v = v % (stop - 1) + 1
        return v
    return patched("randrange", randrange)


def toyapi(case):
    """All pairs of ints in (and just outside) the range of a toy key through the public operators."""
    p, q = case["p"], case["q"]
    pub, prv = toy(p, q)
    mx = pub.n // 3 - 1
    out = 0
    with unit_randomness():
        enc = {}
        for v in list(range(-mx, mx + 1)):
            e = pub.encrypt(v)
            enc[v] = e
            d = prv.decrypt(e)
            expect(d == v, "n=%d: %d decrypts to %r", pub.n, v, d)
            d = prv.decrypt(pub.encrypt(v, random_value=2 if pub.n % 2 else 3))
            expect(d == v, "n=%d: %d encrypted with given randomness decrypts to %r", pub.n, v, d)
        for v in (mx + 1, -mx - 1, pub.n, -pub.n, pub.n - 1, 10 * pub.n):
            try:
                e = pub.encrypt(v)
            except ValueError:
                continue
            raise Violation("n=%d: %d, outside the range +-%d, is encrypted (and decrypts to %r)" % (pub.n, v, mx, prv.decrypt(e)))
        for a in range(-mx, mx + 1):
            for b in range(-mx, mx + 1, case.get("step", 1)):
                for name, f, want in (("E(%d)+E(%d)", lambda: enc[a] + enc[b], a + b), ("E(%d)-E(%d)", lambda: enc[a] - enc[b], a - b),
                                      ("E(%d)+%d", lambda: enc[a] + b, a + b), ("E(%d)-%d", lambda: enc[a] - b, a - b),
                                      ("%d+E(%d)", lambda: a + enc[b], a + b), ("%d-E(%d)", lambda: a - enc[b], a - b),
                                      ("E(%d)*%d", lambda: enc[a] * b, a * b), ("%d*E(%d)", lambda: a * enc[b], a * b)):
                    if "*" in name and abs(want) > mx:
                        continue
                    out += 1
                    try:
                        d = prv.decrypt(f())
                    except (OverflowError, ValueError) as e:
                        expect(abs(want) > mx, "n=%d: %s fails with %s: %s", pub.n, name % (a, b), type(e).__name__, e)
                        continue
                    expect(abs(want) <= mx or d == want, "n=%d: %s leaves the range and silently gives %r", pub.n, name % (a, b), d)
                    expect(d == want, "n=%d: %s decrypts to %r", pub.n, name % (a, b), d)
    return out


_K = {}


def key(bits, i=0):
    if (bits, i) not in _K:
        _K[(bits, i)] = PaillierKeypair.generate_keypair(bits)
    return _K[(bits, i)]


VALS = [0, 1, -1, 3, -250, 10 ** 9, 0.5, -0.5, 0.1, -0.3, 1e-8, -1e-8, 1e8, -123456.789, 2.0 ** -40, 1e-15, 0.9999999, -1e3 / 3]
# narrower numpy types promote differently under the numpy the repository pins (1.21) and the one here
NP = [("float64", -0.3), ("float64", 1e-9), ("float64", 12345.0)]
NPE = [("int64", -7), ("int32", 12), ("int16", 5), ("float32", 0.5), ("float16", -0.125), ("float32", 1e-9)]


def lit(x):
    if isinstance(x, (list, tuple)):
        return getattr(np, x[0])(x[1])
    return x


def frac(x):
    return Fraction(float(x)) if not isinstance(x, (int, np.integer)) else Fraction(int(x))


def evaluate(t, pub, seen):
    """(ciphertext, exact value, scale of intermediate values) of a tree; `seen` collects those of all its parts."""
    seen.append(evaluate_op(t, pub, seen))
    return seen[-1]


def evaluate_op(t, pub, seen):
    if t[0] == "E":
        v = lit(t[1])
        return pub.encrypt(v), frac(v), abs(frac(v))
    op, l, r = t
    x, xv, xs = evaluate(l, pub, seen) if isinstance(l, list) and l[0] in OPS else (lit(l), frac(lit(l)), abs(frac(lit(l))))
    y, yv, ys = evaluate(r, pub, seen) if isinstance(r, list) and r[0] in OPS else (lit(r), frac(lit(r)), abs(frac(lit(r))))
    if op == "+":
        return x + y, xv + yv, max(xs, ys, abs(xv + yv))
    if op == "-":
        return x - y, xv - yv, max(xs, ys, abs(xv - yv))
    if op == "*":
        return x * y, xv * yv, max(xs * ys, abs(xv * yv))
    if op == "/":
        return x / y, xv / yv, max(xs / abs(yv), abs(xv / yv))
    raise core.HarnessError(op)


OPS = ("E", "+", "-", "*", "/")


def check_tree(case):
    pub, prv = key(case.get("bits", 256))
    seen = []
    c, want, scale = evaluate(case["tree"], pub, seen)
    got = prv.decrypt(c)
    tol = max(Fraction(1, 10 ** 9) * scale, Fraction(1, 10 ** 25))
    expect(abs(frac(got) - want) <= tol, "%r decrypts to %r, expected %r", case["tree"], got, float(want))
    # the operands still hold what they held
    for o, w, sc in seen[:-1]:
        v = prv.decrypt(o)
        expect(abs(frac(v) - w) <= max(Fraction(1, 10 ** 9) * sc, Fraction(1, 10 ** 25)), "an operand of %r decrypts to %r after the operation, expected %r", case["tree"], v, float(w))
    # randomising the ciphertext does not change the value
    if case.get("obf"):
        before = c.ciphertext(False)
        expect(pub.n != 0 and prv.decrypt(c) == got, "decrypting twice gives two values for %r", case["tree"])
        after = c.ciphertext()
        expect(prv.decrypt(c) == got, "%r decrypts to %r before and %r after randomisation", case["tree"], got, prv.decrypt(c))
        expect((after - 1) % pub.n != 0, "the ciphertext of %r is not randomised by ciphertext()", case["tree"])
        expect(before == after or case["tree"][0] != "E", "a fresh ciphertext was not randomised by encrypt()")
    return got


def exact_ints(case):
    """Long sums of ints are exact."""
    pub, prv = key(256)
    total = None
    want = 0
    for k, v in enumerate(case["terms"]):
        e = pub.encrypt(v) if k % 2 == 0 or total is None else v
        total = e if total is None else total + e
        want += v
        got = prv.decrypt(total)
        expect(got == want, "the sum of %r decrypts to %r", case["terms"][:k + 1], got)
    return want


def refuse(case):
    k = case["k"]
    pub, prv = key(256)
    pub2, prv2 = key(256, 1)

    def must(exc, f, what):
        try:
            r = f()
        except exc:
            return
        raise Violation("%s is accepted (result %r)" % (what, r))
    if k == "add keys":
        must(ValueError, lambda: pub.encrypt(1) + pub2.encrypt(1), "adding ciphertexts of two keys")
        must(ValueError, lambda: pub.encrypt(1.5) - pub2.encrypt(1), "subtracting ciphertexts of two keys")
    elif k == "decrypt key":
        must(ValueError, lambda: prv2.decrypt(pub.encrypt(1)), "decrypting under another key")
    elif k == "decrypt junk":
        for junk in (1, 1.5, None, "x", [1], object()):
            must(TypeError, lambda: prv.decrypt(junk), "decrypting %r" % type(junk).__name__)
    elif k == "private key":
        must(ValueError, lambda: PaillierPrivateKey(PaillierPublicKey(35), 5, 11), "a private key that does not match")
        must(ValueError, lambda: PaillierPrivateKey(PaillierPublicKey(25), 5, 5), "a private key with p = q")
    elif k == "range":
        big = pub.max_int
        must(ValueError, lambda: pub.encrypt(big + 1), "encrypting max_int + 1")
        must(ValueError, lambda: pub.encrypt(-big - 1), "encrypting -max_int - 1")
        for v in (big, -big):
            expect(prv.decrypt(pub.encrypt(v)) == v, "%s max_int does not survive encryption", "+-"[v < 0])
        must((OverflowError, ValueError), lambda: prv.decrypt(pub.encrypt(big) + pub.encrypt(big)), "max_int + max_int")
        must((OverflowError, ValueError), lambda: prv.decrypt(pub.encrypt(-big) - pub.encrypt(big)), "-max_int - max_int")
        must((OverflowError, ValueError), lambda: prv.decrypt(pub.encrypt(big) + 1), "max_int + 1")
    elif k == "value type":
        for junk in ("1", None, [1], object()):
            must((TypeError, ValueError), lambda: pub.encrypt(junk), "encrypting %r" % type(junk).__name__)
    elif k == "no key":
        e = PaillierEncrypt()
        expect(e.encrypt(1) is None and e.decrypt(1) is None, "an encrypter without a key produces %r", e.encrypt(1))
    return k


def wrapper(case):
    """PaillierEncrypt's list, array and table forms."""
    pub, prv = key(256)
    e = PaillierEncrypt()
    e.set_public_key(pub)
    e.set_privacy_key(prv)
    expect(e.get_public_key() is pub and e.get_privacy_key() is prv and e.get_key_pair() == (pub, prv), "the key pair is not what was set")
    vals = case["vals"]
    ct = e.encrypt_list(vals)
    expect(len(ct) == len(vals), "encrypt_list returns %d of %d", len(ct), len(vals))
    back = e.decrypt_list(ct)
    expect(all(abs(a - b) <= 1e-9 * max(1, abs(b)) for a, b in zip(back, vals)), "list %r comes back as %r", vals, back)
    t = DTable(True, [("k%d" % i, v) for i, v in enumerate(vals)])
    et = e.distribute_encrypt(t)
    dt = dict(e.distribute_decrypt(et).collect())
    expect(set(dt) == {"k%d" % i for i in range(len(vals))} and all(abs(dt["k%d" % i] - v) <= 1e-9 * max(1, abs(v)) for i, v in enumerate(vals)),
           "table %r comes back as %r", vals, dt)
    if vals:
        for shp in case["shapes"]:
            a = np.array((vals * (int(np.prod(shp)) // len(vals) + 1))[:int(np.prod(shp))], dtype=float).reshape(shp)
            back = np.asarray(e.recursive_decrypt(e.recursive_encrypt(a)), dtype=float)
            expect(back.size == a.size and np.allclose(back.reshape(shp), a, rtol=1e-9, atol=1e-12), "array %r comes back as %r", a.tolist(), back.tolist())
    return len(vals)


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** 0.5) + 1))


def keygen(case):
    """Key generation against every pair of first answers of the random source."""
    bits = case["bits"]
    half = bits // 2
    rest = itertools.cycle(range(1 << (half - 1), 1 << half, 3))
    seq = itertools.chain(case["first"], rest)
    with patched("getrandbits", lambda self, k: next(seq) % (1 << k)):
        pub, prv = PaillierKeypair.generate_keypair(bits)
    expect(pub.n.bit_length() == bits, "a %d-bit key was asked for, the modulus %d has %d", bits, pub.n, pub.n.bit_length())
    expect(prv.p * prv.q == pub.n and prv.p != prv.q, "the key %d is not the product of two different factors %d, %d", pub.n, prv.p, prv.q)
    expect(is_prime(prv.p) and is_prime(prv.q), "a factor of %d = %d * %d is not prime", pub.n, prv.p, prv.q)
    expect(pub.nsquare == pub.n ** 2 and pub.g == pub.n + 1, "the public key of %d is inconsistent", pub.n)
    if toy_ok(prv.p, prv.q):
        mx = pub.n // 3 - 1
        with unit_randomness():
            for v in (0, 1, -1, mx, -mx, mx // 2):
                expect(prv.decrypt(pub.encrypt(v)) == v, "under the key %d * %d, %d decrypts to %r", prv.p, prv.q, v, prv.decrypt(pub.encrypt(v)))
    return pub.n


def chain(case):
    """Long sums and differences of ciphertexts and plain numbers, as histograms build them."""
    pub, prv = key(case["bits"])
    h = lambda *k: zlib.crc32(repr(k).encode())          # noqa: E731
    total, want, big = None, Fraction(0), Fraction(0)
    for k in range(case["n"]):
        v = VALS[h(k, case["salt"]) % len(VALS)]
        e = pub.encrypt(v) if k == 0 or h(k, "e") % 3 else v
        if total is None:
            total, want = e, frac(v)
        else:
            op = h(k, "op", case["salt"]) % 4
            total = total + e if op < 2 else e + total if op == 2 else total - e
            want = want + frac(v) if op < 3 else want - frac(v)
        big = max(big, abs(want), abs(frac(v)))
        if (k & (k - 1)) == 0 or k == case["n"] - 1:
            got = prv.decrypt(total)
            expect(abs(frac(got) - want) <= big / 10 ** 9, "after %d additions the sum decrypts to %r instead of %r", k, got, float(want))
    if case["n"] < 100:
        m = prv.decrypt(total * -0.5 + total / 4)
        expect(abs(frac(m) + want / 4) <= big / 10 ** 9, "a scaled sum of %d terms decrypts to %r instead of %r", case["n"], m, float(-want / 4))
    return got


def keys(case):
    """A key equals the keys with the same modulus and no other; a message of another key is refused."""
    ps = case["primes"]
    mine = {q: toy(case["p"], q) for q in ps if q != case["p"]}
    pubs = {}
    for a, b in itertools.combinations(ps, 2):
        pubs[(a, b)] = PaillierPublicKey(a * b)
    n = 0
    for q, (pub, prv) in mine.items():
        for ab, other in pubs.items():
            same = other.n == pub.n
            n += 1
            expect((pub == other) == same and (pub != other) != same, "the keys with the moduli %d and %d are %s", pub.n, other.n, "different" if same else "taken for equal")
            expect(not same or hash(pub) == hash(other), "two equal keys have different hashes")
        for r, (pub2, prv2) in mine.items():
            expect((prv == prv2) == (q == r), "the private keys %d * %d and %d * %d are %s", case["p"], q, case["p"], r, "different" if q == r else "taken for equal")
    return n


RUN = dict(keys=keys, chain=chain, raw=raw, toyapi=toyapi, tree=check_tree, ints=exact_ints, refuse=refuse, wrapper=wrapper, keygen=keygen)


def run_case(case):
    return RUN[case["kind"]](case)


def trees(depth, vals, scalars):
    """All operation trees with `depth` operations applied in a chain or a balanced pair."""
    if depth == 0:
        for v in vals:
            yield ["E", v]
        return
    for t in trees(depth - 1, vals, scalars):
        for s in scalars:
            yield ["+", t, s]
            yield ["+", s, t]
            yield ["-", t, s]
            yield ["-", s, t]
            yield ["*", t, s]
            yield ["*", s, t]
            if lit(s) != 0:
                yield ["/", t, s]
        for v in vals:
            yield ["+", t, ["E", v]]
            yield ["-", t, ["E", v]]


def tasks(tier):
    big = tier != "quick"
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of) for i in range(of))
    add(b="raw", top=47 if big else 23, of=8)
    add(b="toyapi", top=31 if big else 17, of=8)
    add(b="tree1", of=4)
    add(b="tree2", big=big, of=16)
    if big:
        add(b="tree3", of=24)
    add(b="numpy", of=2)
    add(b="ints", of=2)
    add(b="misc", of=1)
    add(b="keygen", bits=[8, 10, 12] if not big else [8, 10, 12, 14, 16], of=8)
    add(b="long", of=1)
    add(b="far", of=2)
    add(b="keys", of=4, top=400 if big else 230)
    add(b="wide", of=4, big=big)
    return out


def cases(block):
    b = block["b"]
    if b == "raw":
        for p, q in itertools.permutations([x for x in PRIMES if x <= block["top"]], 2):
            if toy_ok(p, q):
                yield dict(kind="raw", p=p, q=q, step=1 if p * q < 300 else 7)
    elif b == "toyapi":
        for p, q in itertools.permutations([x for x in PRIMES if x <= block["top"]], 2):
            if toy_ok(p, q):
                yield dict(kind="toyapi", p=p, q=q, step=1 if p * q < 100 else 13)
    elif b == "tree1":
        for t in itertools.chain(trees(0, VALS, VALS), trees(1, VALS, VALS)):
            yield dict(kind="tree", tree=t, obf=True)
    elif b == "tree2":
        vals = VALS if block["big"] else [1, -0.3, 1e-8, -123456.789]
        for t in trees(2, vals, vals if block["big"] else [3, -0.5, 1e-8]):
            yield dict(kind="tree", tree=t)
        vals = [0.1, -3, 1e6, 1e-9]
        for a, c, d, e in itertools.product(vals, repeat=4):
            for o1, o2, o3 in itertools.product("+-", repeat=3):
                yield dict(kind="tree", tree=[o1, [o2, ["E", a], ["E", c]], [o3, ["E", d], ["E", e]]])
    elif b == "tree3":
        for t in trees(3, [1, -0.3, 1e-8, 1e7], [3, -0.5, 1e-6]):
            yield dict(kind="tree", tree=t)
    elif b == "numpy":
        sc = [list(x) for x in NP]
        for t in itertools.chain(trees(0, sc + [list(x) for x in NPE], sc), trees(1, sc + [2, -0.7], sc)):
            # numpy scalars on the left would hand the operation to numpy
            if len(t) == 3 and isinstance(t[1], list) and t[1][0] not in OPS:
                continue
            yield dict(kind="tree", tree=t)
    elif b == "ints":
        for terms in itertools.product((0, 1, -1, 7, -1000, 2 ** 60, -2 ** 60), repeat=4):
            yield dict(kind="ints", terms=list(terms))
    elif b == "misc":
        for k in ("add keys", "decrypt key", "decrypt junk", "private key", "range", "value type", "no key"):
            yield dict(kind="refuse", k=k)
        for vals in ([], [1.5], [0, -2, 0.25], [1e-5, 1e5, -3.3, 7]):
            yield dict(kind="wrapper", vals=vals, shapes=[[1], [3], [2, 3], [2, 1, 2], [1, 4], [4, 1]])
    elif b == "keygen":
        for bits in block["bits"]:
            half = bits // 2
            for first in itertools.product(range(1 << (half - 1)), repeat=2):
                yield dict(kind="keygen", bits=bits, first=[a | 1 << (half - 1) for a in first])
            for first in itertools.product(range(1 << (half - 1)), repeat=1):
                yield dict(kind="keygen", bits=bits, first=[first[0]] * 3)
    elif b == "wide":
        for n in (5, 8, 9, 16, 17, 33, 64, 130, 300) + ((2000,) if block["big"] else ()):
            for salt in range(6):
                for bits in (256, 512) if n < 100 else (256,):
                    yield dict(kind="chain", n=n, salt=salt, bits=bits)
        for n in (5, 9, 10, 11, 17, 33, 70, 260):
            vals = [VALS[i * 7 % len(VALS)] + i for i in range(n)]
            yield dict(kind="wrapper", vals=vals, shapes=[[n], [n, 2], [1, n], [3, 1, n // 3], [2, 2, 2, 2]])
        for n in (5, 9, 40, 200):
            yield dict(kind="ints", terms=[(-1) ** i * (i * 7919 + 2 ** (i % 60)) for i in range(n)])
        for t in itertools.chain(trees(0, VALS, VALS), trees(1, [-0.3, 7], [3, 1e6, -0.25])):
            yield dict(kind="tree", tree=t, bits=2048 if block["big"] else 768, obf=True)
        if not block["big"]:
            yield dict(kind="tree", tree=["+", ["E", -0.3], ["E", 7]], bits=2048, obf=True)
    elif b == "far":
        # exponents far apart: numbers of very different magnitude under one key
        vals = [5, -0.3, 1e-60, -1e-40, 1e60, 3e-12, -7e30]
        for t in itertools.chain(trees(0, vals, vals), trees(1, vals, [5, -1e-60, 1e40, -0.3])):
            yield dict(kind="tree", tree=t, bits=1024)
        for a, c, d in itertools.permutations(vals, 3):
            yield dict(kind="tree", tree=["-", ["+", ["E", a], ["E", c]], ["E", d]], bits=1024)
    elif b == "keys":
        ps = [x for x in range(11, block["top"]) if is_prime(x)]
        for p in ps:
            yield dict(kind="keys", p=p, primes=ps)
    elif b == "long":
        for bits in (512, 1024):
            for t in itertools.chain(trees(0, VALS, VALS), trees(1, [-0.3, 1e-8, 7, -123456.789], [3, 1e6, -0.25])):
                yield dict(kind="tree", tree=t, bits=bits, obf=True)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run_case(case))
        if r is not None:
            ctx.state(case)
            if case["kind"] in ("raw", "toyapi", "keys"):
                ctx.step(r)
            ctx.outcome((case["kind"], r))
