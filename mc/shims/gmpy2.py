"""Pure-Python stand-in for the six gmpy2 2.0.8 functions the repository calls.

gmpy2 2.0.8 cannot be built for this Python (see /opt/vp/BUILD.json).  The
stand-in follows the documented gmpy2 2.0 semantics: invert() and powmod()
raise ZeroDivisionError where no inverse exists / the modulus is zero.
"""
import math as _math


class mpz(int):
    pass


def powmod(x, y, m):
    if m == 0:
        raise ZeroDivisionError("powmod() division by zero")
    try:
        return mpz(pow(int(x), int(y), abs(int(m))))
    except ValueError:
        raise ZeroDivisionError("powmod() base not invertible")


def invert(x, m):
    m = abs(int(m))
    if m == 0:
        raise ZeroDivisionError("invert() division by zero")
    try:
        return mpz(pow(int(x), -1, m))
    except ValueError:
        raise ZeroDivisionError("invert() no inverse exists")


def bit_set(x, n):
    return mpz(int(x) | (1 << int(n)))


def bit_length(x):
    return int(x).bit_length()


def gcd(a, b):
    return mpz(_math.gcd(int(a), int(b)))


def lcm(a, b):
    return mpz(_math.lcm(int(a), int(b)))


def isqrt(n):
    return mpz(_math.isqrt(int(n)))


def mul(a, b):
    return mpz(int(a) * int(b))


def add(a, b):
    return mpz(int(a) + int(b))


def sub(a, b):
    return mpz(int(a) - int(b))


def f_mod(a, b):
    return mpz(int(a) % int(b))


_SMALL = [p for p in range(2, 2000) if all(p % d for d in range(2, int(p ** 0.5) + 1))]


def is_prime(n, rounds=25):
    n = int(n)
    if n < 2:
        return False
    for p in _SMALL:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    # deterministic bases: below 3.3e24 the first 13 primes decide primality
    for a in _SMALL[:max(13, rounds)]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n = int(n) + 1
    if n <= 2:
        return mpz(2)
    n |= 1
    while not is_prime(n):
        n += 2
    return mpz(n)
