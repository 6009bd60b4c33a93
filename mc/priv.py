"""What crosses the party boundary: recording taps, opaque ciphertexts, object walks."""
import contextlib
import pickle

import numpy as np

from mc import compat  # noqa: F401
from mc.core import HarnessError
from ml.secureprotol import encrypt as _encrypt


class Tap:
    """Wraps a TransferInst and keeps a pickled copy of everything it is asked to send."""

    def __init__(self, name, inst, log):
        self.__dict__.update(_name=name, _inst=inst, _log=log)

    def __getattr__(self, k):
        v = getattr(self._inst, k)
        if k.startswith("send_") and callable(v):
            def send(data, *a, **kw):
                self._log.append((self._name, pickle.dumps(data)))
                return v(data, *a, **kw)
            return send
        return v

    def __setattr__(self, k, v):
        setattr(self._inst, k, v)


# ---------------------------------------------------------------------------
# opaque ciphertexts: plaintexts live in a table only the decrypting code reads
# ---------------------------------------------------------------------------
_TABLE = {}


class Opaque:
    """A ciphertext that can be added, subtracted and scaled, and nothing else."""
    __slots__ = ("token",)

    def __init__(self, value):
        self.token = len(_TABLE)
        _TABLE[self.token] = value

    def __reduce__(self):
        return _restore, (self.token,)

    def _val(self, o):
        if isinstance(o, Opaque):
            return _TABLE[o.token]
        return float(o)

    def __add__(self, o):
        return Opaque(_TABLE[self.token] + self._val(o))
    __radd__ = __add__

    def __sub__(self, o):
        return Opaque(_TABLE[self.token] - self._val(o))

    def __rsub__(self, o):
        return Opaque(self._val(o) - _TABLE[self.token])

    def __mul__(self, o):
        if isinstance(o, Opaque):
            raise TypeError("two ciphertexts cannot be multiplied")
        return Opaque(_TABLE[self.token] * o)
    __rmul__ = __mul__

    def __repr__(self):
        return "<ciphertext>"


def _restore(token):
    o = object.__new__(Opaque)
    o.token = token
    return o


@contextlib.contextmanager
def opaque_keys():
    """PaillierEncrypt hands out opaque ciphertexts."""
    cls = _encrypt.PaillierEncrypt
    saved = {k: cls.__dict__.get(k) for k in ("generate_key", "encrypt", "decrypt")}
    _TABLE.clear()
    cls.generate_key = lambda self, n_length=1024: None
    cls.encrypt = lambda self, value: Opaque(float(value))

    def decrypt(self, value):
        if not isinstance(value, Opaque):
            raise TypeError("not a ciphertext: %r" % type(value))
        return _TABLE[value.token]
    cls.decrypt = decrypt
    try:
        yield
    finally:
        for k, v in saved.items():
            if v is None:
                delattr(cls, k)
            else:
                setattr(cls, k, v)
        _TABLE.clear()


# ---------------------------------------------------------------------------
# walking messages
# ---------------------------------------------------------------------------
def leaves(obj, path=""):
    """(path, leaf) for every atom reachable from a message; ciphertexts are atoms."""
    stack = [(path, obj)]
    seen = set()
    while stack:
        p, o = stack.pop()
        if o is None or isinstance(o, (bool, int, float, str, bytes, complex, np.generic, Opaque)):
            yield p, (o.item() if isinstance(o, np.generic) else o)
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            stack.extend((p + "[]", x) for x in o.ravel().tolist())
        elif isinstance(o, dict):
            for k, v in o.items():
                stack.append((p + ".key", k))
                stack.append((p + "{}", v))
        elif isinstance(o, (list, tuple, set, frozenset)):
            stack.extend((p + "[]", x) for x in o)
        elif type(o).__name__ in ("PaillierEncryptedNumber", "PaillierPublicKey"):
            yield p, o
        else:
            d = dict(getattr(o, "__dict__", {}) or {})
            for c in type(o).__mro__:
                for s in getattr(c, "__slots__", ()):
                    if hasattr(o, s):
                        d[s] = getattr(o, s)
            if not d and not hasattr(o, "__dict__"):
                raise HarnessError("cannot look inside %r" % type(o))
            yield p, type(o)
            for k, v in d.items():
                stack.append((p + "." + k, v))


def shape(obj, opened=False):
    """A canonical, comparable value of a message with ciphertexts blanked out (or opened)."""
    if opened and isinstance(obj, Opaque):
        return "<ciphertext of %r>" % (round(_TABLE[obj.token], 6) + 0.0)
    if isinstance(obj, Opaque) or type(obj).__name__ == "PaillierEncryptedNumber":
        return "<ciphertext>"
    if obj is None or isinstance(obj, (bool, int, float, str, bytes)):
        return repr(obj)
    if isinstance(obj, np.generic):
        return repr(obj.item())
    if isinstance(obj, np.ndarray):
        return [shape(x, opened) for x in obj.tolist()]
    if isinstance(obj, dict):
        return sorted((shape(k, opened), shape(v, opened)) for k, v in obj.items())
    if isinstance(obj, (list, tuple)):
        return [type(obj).__name__] + [shape(x, opened) for x in obj]
    if isinstance(obj, (set, frozenset)):
        return sorted(repr(shape(x, opened)) for x in obj)
    if isinstance(obj, type):
        return obj.__name__
    return [type(obj).__name__] + sorted((k, shape(v, opened)) for k, v in getattr(obj, "__dict__", {}).items())
