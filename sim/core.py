"""Pieces shared by the orchestrator (main), the workers and the properties."""
import hashlib
import json
import os
import random
import re
import sys

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = sys.executable


def rng_for(*parts):
    """The only source of randomness: a PRNG named by the seed and a path."""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def digest(obj):
    if not isinstance(obj, (bytes, str)):
        obj = json.dumps(obj, sort_keys=True, default=str)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "surrogateescape")
    return hashlib.sha256(obj).hexdigest()[:16]


_ADDR = re.compile(r"(?:0x|handle )[0-9a-fA-F]{5,}")


def norm(text, *roots):
    """Hide scratch paths and addresses, which differ between workers."""
    text = str(text)
    for i, r in enumerate(roots):
        if r:
            text = text.replace(r, "$R%d" % i)
    return _ADDR.sub("0xADDR", text)


class Violation(Exception):
    """Raised by a property when the code under test broke it."""

    def __init__(self, klass, msg):
        Exception.__init__(self, "%s: %s" % (klass, msg))
        self.klass = klass
        self.msg = msg


class Skip(Exception):
    """The generated world is not a case of the property (counted as trivial)."""


def clip(s, n=600):
    s = str(s)
    return s if len(s) <= n else s[:n // 2] + " [...] " + s[-n // 2:]


def first_diff(a, b):
    """A short description of where two texts differ."""
    la, lb = str(a).splitlines(), str(b).splitlines()
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %d: %r != %r" % (i + 1, clip(x, 160), clip(y, 160))
    if len(la) != len(lb):
        longer = la if len(la) > len(lb) else lb
        return "%d lines != %d lines, next line %r" % (
            len(la), len(lb), clip(longer[min(len(la), len(lb))], 160))
    return "equal lines"
