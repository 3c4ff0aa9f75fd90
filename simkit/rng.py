"""One integer decides everything: every random choice comes from derive(...)."""
import hashlib
import random


def derive_int(*labels):
    h = hashlib.sha256("|".join(str(x) for x in labels).encode()).digest()
    return int.from_bytes(h[:8], "big")


def derive(*labels):
    return random.Random(derive_int(*labels))


def nseed(*labels):
    """A seed for numpy.random.RandomState."""
    return derive_int(*labels) % (2**31 - 1)
