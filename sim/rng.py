import hashlib
import random


def derive(*parts):
    """integer seed that is a pure function of `parts`"""
    h = hashlib.sha256('\x1f'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def stream(*parts):
    return random.Random(derive(*parts))
