"""Single source of every random decision taken by a simulated run.

A run is a pure function of (case, choices): a Chooser either draws choices from a PRNG seeded by the case or
replays a recorded list (missing entries = 0, which always stands for the plainest decision)."""
import hashlib
import random as _random

_Random = _random.Random


def derive_seed(*parts):
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return _Random(derive_seed(*parts))


class Chooser:
    __slots__ = ("rng", "script", "pos", "record")

    def __init__(self, seed=None, script=None):
        self.rng = _Random(seed) if script is None else None
        self.script = script
        self.pos = 0
        self.record = []

    def pick(self, n):
        """Integer in [0, n)."""
        if n <= 1:
            return 0
        if self.script is None:
            v = int(self.rng.random() * n)
        else:
            v = self.script[self.pos] if self.pos < len(self.script) else 0
            if v >= n:
                v = v % n
        self.pos += 1
        self.record.append(v)
        return v

    def of(self, table):
        return table[self.pick(len(table))]


def chooser_for(case):
    s = case.get("choices")
    return Chooser(script=s) if s is not None else Chooser(seed=case["seed"])
