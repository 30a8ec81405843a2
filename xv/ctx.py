"""Scenario context: what a scenario uses to report events, cases and violations."""
import hashlib
import json
import time
import zlib

import numpy as np


class Violation(Exception):
    def __init__(self, key, msg, detail):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg, self.detail = key, msg, detail


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:80]]
    if isinstance(x, (bool, int, str)) or x is None:
        return x if not isinstance(x, str) else x[:600]
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, bytes):
        return x[:64].hex()
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if hasattr(x, "shape") and hasattr(x, "dtype"):
        a = np.asarray(x)
        if a.size <= 64:
            try:
                return jsonable(a.tolist(), depth + 1)
            except Exception:
                return repr(a)[:300]
        return f"array{a.shape}:{a.dtype}:{a.reshape(-1)[:16].tolist()}..."[:400]
    return repr(x)[:300]


class Ctx:
    def __init__(self, prop, name, seed, rnd, tier, params, tick=None):
        self.prop, self.name, self.seed, self.round, self.tier = prop, name, seed, rnd, tier
        self.params = params
        mix = zlib.crc32(f"{prop}/{name}".encode())
        self.rng = np.random.default_rng([seed, rnd, mix])
        self.evals = 0
        self.trivial = 0
        self.distinct = set()
        self.events = {}
        self.samples = []
        self._tick = tick
        self._t = time.time()

    def tick(self):
        if self._tick is not None and time.time() - self._t > 1.0:
            self._t = time.time()
            self._tick()

    def case(self, *desc, nontrivial=True):
        """Count one evaluated case. `desc` identifies it; its digest decides distinctness."""
        self.evals += 1
        if nontrivial:
            h = hashlib.blake2b(digest_size=8)
            h.update(self.name.encode())
            for d in desc:
                if isinstance(d, bytes):
                    h.update(d)
                elif isinstance(d, np.ndarray):
                    h.update(str(d.shape).encode() + str(d.dtype).encode() + np.ascontiguousarray(d).tobytes())
                else:
                    h.update(repr(d).encode())
                h.update(b"|")
            self.distinct.add(h.hexdigest())
        else:
            self.trivial += 1
        self.tick()

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def fail(self, key, msg, **detail):
        raise Violation(key, msg, jsonable(detail))

    def require(self, cond, key, msg, **detail):
        if not cond:
            self.fail(key, msg, **detail)


class Scenario:
    """fn: name of a function `fn(ctx, **params)` in the check module."""

    def __init__(self, name, fn, env=None, weight=1.0, once=False, **params):
        self.name, self.fn, self.params = name, fn, params
        self.env = dict(env or {})
        self.weight = weight
        self.once = once  # not repeated in later rounds

    def to_json(self):
        return dict(name=self.name, fn=self.fn, params=self.params, env=self.env)
