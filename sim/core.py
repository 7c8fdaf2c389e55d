"""Shared vocabulary of the simulator: seeds, violations, the recorded history and digests of observations."""
import hashlib
import json
import random


class Violation(Exception):
    """The property is broken: kind is the class of violation (kept while minimising), msg describes this instance."""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = str(msg)


class SimCrash(BaseException):
    """A simulated process crash; not an Exception, so that no handler of the code under test swallows it."""


class SimFault(Exception):
    """An injected failure which a caller of the system may legitimately see."""


def derive(*parts):
    """A 63-bit seed derived from the given parts."""
    data = "/".join(str(p) for p in parts).encode()
    return int.from_bytes(hashlib.sha256(data).digest()[:8], "big") >> 1


def rng_for(*parts):
    return random.Random(derive(*parts))


def _feed(h, value):
    # pylint: disable=too-many-branches
    import numpy as np
    import torch

    if isinstance(value, torch.Tensor):
        t = value.detach().cpu().contiguous()
        h.update(f"T{tuple(t.shape)}{t.dtype}".encode())
        h.update(t.to(torch.float64).numpy().tobytes() if t.dtype == torch.bfloat16 else t.numpy().tobytes())
    elif isinstance(value, np.ndarray):
        h.update(f"N{value.shape}{value.dtype}".encode() + np.ascontiguousarray(value).tobytes())
    elif isinstance(value, dict):
        h.update(b"{")
        for k in value:
            h.update(str(k).encode() + b":")
            _feed(h, value[k])
        h.update(b"}")
    elif isinstance(value, (list, tuple)):
        h.update(b"[")
        for v in value:
            _feed(h, v)
        h.update(b"]")
    elif isinstance(value, float):
        h.update(value.hex().encode())
    else:
        h.update(repr(value).encode())


def digest(value):
    h = hashlib.blake2b(digest_size=8)
    _feed(h, value)
    return h.hexdigest()


class Ctx:
    """What one simulated run records."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.steps = 0
        self.sim_time = 0.0
        self.trace = []
        self._h = hashlib.blake2b(digest_size=8)
        self.checks = 0

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def log(self, *event):
        line = json.dumps(event, default=str)
        self._h.update(line.encode())
        if len(self.trace) < 400:
            self.trace.append(line)

    def state(self, value):
        """A state reached, by digest."""
        d = digest(value)
        self.states.add(d)
        self._h.update(d.encode())

    def schedule(self, order):
        self.states.add(digest(order))
        self._h.update(digest(order).encode())

    def step(self, n=1):
        self.steps += n

    def check(self, n=1):
        self.checks += n

    def require(self, cond, kind, msg=""):
        self.checks += 1
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def result(self):
        return {"faults": self.faults, "probes": self.probes, "states": sorted(self.states)[:200], "steps": self.steps,
                "sim_time": self.sim_time, "digest": self._h.hexdigest(), "checks": self.checks}


def first_difference(a, b, path="", exact=True, tol=0.0, ordered=False):
    """A description of the first difference between two nested observations, or None."""
    # pylint: disable=too-many-return-statements,too-many-branches
    import torch

    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)):
            return f"{path}: {type(a).__name__} against {type(b).__name__}"
        if a.shape != b.shape:
            return f"{path}: shape {tuple(a.shape)} against {tuple(b.shape)}"
        if a.dtype != b.dtype and exact:
            return f"{path}: dtype {a.dtype} against {b.dtype}"
        x, y = a.detach().double(), b.detach().double()
        both_nan = torch.isnan(x) & torch.isnan(y)
        same = (x == y) | both_nan
        if tol:
            same = same | ((x - y).abs() <= tol * (1.0 + torch.maximum(x.abs(), y.abs())))
        if not bool(same.all()):
            bad = (~same).nonzero()
            at = tuple(int(i) for i in bad[0]) if bad.numel() else ()
            return f"{path}{list(at)}: {float(x[at]):.9g} against {float(y[at]):.9g} ({int((~same).sum())} of {x.numel()} differ)"
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a.keys()) != list(b.keys()):
            extra = sorted(map(str, set(a) ^ set(b)))
            if extra or ordered:
                return f"{path}: keys differ: {extra[:6] or 'in order only'}"
        for k in a:
            d = first_difference(a[k], b[k], f"{path}.{k}", exact, tol, ordered)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} against {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f"{path}[{i}]", exact, tol, ordered)
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or (tol and abs(a - b) <= tol * (1 + max(abs(a), abs(b)))):
            return None
        return f"{path}: {a!r} against {b!r}"
    if a != b:
        return f"{path}: {a!r} against {b!r}"
    return None
