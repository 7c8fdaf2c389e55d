"""Minimisation of a failing scenario: drop operations and faults, then simplify, while the violation class persists."""
import copy
import importlib
import json
import time

from sim import core


KEEP = ("device", "unit_cell_devices", "is_perfect", "tile_class", "pulse_type", "w_max", "w_min")


def regenerate(pool, pid, seed, index, tier):  # pylint: disable=unused-argument
    prop = importlib.import_module(f"sim.props.{pid.lower()}")
    return json.loads(json.dumps(prop.gen(core.rng_for(seed, pid, index), tier, index)))


def _chunks(items):
    n = len(items)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            yield start, min(n, start + size)
        size //= 2


def _paths(scn):
    """Lists in the scenario that may lose elements, most valuable first."""
    out = []

    def walk(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in ("ops", "faults", "schedule", "events") and isinstance(v, list):
                    out.append(path + [k])
                if k.startswith("_"):
                    continue
                walk(v, path + [k])
        elif isinstance(node, list):
            for i, v in enumerate(node):
                walk(v, path + [i])
    walk(scn, [])
    return sorted(out, key=len)


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _set_nodes(scn):
    """Configuration overrides ("f" maps of the zoo) that may be dropped."""
    out = []

    def walk(node, path):
        if isinstance(node, dict):
            if isinstance(node.get("f"), dict):
                for k, v in node["f"].items():
                    # without these the scenario would be another one (or no valid one)
                    if k in KEEP or isinstance(v, dict) and any(s in KEEP for s in v.get("f", ())):
                        continue
                    out.append((path + ["f"], k))
            for k, v in node.items():
                walk(v, path + [k])
        elif isinstance(node, list):
            for i, v in enumerate(node):
                walk(v, path + [i])
    walk(scn, [])
    return out


def candidates(scn):
    for path in _paths(scn):
        items = _get(scn, path)
        for a, b in _chunks(items):
            cand = copy.deepcopy(scn)
            lst = _get(cand, path)
            del lst[a:b]
            if path[-1] == "ops" and not lst:
                continue
            yield cand
    for path, key in _set_nodes(scn):
        cand = copy.deepcopy(scn)
        del _get(cand, path)[key]
        yield cand


def minimise(pool, scn, res, tier, timeout, seconds=75, limit=400):
    best, best_res = scn, res
    start = time.time()
    tried = 0
    progress = True
    while progress and time.time() - start < seconds and tried < limit:
        progress = False
        batch = []
        for cand in candidates(best):
            batch.append(cand)
            if len(batch) == len(pool.procs):
                hit, tried = _try(pool, batch, best_res, tier, timeout, tried)
                batch = []
                if hit:
                    best, best_res = hit
                    progress = True
                    break
                if time.time() - start > seconds or tried > limit:
                    break
        if batch and not progress:
            hit, tried = _try(pool, batch, best_res, tier, timeout, tried)
            if hit:
                best, best_res = hit
                progress = True
    return best, best_res, tried


def _try(pool, batch, want, tier, timeout, tried):
    outs = pool.run_all([{"scn": c, "tier": tier, "timeout": timeout} for c in batch])
    tried += len(batch)
    for cand, out in zip(batch, outs):
        if out["status"] == "violation" and out["kind"] == want["kind"]:
            return (cand, out), tried
    return None, tried
