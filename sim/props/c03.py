"""C03: a damaged or foreign checkpoint is refused or reported, never silently taken for a good one, and the model can
afterwards be restored from a good one."""
import copy

from sim import core, engine, zoo
from sim.core import Violation

PID = "C03"
TOL = 0.0
FAMS = ["single", "vector", "reference", "onesided", "transfer", "buffered", "chopped", "dynamic", "mixed", "float",
        "inference", "torch", "irdrop", "quant", "custom", "torchtransfer"]
STATE = "analog_tile_state"
# what an entry repeats of the state of its tile, and what older versions did not store
REDUNDANT = ("analog_ctx", "shared_weights", "tile.weight", "tile._analog_weight")


def gen(rng, tier, index):
    from sim.props.c02 import gen_ops
    fam = FAMS[index % len(FAMS)]
    cfg = zoo.gen_config(rng, fam)
    ops = gen_ops(rng, fam, rng.randrange(2, 6))
    damages = []
    for _ in range(rng.randrange(1, 4)):
        kind = zoo.pick(rng, "lost-entry", "lost-entry", "lost-field", "torn", "torn", "misplaced", "foreign", "junk",
                        "renamed", "other-shape", "other-names")
        if rng.random() < 0.06:
            kind = "torn-extra"
        d = {"kind": kind, "which": rng.randrange(1000), "cut": zoo.pick(rng, "rows", "cols", "empty"),
             "strict": rng.random() < 0.7}
        if kind == "foreign":
            d["config"] = zoo.gen_config(rng, fam if rng.random() < 0.4 else rng.choice(FAMS))
            d["config_only"] = rng.random() < 0.3
        damages.append(d)
    return {"seed": rng.getrandbits(32), "family": fam, "config": cfg, "model": zoo.gen_model(rng, fam), "ops": ops,
            "save": rng.randrange(len(ops)), "damages": damages, "opt": zoo.pick(rng, "sgd", "sgdm", "adam"),
            "lr": 0.1, "twice": rng.random() < 0.5}


def tensors_of(state, path=()):
    """The paths to all tensors of a checkpoint that carry state of their own."""
    import torch
    out = []
    for key, v in state.items():
        if isinstance(v, torch.Tensor) and v.numel() > 2 and not str(key).endswith(REDUNDANT):
            out.append(path + (key,))
        elif isinstance(v, dict) and str(key).endswith(STATE):
            for sub in ("analog_tile_weights", "analog_tile_hidden_parameters"):
                if isinstance(v.get(sub), torch.Tensor) and v[sub].numel() > 1:
                    out.append(path + (key, sub))
    return out


def damage(state, dmg, scn, ctx):
    """Apply a storage fault; returns (state, must_fail, lost keys) or None if it does not apply."""
    # pylint: disable=too-many-return-statements,too-many-branches
    state = copy.copy(state)
    keys = list(state)
    pick = dmg["which"]
    kind = dmg["kind"]
    tiles = [k for k in keys if k.endswith(STATE) and state[k]]
    if kind == "lost-entry":
        own = [k for k in keys if not k.endswith(REDUNDANT)]
        # whole tile states are what matters most
        key = (tiles + own)[pick % (len(tiles) + len(own))]
        if key.endswith("_extra_state"):
            return None  # not stored by older versions, tolerated
        del state[key]
        return state, True, [key]
    if kind == "renamed":
        key = keys[pick % len(keys)]
        if key.endswith(REDUNDANT + ("_extra_state",)) or key.split(".")[-1] == "":
            return None
        state["moved." + key] = state.pop(key)
        return state, True, [key]
    if kind == "junk":
        state["unknown_entry"] = state[keys[0]]
        return state, True, []
    if kind == "lost-field" and tiles:
        key = tiles[pick % len(tiles)]
        tile = dict(state[key])
        needed = [f for f in ("analog_tile_weights", "analog_tile_hidden_parameters", "rpu_config") if f in tile]
        if not needed:
            return None
        dmg["path"] = [key, needed[pick // 7 % len(needed)]]
        del tile[dmg["path"][1]]
        state[key] = tile
        return state, True, None
    if kind == "torn":
        paths = tensors_of(state)
        if not paths:
            return None
        path = paths[pick % len(paths)]
        if len(path) == 2:
            state[path[0]] = dict(state[path[0]])
        holder = state if len(path) == 1 else state[path[0]]
        t = holder[path[-1]]
        if dmg["cut"] == "empty":
            t = t[:0]
        elif dmg["cut"] == "cols" and t.dim() > 1 and t.shape[1] > 1:
            t = t[:, :-1]
        else:
            t = t[:-1]
        dmg["path"] = list(path)
        holder[path[-1]] = t.clone()
        return state, True, None
    if kind == "other-names" and tiles:
        # as many hidden parameters, but those of another device
        key = tiles[pick % len(tiles)]
        names = list(state[key].get("analog_tile_hidden_parameter_names") or [])
        if not names:
            return None
        if len(names) > 1 and pick % 2:
            names = names[1:] + names[:1]
        else:
            names[pick // 5 % len(names)] += "_of_another_device"
        state[key] = dict(state[key], analog_tile_hidden_parameter_names=names)
        return state, True, None
    if kind == "torn-extra" and tiles:
        key = tiles[pick % len(tiles)]
        extra = state[key].get("state_extra") or {}
        names = [n for n in sorted(extra) if hasattr(extra[n], "__len__") and len(extra[n]) > 2 or
                 getattr(extra[n], "ndim", 0) == 2]
        if not names:
            return None
        name = names[pick // 11 % len(names)]
        state[key] = dict(state[key])
        state[key]["state_extra"] = dict(extra)
        state[key]["state_extra"][name] = extra[name][:-1]
        dmg["path"] = [key, name]
        return state, True, None
    if kind == "misplaced" and len(tiles) > 1 and scn["family"] in zoo.TRAINING:
        a, b = tiles[pick % len(tiles)], tiles[(pick // 3 + 1) % len(tiles)]
        if a == b:
            return None
        state[a], state[b] = state[b], state[a]
        wa, wb = state[a].get("analog_tile_weights"), state[b].get("analog_tile_weights")
        same = wa is not None and wb is not None and wa.shape == wb.shape
        return state, not same, None
    if kind in ("foreign", "other-shape"):
        from sim.train import Job
        other = dict(scn)
        other["model"] = dict(scn["model"])
        must = False
        if kind == "foreign":
            other["config"] = dmg["config"]
        else:
            for field in ("out", "in", "hidden"):
                if field in other["model"]:
                    other["model"][field] += 1
            must = True
        try:
            foreign = Job(other, 77).model.state_dict()
        except Exception:  # pylint: disable=broad-except
            return None
        ctx.probe("foreign-checkpoint")
        return foreign, must, None
    return None


def classless(state):
    """Without the class of the tiles, which a compatible checkpoint does not change."""
    return {k: {n: x for n, x in v.items() if n != "analog_tile_class"} if isinstance(v, dict) else v for k, v in state.items()}


def execute(scn, ctx):
    from sim.props.c01 import comparable
    from sim.props.c02 import act
    from sim.train import Job, clipped_by_loading, copied
    ops = scn["ops"]
    ref = Job(scn, core.derive(scn["seed"], "construct"))
    ref.build_optimizer()
    expected, blob = [], None
    for i, op in enumerate(ops):
        res = act(ref, i, op)
        expected.append((res, ref.observe()))
        if i == scn["save"]:
            blob = ref.save()
    job = Job(scn, core.derive(scn["seed"], "other"))
    job.build_optimizer()
    pending = None
    for k, dmg in enumerate(scn["damages"]):
        good = Job.read(blob)["model"]
        engine.seed_all(core.derive(scn["seed"], "damage", k), engine.MODE_STREAM)
        made = damage(good, dmg, scn, ctx)
        if made is None:
            continue
        state, must_fail, lost = made
        engine.seed_all(core.derive(scn["seed"], "load", k), engine.MODE_STREAM)
        target = job
        if dmg["kind"] in ("foreign", "other-shape", "torn-extra"):
            # loading another configuration may legitimately make another model of it
            target = Job(scn, core.derive(scn["seed"], "thrown away", k))
        before = snapshot(target)
        declared = set(target.model.state_dict())
        if lost and not declared & set(lost):
            # a state which this model only gets in the course of its life
            must_fail, lost = dmg["kind"] == "renamed", ["moved." + lost[0]] if dmg["kind"] == "renamed" else None
        engine.seed_all(core.derive(scn["seed"], "load", k), engine.MODE_STREAM)
        given = {key: id(v) for key, v in state.items()}
        ctx.fault(dmg["kind"])
        ctx.step()
        result, error = None, None
        try:
            result = target.model.load_state_dict(state, strict=dmg["strict"], load_rpu_config=True)
        except Exception as exc:  # pylint: disable=broad-except
            error = exc
        ctx.log("load", k, dmg["kind"], dmg["strict"], type(error).__name__)
        ctx.require({key: id(v) for key, v in state.items()} == given, "checkpoint-modified", lambda: "loading changed the "
                    "checkpoint that was given: "
                    f"{sorted(set(given) ^ set(state))[:4] or 'other objects'}")
        if error is not None:
            ctx.probe("refused")
            continue
        have = comparable(target.model.state_dict())
        if must_fail and core.first_difference(comparable(good), have, tol=TOL) is None:
            ctx.probe("redundant-entry")  # what was damaged is stored elsewhere as well, nothing is lost
            continue
        if dmg["kind"] == "torn-extra":
            pending = Violation("torn-extra-state-accepted", "a load accepted a checkpoint in which the extra state "
                                f"{dmg['path'][-1]} of a tile had lost its last element")
            continue
        if dmg["strict"]:
            ctx.require(not must_fail, "silently-accepted", lambda: f"a strict load accepted a checkpoint with the fault "
                        f"{dmg} {lost or ''}")
        else:
            named = list(result.missing_keys) + list(result.unexpected_keys)
            if lost is not None:
                ctx.require(not lost or any(key in named for key in lost), "loss-not-reported", lambda: "the entries "
                            f"{lost} are lost, reported were missing {result.missing_keys[:5]} unexpected "
                            f"{result.unexpected_keys[:5]}")
                if dmg["kind"] == "junk":
                    ctx.require("unknown_entry" in named, "loss-not-reported", "an unknown entry was not reported")
            else:
                ctx.require(not must_fail or named, "silently-accepted", lambda: "a load without complaint accepted a "
                            f"checkpoint with the fault {dmg}")
            if lost and lost[0].endswith(STATE) and scn["family"] in zoo.TRAINING:
                # a tile without a stored state stays what it was
                name = lost[0][:-len(STATE) - 1]
                now = snapshot(target)
                diff = core.first_difference({key: v for key, v in before.items() if key == name},
                                             {key: v for key, v in now.items() if key == name}, tol=TOL)
                ctx.require(diff is None, "tile-without-state-changed", lambda: f"{name}: {diff}")
                ctx.probe("reported")
        if not must_fail:
            # accepted: then the model must be what the checkpoint says
            want = comparable(state)
            gone = sorted(set(want) ^ set(have))
            if dmg["strict"] and gone and set(have) < set(want) and all(".tile." in key for key in gone):
                pending = Violation("nested-entries-ignored", f"a strict load of a {dmg['kind']} checkpoint dropped entries of "
                                    f"the simulator tile without a word: {gone}")
                continue
            diff = core.first_difference(classless(want), classless(have), tol=TOL)
            if diff is not None and dmg["strict"] and "Reference" not in repr(scn["config"]) + repr(dmg.get("config")):
                ctx.require(False, "accepted-but-different", f"{dmg['kind']}: the checkpoint against the model after a "
                            f"strict load: {diff}")
            ctx.probe("accepted")
    # afterwards a good checkpoint restores everything
    state = Job.read(blob)
    engine.seed_all(core.derive(scn["seed"], "good"), engine.MODE_STREAM)
    kept = copied(comparable(state["model"]))
    jobs = [job]
    if scn["twice"]:
        jobs.append(Job(scn, core.derive(scn["seed"], "third")))
        jobs[1].build_optimizer()
    for j in jobs:
        try:
            j.model.load_state_dict(state["model"], load_rpu_config=True)
            j.opt.load_state_dict(copy.deepcopy(state["opt"]))
        except Exception as exc:  # pylint: disable=broad-except
            ctx.require(False, "not-recoverable", f"the good checkpoint is refused after the damaged ones: "
                        f"{type(exc).__name__} {str(exc)[:400]}")
        j.lr = state["lr"]
    for n, j in enumerate(jobs):
        diff = core.first_difference(expected[scn["save"]][1], j.observe(), tol=TOL)
        if diff is not None and clipped_by_loading(scn, expected[scn["save"]][1], j.observe()):
            ctx.probe("reference-state-clipped")
            if pending is not None:
                raise pending
            return
        ctx.require(diff is None, "not-recoverable", lambda: f"after the damaged checkpoints, the good one gives: {diff}")
    for i in range(scn["save"] + 1, len(ops)):
        for n, j in enumerate(jobs):
            res = act(j, i, ops[i])
            ctx.step()
            diff = core.first_difference(expected[i][0], res, tol=TOL) or \
                core.first_difference(expected[i][1], j.observe(), tol=TOL)
            ctx.require(diff is None, "not-recoverable" if not n else "models-share-state", lambda: f"operation {i} "
                        f"{ops[i]} after recovery (model {n}), expected against actual: {diff}")
            ctx.state(expected[i][1])
    diff = core.first_difference(kept, comparable(state["model"]), tol=TOL)
    ctx.require(diff is None, "checkpoint-modified", lambda: "using the models changed the checkpoint they were loaded "
                f"from: {diff}")
    if pending is not None:
        raise pending


def snapshot(job):
    from sim.train import copied
    out = {}
    for name, tile in job.tiles():
        w, b = tile.get_weights(apply_weight_scaling=False)
        out[name] = copied({"w": w, "hidden": dict(tile.get_hidden_parameters())})
        if not tile.digital_bias:
            out[name]["b"] = b
    return out
