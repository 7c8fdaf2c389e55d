"""C08: resistive devices stay what they are: within their bounds, with their own parameters, moved by pulses only, and combined as documented."""
from sim import core, engine, zoo

PID = "C08"
CONSTANT = ("max_bound", "min_bound", "dwmin_", "decay_scales", "diffusion_rates", "reset_bias", "drift_nu", "slope_", "gamma_", "reference")
PULSED = ["single", "single", "vector", "reference", "onesided", "transfer", "buffered", "chopped", "dynamic"]
STEPS = ["ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "SoftBoundsReferenceDevice", "ExpStepDevice", "PowStepDevice",
         "PowStepReferenceDevice", "PiecewiseStepDevice", "SoftBoundsPmaxDevice"]


def gen(rng, tier, index):
    if index % 5 < 3:
        return gen_history(rng, tier, index)
    return gen_pulses(rng, tier)


def gen_history(rng, tier, index):
    fam = zoo.TRAINING[index % len(zoo.TRAINING)]
    # (mixed precision makes as many pulses as the step needs: a run that diverges takes for ever)
    scn = {"mode": "history", "seed": rng.getrandbits(32), "family": fam, "config": zoo.gen_config(rng, fam), "model": zoo.gen_model(rng, fam),
           "opt": zoo.pick(rng, "sgd", "sgdm", "adam"), "lr": zoo.pick(rng, 0.05, 0.2, 1.0 if fam != "mixed" else 0.1), "regroup": rng.random() < 0.3}
    device = scn["config"]["f"]["device"]
    if fam in ("chopped", "dynamic", "transfer", "buffered") and rng.random() < 0.5:
        device["f"]["gamma"] = zoo.pick(rng, 0.1, 0.5)
    ops = []
    for _ in range(rng.randrange(3, 9 if tier == "quick" else 24)):
        r = rng.random()
        if r < 0.4:
            ops.append({"op": "train", "n": rng.randrange(1, 4), "scale": zoo.pick(rng, 1.0, 4.0, 20.0 if fam != "mixed" else 2.0)})
            if ops[-1]["scale"] == 20.0:
                ops[-1]["n"] = 1
        elif r < 0.5:
            ops.append({"op": "setw", "amp": zoo.pick(rng, 0.3, 1.0, 4.0)})
        elif r < 0.75:
            ops.append({"op": zoo.pick(rng, "drift", "decay", "diffuse", "reset"), "t": zoo.pick(rng, 1.0, 100.0),
                        "p": zoo.pick(rng, 1.0, 0.5)})
        elif r < 0.85:
            ops.append({"op": "copy", "how": zoo.pick(rng, "deepcopy", "pickle", "restart")})
        elif r < 0.9:
            ops.append({"op": "tick"})
        elif r < 0.95:
            ops.append({"op": "remap", "omega": zoo.pick(rng, 0.3, 1.0)})
        else:
            ops.append({"op": "same"})
    if "Reference" in repr(scn["config"]):
        # these have their bounds at two places, see the findings of C01 and C02
        ops = [op for op in ops if op["op"] not in ("copy", "same")]
    scn["ops"] = ops
    return scn


def gen_pulses(rng, tier):
    fam = zoo.pick(rng, *PULSED)
    while True:
        config = zoo.gen_config(rng, fam)
        device = config["f"]["device"]
        devices = [device] if fam == "single" else device["f"]["unit_cell_devices"]
        if all(d["cls"] in STEPS for d in devices):
            break
    for d in devices:
        if rng.random() < 0.3:
            d["f"]["lifetime"] = zoo.pick(rng, 20.0, 100.0)
        if "Reference" in d["cls"]:
            d["f"].pop("corrupt_devices_prob", None)    # their bounds are at two places, see the findings of C01 and C02
    ops = []
    i, o = rng.randrange(1, 6), rng.randrange(1, 5)

    def vec(n):
        return [zoo.pick(rng, 0.0, 0.0, round(rng.uniform(-1, 1), 2), round(rng.uniform(-1, 1), 2), zoo.pick(rng, -1.0, 1.0)) for _ in range(n)]
    for _ in range(rng.randrange(3, 12 if tier == "quick" else 40)):
        r = rng.random()
        if r < 0.75:
            ops.append({"op": "pulse", "x": vec(i), "d": vec(o), "lr": zoo.pick(rng, 0.01, 0.1, 0.1, 1.0)})
            if rng.random() < 0.1:
                ops[-1]["amp"] = zoo.pick(rng, 1e3, 1e6, 1e9, 1e12)
        elif r < 0.81:
            ops.append({"op": "setw", "amp": zoo.pick(rng, 0.3, 1.0, 3.0), "s": rng.getrandbits(20)})
        elif r < 0.87:
            ops.append({"op": "decay", "alpha": zoo.pick(rng, 1.0, 0.5, 2.0)})
        elif r < 0.92:
            ops.append({"op": "reset"})
        else:
            ops.append({"op": "copy", "how": zoo.pick(rng, "deepcopy", "pickle", "same")})
    if any("Reference" in d["cls"] for d in devices):
        ops = [op for op in ops if op["op"] not in ("decay", "copy")]    # see there
    return {"mode": "pulses", "seed": rng.getrandbits(32), "family": fam, "config": config, "in": i, "out": o, "ops": ops}


def execute(scn, ctx):
    if scn["mode"] == "history":
        history(scn, ctx)
    else:
        pulses(scn, ctx)


# ---------------------------------------------------------------------------------------------------------------------
# what holds at any moment


def full(raw, shape):
    """Weights of a tile in the shape of its devices (an analog bias is their last column)."""
    import torch
    w, b = raw
    return torch.cat([w, b.view(-1, 1)], 1) if b is not None and w.shape[1] + 1 == shape[1] else w


def devices_of(device):
    """The device objects of a configuration, in the order of their suffixes (one without a suffix has None)."""
    if hasattr(device, "unit_cell_devices"):
        devices = device.unit_cell_devices
        if hasattr(device, "transfer_every"):
            devices = devices[:1] + [devices[1]] * (len(devices) - 1)    # documented: only the first may differ
        return [(f"_{k}", d) for k, d in enumerate(devices)]
    return [("", device)]


def combination(device):
    """Signs and factors of the hidden weights in the weight."""
    name = type(device).__name__
    n = len(device.unit_cell_devices)
    if name == "VectorUnitCell":
        return list(device.gamma_vec) or [1.0 / n] * n
    if name == "ReferenceUnitCell":
        return [1.0, -1.0]
    if name == "OneSidedUnitCell":
        return [-1.0, 1.0]
    if list(device.gamma_vec):
        return list(device.gamma_vec)
    return [device.gamma ** (n - 1 - k) for k in range(n)]


def physical(ctx, where, device, raw, hid, first):
    # pylint: disable=too-many-locals
    import torch
    if hasattr(device, "device"):
        device = device.device    # rank update: the weights are those of the device below
    sub = devices_of(device)
    if not any(k.startswith("max_bound") for k in hid):
        return
    shape = next(v for k, v in hid.items() if k.startswith("max_bound")).shape
    w = full(raw, shape)
    for key, val in hid.items():
        ctx.require(bool(torch.isfinite(val).all()), "not-finite", lambda: f"{where}: {key} = {val.tolist()}")
        if key.startswith(CONSTANT) and first is not None:
            ctx.require(bool((val == first[key]).all()), "device-identity", lambda: f"{where}: the device parameter {key} was "
                        f"{first[key].tolist()} and is {val.tolist()}")
    ctx.require(bool(torch.isfinite(w).all()), "not-finite", lambda: f"{where}: weights {w.tolist()}")
    for suffix, dev in sub:
        hi, lo = hid["max_bound" + suffix], hid["min_bound" + suffix]
        state = hid.get("persistent_weights" + suffix)
        if state is None:
            if "write_noise_std" in vars(dev) and dev.write_noise_std > 0.0:
                continue
            state = hid["hidden_weights" + suffix] if suffix else w
        ref = hid.get("reference" + suffix)
        slack = 1e-6
        if ref is not None:
            # these have their bounds at two places, see the findings of C01 and C02
            hi, lo = torch.maximum(hi, hi - ref), torch.minimum(lo, lo - ref)
        ctx.require(bool(((state <= hi + slack) & (state >= lo - slack)).all()), "beyond-bounds", lambda: f"{where}: {type(dev).__name__} "
                    f"{suffix} at {state.tolist()}, bounds {lo.tolist()} to {hi.tolist()}")
    if len(sub) > 1:
        factors = combination(device)
        parts = [hid[f"hidden_weights_{k}"] for k in range(len(sub))]
        chopped = type(device).__name__ in ("ChoppedTransferCompound", "DynamicTransferCompound")
        if chopped and factors[0] != 0.0:
            rest = w - sum(f * p for f, p in zip(factors[1:], parts[1:]))
            choppers(ctx, where, rest, factors[0] * parts[0], device)
            return
        total = sum(f * p for f, p in zip(factors, parts))
        ctx.require(bool(((w - total).abs() <= 1e-5 * (1.0 + total.abs())).all()), "not-the-combination", lambda: f"{where}: "
                    f"{type(device).__name__} reports {w.tolist()}, its devices give {total.tolist()} (factors {factors})")


def choppers(ctx, where, rest, fast, device):
    """The contribution of a chopped fast device has the signs of the choppers of its row and its column."""
    signs = {}
    for i in range(fast.shape[0]):
        for j in range(fast.shape[1]):
            a, r = float(fast[i, j]), float(rest[i, j])
            ctx.require(abs(abs(a) - abs(r)) <= 1e-5 * (1 + abs(a)), "not-the-combination", lambda: f"{where}: at {i},{j} the fast device "
                        f"contributes {r} instead of +-{a}")
            if abs(a) > 1e-3:
                signs[i, j] = 1 if a * r > 0 else -1
    if device.in_chop_prob == 0.0 and device.out_chop_prob == 0.0 and type(device).__name__ == "ChoppedTransferCompound":
        ctx.require(all(s == 1 for s in signs.values()), "chopper-signs", lambda: f"{where}: signs without choppers: {signs}")
    if device.out_chop_prob == 0.0:
        for k in range(fast.shape[1] if device.transfer_columns else fast.shape[0]):
            same = {s for (i, j), s in signs.items() if (j if device.transfer_columns else i) == k}
            ctx.require(len(same) < 2, "chopper-signs", lambda: f"{where}: different signs at the chopper {k}: {signs}")
    # signs of rows and columns which explain all: spread them over the cross points
    rows, cols, todo = {}, {}, dict(signs)
    while todo:
        for (i, j), s in list(todo.items()):
            if i in rows or j in cols:
                del todo[i, j]
                row = rows.setdefault(i, s * cols.get(j, 1))
                col = cols.setdefault(j, s * row)
                ctx.require(row * col == s, "chopper-signs", lambda: f"{where}: no choppers of rows and columns give these signs: {signs}")
                break
        else:
            rows[next(iter(todo))[0]] = 1


def history(scn, ctx):
    import copy
    import pickle
    from sim.train import Job, copied, restore
    job = Job(scn, core.derive(scn["seed"], "construct"))
    job.build_optimizer()
    first = {}

    def observe(where):
        obs = {}
        for name, tile in job.tiles():
            hid = copied(dict(tile.get_hidden_parameters()))
            raw = copied(tile.get_weights(apply_weight_scaling=False))
            physical(ctx, f"{where}, tile {name}", tile.rpu_config.device, raw, hid, first.get(name))
            first.setdefault(name, hid)
            obs[name] = [raw, hid]
        ctx.state(obs)
        return obs
    before = observe("after construction")
    for i, op in enumerate(scn["ops"]):
        ctx.step()
        if op["op"] == "copy":
            engine.seed_all(core.derive(scn["seed"], "op", i), engine.MODE_STREAM)
            ctx.fault(op["how"])
            if op["how"] == "restart":
                job = restore(scn, job.save(), core.derive(scn["seed"], "again", i), "model-first", None)
            else:
                new = Job.__new__(Job)
                new.scn, new.lr = scn, job.lr
                new.model = copy.deepcopy(job.model) if op["how"] == "deepcopy" else pickle.loads(pickle.dumps(job.model))
                new.build_optimizer()
                job = new
        elif op["op"] == "same":
            for _, tile in job.tiles():
                tile.set_hidden_parameters(tile.get_hidden_parameters())
        else:
            try:
                job.apply(i, op)
            except (RuntimeError, ValueError) as exc:
                ctx.probe("refused-" + type(exc).__name__)
        ctx.probe("op-" + op["op"])
        after = observe(f"after operation {i} {op}")
        if op["op"] == "same":
            diff = core.first_difference(before, after, tol=1e-6)
            ctx.require(diff is None, "device-identity", lambda: f"operation {i}: setting the hidden parameters a tile has: {diff}")
        before = after
        seen = [v for _, hid in before.values() for v in hid.values()]
        seen += [t.get_scales() for _, t in job.tiles() if t.get_scales() is not None]
        if any(float(v.detach().abs().max()) > 1e6 for v in seen if v.numel()):
            ctx.probe("diverged")    # nothing is said about what is computed from then on
            return


# ---------------------------------------------------------------------------------------------------------------------
# what a pulse does


def pulse(name, dev, par, w, up):
    """One pulse on all cross points, float32 as the devices (numpy arrays)."""
    # pylint: disable=too-many-return-statements
    import numpy as np
    f = np.float32
    hi, lo = par["max_bound"], par["min_bound"]
    s_up, s_down = par["dwmin_up"], par["dwmin_down"]
    if "reference" in par:
        w = w + par["reference"]
        if name == "PowStepReferenceDevice":
            w = np.minimum(np.maximum(w, lo), hi)    # can be set beyond, and powers are of what is left to the bounds
    width = hi - lo
    safe = np.where(width > 0, width, f(1))
    with np.errstate(all="ignore"):
        if name == "ConstantStepDevice":
            new = w + s_up if up else w - s_down
        elif name in ("LinearStepDevice", "SoftBoundsDevice", "SoftBoundsPmaxDevice"):
            new = w + (par["slope_up"] * w + s_up) if up else w - (par["slope_down"] * w + s_down)
        elif name == "SoftBoundsReferenceDevice":
            if up:
                new = w + s_up * (1 - np.where(hi > 0, w / np.where(hi > 0, hi, f(1)), f(0)))
            else:
                new = w - s_down * (1 - np.where(lo < 0, w / np.where(lo < 0, lo, f(-1)), f(0)))
        elif name in ("PowStepDevice", "PowStepReferenceDevice"):
            new = w + s_up * ((hi - w) / safe) ** par["gamma_up"] if up else w - s_down * ((w - lo) / safe) ** par["gamma_down"]
        elif name == "ExpStepDevice":
            z = 2 * w / safe * f(dev.a) + f(dev.b)
            if up:
                new = w + np.maximum(1 - f(dev.A_up) * np.exp(f(dev.gamma_up) * z), f(0)) * s_up
            else:
                new = w - np.maximum(1 - f(dev.A_down) * np.exp(f(dev.gamma_down) * -z), f(0)) * s_down
        elif name == "PiecewiseStepDevice":
            nodes = np.array(dev.piecewise_up if up else dev.piecewise_down, dtype=f)
            pos = np.clip((w - lo) / safe, 0, 1)
            factor = np.interp(pos, np.linspace(0, 1, len(nodes)), nodes).astype(f)
            new = w + factor * s_up if up else w - factor * s_down
        else:
            raise ValueError(name)
    new = np.minimum(np.maximum(new, lo), hi)
    if name in ("PowStepDevice", "PowStepReferenceDevice", "ExpStepDevice"):
        new = np.where(width > 0, new, w)
    if "reference" in par:
        new = new - par["reference"]
    return new.astype(f)


def decayed(par, w, dev, alpha=1.0):
    import numpy as np
    if not dev.lifetime > 0.0:
        return w
    b = par["reset_bias"]
    return np.minimum(np.maximum((w - b) * (1 + alpha * (par["decay_scales"] - 1)) + b, par["min_bound"]), par["max_bound"])


class Devices:
    """What is seen of the devices of a tile."""

    def __init__(self, tile):
        self.device = tile.rpu_config.device
        self.subs = devices_of(self.device)
        self.hid = {k: v.detach().clone() for k, v in tile.get_hidden_parameters().items()}
        shape = self.hid["max_bound" + self.subs[0][0]].shape
        self.raw = [None if t is None else t.detach().clone() for t in tile.get_weights(apply_weight_scaling=False)]
        w = full(self.raw, shape).detach().clone()
        self.state, self.par = [], []
        for suffix, _ in self.subs:
            self.state.append((self.hid["hidden_weights" + suffix] if suffix else w).numpy())
            self.par.append({k[:len(k) - len(suffix)]: v.numpy() for k, v in self.hid.items() if k.endswith(suffix) and
                             (not suffix or not k.startswith(("hidden", "buffered", "running", "past")))})


def quiet(cfg):
    """A configuration without noise in what the pulses do, and without other ways to move the devices."""
    device = cfg.device
    for d in getattr(device, "unit_cell_devices", [device]):
        d.dw_min_std = d.reset_std = 0.0
        for name in ("diffusion", "write_noise_std"):
            if hasattr(d, name):
                setattr(d, name, 0.0)
    for name, value in (("refresh_every", 0), ("with_reset_prob", 0.0)):
        if hasattr(device, name):
            setattr(device, name, value)
    cfg.mapping.learn_out_scaling = False
    if hasattr(cfg, "pre_post"):
        cfg.pre_post.input_range.enable = False
    return cfg


def pulses(scn, ctx):
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    import copy
    import pickle
    import numpy as np
    import torch
    from aihwkit.nn import AnalogLinear
    from aihwkit.optim import AnalogSGD
    engine.seed_all(core.derive(scn["seed"], "construct"), engine.MODE_SEEDED)
    cfg = quiet(zoo.build_config(scn["config"]))
    layer = AnalogLinear(scn["in"], scn["out"], bias=not cfg.mapping.digital_bias, rpu_config=cfg)
    fam, device = scn["family"], cfg.device
    policy = None
    if fam == "vector":
        policy = device.update_policy.name
    turn = None
    tile = next(layer.analog_tiles())
    start = before = Devices(tile)
    for i, op in enumerate(scn["ops"]):
        engine.seed_all(core.derive(scn["seed"], "op", i), engine.MODE_STREAM)
        ctx.step()
        where = f"operation {i} {op}"
        if op["op"] == "pulse":
            opt = AnalogSGD(layer.parameters(), lr=op["lr"])
            y = layer(torch.tensor([op["x"]]))
            (y * torch.tensor([op["d"]]) * op.get("amp", 1.0)).sum().backward()
            opt.step()
        elif op["op"] == "setw":
            gen_ = torch.Generator().manual_seed(op["s"])
            tile.set_weights((torch.rand(scn["out"], scn["in"], generator=gen_) - 0.5) * op["amp"],
                             (torch.rand(scn["out"], generator=gen_) - 0.5) * op["amp"] if layer.bias is not None or before.raw[1] is not None
                             else None)
            turn = None
        elif op["op"] == "decay":
            tile.decay_weights(op.get("alpha", 1.0))
        elif op["op"] == "reset":
            tile.reset()
        elif op["how"] == "same":
            tile.set_hidden_parameters(tile.get_hidden_parameters())
        else:
            layer = copy.deepcopy(layer) if op["how"] == "deepcopy" else pickle.loads(pickle.dumps(layer))
            tile = next(layer.analog_tiles())
            ctx.fault(op["how"])
        ctx.probe("op-" + op["op"])
        after = Devices(tile)
        physical(ctx, where, device, after.raw, after.hid, start.hid)
        ctx.state([after.raw, after.hid])
        changed = []
        for k, (suffix, dev) in enumerate(after.subs):
            name, par = type(dev).__name__, after.par[k]
            old, new = before.state[k], after.state[k]
            label = f"{where}: {fam} device {k} ({name})"
            if op["op"] == "decay":
                want = decayed(par, old, dev, np.float32(op.get("alpha", 1.0)))
                ctx.require(np.allclose(new, want, atol=2e-6), "decay", lambda: f"{label}: {old.tolist()} decayed to {new.tolist()} instead "
                            f"of {want.tolist()}")
            elif op["op"] == "reset" and (k == 0 or "transfer_every" not in vars(device)):
                want = np.minimum(np.maximum(par["reset_bias"], par["min_bound"]), par["max_bound"])
                ctx.require(np.allclose(new, want, atol=2e-6), "reset", lambda: f"{label}: reset to {new.tolist()} instead of {want.tolist()}")
            elif op["op"] == "copy":
                ctx.require(bool((old == new).all()) if op["how"] != "same" else np.allclose(old, new, atol=1e-6), "copy", lambda: f"{label}: "
                            f"{old.tolist()} became {new.tolist()}")
            elif op["op"] == "pulse":
                moved = one_device(scn, ctx, label, op, k, before, after)
                if moved:
                    changed.append(k)
        if op["op"] == "pulse" and policy not in (None, "ALL"):
            ctx.require(len(changed) <= 1, "update-policy", lambda: f"{where}: devices {changed} moved under {policy}")
            if policy == "SINGLE_FIXED":
                ctx.require(changed in ([], [device.first_update_idx]), "update-policy", lambda: f"{where}: device {changed} moved under {policy}")
            elif policy == "SINGLE_SEQUENTIAL":
                n = len(after.subs)
                turn = None if turn is None else (turn + 1) % n
                ctx.require(not changed or turn in (None, changed[0]), "update-policy", lambda: f"{where}: device {changed} moved, it was "
                            f"the turn of {turn}")
                turn = changed[0] if changed else turn
        before = after


def one_device(scn, ctx, label, op, k, before, after):
    """A device's cross points moved by a number of whole pulses where input and error coincide. Returns whether it moved."""
    # pylint: disable=too-many-locals
    import numpy as np
    fam, device = scn["family"], after.device
    dev = after.subs[k][1]
    name, par = type(dev).__name__, after.par[k]
    old, new = before.state[k], after.state[k]
    x = np.array(op["x"] + ([1.0] if old.shape[1] == scn["in"] + 1 else []), dtype=np.float32)
    d = np.array(op["d"], dtype=np.float32)
    want = -np.sign(np.outer(d, x))
    after_decay = decayed(par, old, dev)
    if "transfer_every" in vars(device) and k > 0:
        return False    # moved by transfers: its bounds are checked
    if fam == "reference" and k == 1:
        ctx.require(np.allclose(new, after_decay, atol=2e-6), "moved-without-pulse", lambda: f"{label}: the reference went from {old.tolist()} to "
                    f"{new.tolist()}")
        return False
    if fam == "onesided":
        want = np.where(want == (1 if k == 1 else -1), 1.0, 0.0)
    up = scn["config"]["f"]["update"]["f"]
    limit = up.get("desired_bl", 31)
    ok = np.isclose(new, after_decay, atol=2e-6)
    still = (want == 0) & ~ok
    ctx.require(not still.any(), "moved-without-pulse", lambda: f"{label}: went from {old.tolist()} to {new.tolist()} where input and error "
                f"do not coincide, at {np.argwhere(still).tolist()}")
    moved = bool((~ok).any())
    if "reference" in par:
        ok |= np.isclose(new, par["max_bound"], atol=2e-6) | np.isclose(new, par["min_bound"], atol=2e-6)
    if scn["config"]["f"]["update"]["f"].get("pulse_type", "").endswith("NONE_WITH_DEVICE"):
        return moved    # documented: floating point as without a device, but within its bounds
    reached = {}
    for sign in (1, -1) if "in_chop_prob" in vars(device) else (1,):
        reached[sign] = ok.copy()
        for direction in (1, -1):
            cur = old.copy()
            part = sign * want == direction
            for n in range(limit):
                if reached[sign][part].all():
                    break
                cur = pulse(name, dev, par, cur, direction == 1)
                reached[sign] |= part & np.isclose(new, decayed(par, cur, dev), atol=2e-6 + 2e-7 * n)
    if len(reached) == 1:
        good = reached[1]
    elif device.out_chop_prob > 0.0:
        good = reached[1] | reached[-1]
    else:
        axis = 0 if device.transfer_columns else 1    # one chopper for each input line of the transfer
        good = np.broadcast_to(reached[1].all(axis, keepdims=True) | reached[-1].all(axis, keepdims=True), old.shape)
    ctx.require(good.all(), "not-a-pulse", lambda: f"{label}: went from {old.tolist()} to {new.tolist()} for input {x.tolist()} and error "
                f"{d.tolist()}, which is no number of pulses up to {limit} in the right direction at {np.argwhere(~good).tolist()}; "
                f"parameters { {n: v.tolist() for n, v in par.items()} }")
    return moved
