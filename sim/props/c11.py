"""C11: hardware-aware training modifies, clips and remaps exactly what it says, and evaluation never sees it."""
import dataclasses

from sim import core, engine, zoo

PID = "C11"
TOL = 3e-5
CPP = ["DISCRETIZE", "DISCRETIZE", "MULT_NORMAL", "ADD_NORMAL", "ADD_NORMAL", "DISCRETIZE_ADD_NORMAL", "DOREFA", "POLY", "PROG_NOISE",
       "COPY", "DROP_CONNECT", "NONE"]
TORCH = ["DISCRETIZE", "MULT_NORMAL", "ADD_NORMAL", "ADD_NORMAL", "COPY", "NONE"]


class Boom(Exception):
    """An error of the user's program in the middle of a training step."""


def gen_modifier(rng, torchlike):
    typ = zoo.pick(rng, *(TORCH if torchlike else CPP))
    f = {"type": f"WeightModifierType.{typ}", "std_dev": zoo.pick(rng, 0.03, 0.2), "res": zoo.pick(rng, 0.03, 0.11, 0.25),
         "rel_to_actual_wmax": rng.random() < 0.6, "assumed_wmax": zoo.pick(rng, 1.0, 0.6)}
    if typ.startswith("DISCRETIZE") or typ == "DOREFA":
        f["sto_round"] = rng.random() < 0.3
    if typ in ("POLY", "PROG_NOISE"):
        f["coeffs"] = [0.3, 0.5, -0.2]
        f["g_max"] = 4.0
    if torchlike:
        if typ in ("ADD_NORMAL", "MULT_NORMAL") and rng.random() < 0.3:
            f["per_batch_sample"] = True
    else:
        if typ in ("COPY", "DROP_CONNECT") or rng.random() < 0.15:
            f["pdrop"] = 0.3
        if rng.random() < 0.2:
            f["copy_last_column"] = True
        if rng.random() < 0.12:
            f["enable_during_test"] = True
    return f


def gen_clip(rng, torchlike):
    typ = zoo.pick(rng, "NONE", "NONE", "FIXED_VALUE", "LAYER_GAUSSIAN", "LAYER_GAUSSIAN", *([] if torchlike else ["AVERAGE_CHANNEL_MAX"]))
    f = {"type": f"WeightClipType.{typ}", "sigma": zoo.pick(rng, 0.8, 1.5)}
    if typ == "FIXED_VALUE" or rng.random() < 0.4:
        f["fixed_value"] = zoo.pick(rng, 0.25, 0.5)
    return f


def gen_remap(rng, torchlike):
    typ = zoo.pick(rng, "NONE", "NONE", "LAYERWISE_SYMMETRIC", "CHANNELWISE_SYMMETRIC")
    f = {"type": f"WeightRemapType.{typ}"}
    if not torchlike and rng.random() < 0.3:
        f["remapped_wmax"] = 0.7
    return f


def gen(rng, tier, index):
    layers = []
    for _ in range(zoo.pick(rng, 1, 1, 2)):
        torchlike = (index + len(layers)) % 2 == 1
        mapping = zoo.gen_mapping(rng, True)
        if torchlike:
            mapping["f"].pop("digital_bias", None)
        layers.append({"in": rng.randrange(1, 7), "out": rng.randrange(1, 6), "bias": rng.random() < 0.6, "torch": torchlike,
                       "mapping": mapping, "modifier": gen_modifier(rng, torchlike), "clip": gen_clip(rng, torchlike),
                       "remap": gen_remap(rng, torchlike), "fly": rng.random() < 0.4, "zero": zoo.pick(rng, None, None, None, "row", "all",
                                                                                                       "one", "same")})
    ops = []
    for _ in range(rng.randrange(3, 10 if tier == "quick" else 30)):
        r = rng.random()
        m = rng.randrange(len(layers))
        if r < 0.55:
            ops.append({"op": "batch", "use": [rng.random() < 0.8 for _ in layers], "n": rng.randrange(1, 4), "lr": zoo.pick(
                rng, 0.0, 0.02, 0.1, 0.1), "end": zoo.pick(rng, "step", "step", "step", "step", "closure", "skip", "boom-forward", "boom-backward",
                                                           "accumulate")})
        elif r < 0.67:
            ops.append({"op": "eval", "train": rng.random() < 0.3})
        elif r < 0.74:
            ops.append({"op": "probe", "m": m})
        elif r < 0.80:
            ops.append({"op": "setw", "m": m, "s": rng.getrandbits(16), "zero": zoo.pick(rng, None, None, "row", "all")})
        elif r < 0.86:
            ops.append({"op": "drift", "m": m, "t": zoo.pick(rng, 1.0, 1e5)})
        elif r < 0.93:
            ops.append({"op": "change", "m": m, "what": zoo.pick(rng, "modifier", "modifier", "clip", "remap"), "seed": rng.getrandbits(16)})
        else:
            ops.append({"op": "copy", "how": zoo.pick(rng, "deepcopy", "pickle", "restart")})
    return {"seed": rng.getrandbits(32), "layers": layers, "ops": ops}


def make_config(spec):
    f = {"forward": {"f": {"is_perfect": True}}, "backward": {"f": {"is_perfect": True}}, "mapping": spec.get("mapping", {"f": {}}),
         "drift_compensation": None, "noise_model": {"cls": "PCMLikeNoiseModel", "f": {"g_max": 25.0}}}
    for key in ("modifier", "clip", "remap"):
        if spec.get(key):
            f[key] = {"f": spec[key]}
    if spec.get("fly"):
        f["runtime"] = {"f": {"on_the_fly_bindings": True}}
    return zoo.build_config({"cls": "TorchInferenceRPUConfig" if spec.get("torch") else "InferenceRPUConfig", "f": f})


def emptied(w, zero):
    if zero == "row":
        w[0] = 0.0
    elif zero == "all":
        w[:] = 0.0
    elif zero == "one":
        w[:] = 0.0
        w[-1, 0] = 0.4
    elif zero == "same":
        w[:] = 0.3
    return w


class Layer:
    """One layer of the system with what is known about it."""

    def __init__(self, spec, module):
        self.spec, self.module = spec, module
        self.fb = None              # the modified weights in use, None: the weights themselves
        self.fb_sure = True
        self.unread = False         # whether the modified weights could not be read yet
        self.tested = False         # whether the evaluation uses them, too
        self.last_noise = None
        self.z = {}                 # normalised deviations by hypothesis

    @property
    def tile(self):
        return next(t for n, t in self.module.named_analog_tiles())

    def get(self, what, key, default=None):
        cfg = getattr(self.tile.rpu_config, what)
        return getattr(cfg, key, default)

    def raw(self):
        """The weights on the crossbar, with the analog bias as a last column, and the digital bias."""
        import torch
        w, b = self.tile.get_weights(apply_weight_scaling=False)
        w = w.double()
        if self.tile.analog_bias:
            return torch.cat([w, b.double().view(-1, 1)], 1), torch.zeros(w.shape[0], dtype=torch.float64)
        return w, torch.zeros(w.shape[0], dtype=torch.float64) if b is None else b.double()

    def scale(self, what="all"):
        import torch
        get = {"all": self.tile.get_scales, "map": self.tile.get_mapping_scales, "learned": self.tile.get_learned_out_scales}[what]
        s = get()
        n = self.spec["out"]
        return torch.ones(n, dtype=torch.float64) if s is None else (s.detach().double().view(-1) * torch.ones(n, dtype=torch.float64))

    def seen(self, w, x):
        """The output for inputs with weights w."""
        import torch
        _, b = self.raw()
        x = x.double()
        if self.tile.analog_bias:
            x = torch.cat([x, torch.ones(x.shape[0], 1, dtype=torch.float64)], 1)
        return (x @ w.T) * self.scale() + b

    def fuzz(self):
        """How well weights can be read out of outputs in single precision (the bias is added to them)."""
        _, b = self.raw()
        return 1e-6 * (1.0 + float(b.abs().max())) / max(float(self.scale().abs().min()), 1e-12)

    def read(self):
        """The weights a forward pass in the present mode uses (perfect forward)."""
        import torch
        n = self.spec["in"]
        x = torch.cat([torch.zeros(1, n), torch.eye(n)])
        with torch.no_grad():
            y = self.module(x).double()
        _, b = self.raw()
        w = ((y[1:] - y[:1]) / self.scale()).T
        if self.tile.analog_bias:
            w = torch.cat([w, ((y[0] - b) / self.scale()).view(-1, 1)], 1)
        return w


def clipped(layer, w):
    """What the configured clipping makes of weights."""
    typ = layer.get("clip", "type").name
    fixed, sigma = layer.get("clip", "fixed_value"), layer.get("clip", "sigma")
    if typ == "NONE":
        return w
    if typ == "FIXED_VALUE":
        return w.clamp(-fixed, fixed) if fixed >= 0 else w
    if typ == "LAYER_GAUSSIAN":
        # (a single weight has no spread)
        alpha = float(w.std()) * sigma if w.numel() > 1 else float("inf")
    else:
        alpha = float(w.abs().max(1)[0].mean())
    if fixed > 0:
        alpha = min(alpha, fixed)
    return w.clamp(-alpha, alpha) if alpha > 0 else w


def remapped(layer, w, s):
    """Weights and scales after remapping."""
    import torch
    typ = layer.get("remap", "type").name
    if typ == "NONE":
        return w, s
    if layer.tile.__class__.__name__.startswith("Torch"):
        w = w * s.view(-1, 1)
        s = torch.ones_like(s)
    m = w.abs().max() * torch.ones_like(s) if typ == "LAYERWISE_SYMMETRIC" else w.abs().max(1)[0]
    m = m / layer.get("remap", "remapped_wmax")
    m = torch.where(m > 0, m, torch.ones_like(m))
    return w / m.view(-1, 1), s * m


def close(ctx, a, b, kind, where, tol=TOL):
    diff = core.first_difference(a, b, tol=tol)
    ctx.require(diff is None, kind, lambda: f"{where}: {diff}")


def check_modified(ctx, layer, w, fb, where):
    """Whether fb is a modification of w as configured."""
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    import torch
    typ = layer.get("modifier", "type").name
    pdrop = layer.get("modifier", "pdrop")
    torchlike = layer.spec.get("torch")
    ctx.require(bool(torch.isfinite(fb).all()), "modified-not-finite", lambda: f"{where}: {typ} makes {fb.tolist()} of {w.tolist()}")
    w, fb = w.clone(), fb.clone()
    if not torchlike and layer.get("modifier", "copy_last_column") and typ != "NONE":
        close(ctx, w[:, -1], fb[:, -1], "last-column-modified", where)
        w, fb = w[:, :-1], fb[:, :-1]
        if w.numel() == 0:
            return
    std, res, stoch = layer.get("modifier", "std_dev"), layer.get("modifier", "res"), layer.get("modifier", "sto_round")
    amax = layer.get("modifier", "assumed_wmax")
    if layer.get("modifier", "rel_to_actual_wmax"):
        amax = float(w.abs().max())
        amax = amax if amax > 0 or torchlike else 1.0
    dev = fb - w
    eps = 2e-5 * (1.0 + float(w.abs().max())) + layer.fuzz()
    fine = res * amax > 100 * eps
    dropped = (fb == 0.0) if pdrop > 0 and typ != "NONE" else torch.zeros_like(fb, dtype=torch.bool)
    bound, sigma = torch.zeros_like(w), None
    if typ == "DISCRETIZE":
        bound += res * amax * (2.0 if stoch else 1.0)
        grid = fb / (res * amax) if amax > 0 else fb
        ctx.require(not fine or bool(((grid - grid.round()).abs() < 1e-2).all()), "not-discrete", lambda: f"{where}: {fb.tolist()} for a resolution of {res} "
                    f"of {amax}")
    elif typ == "ADD_NORMAL":
        sigma = torch.full_like(w, std * amax)
    elif typ == "MULT_NORMAL":
        sigma = std * w.abs()
        if not torchlike:
            sigma = sigma * amax
    elif typ == "DISCRETIZE_ADD_NORMAL":
        bound += res * amax * (2.0 if stoch else 1.0) + 7 * std * amax
    elif typ in ("POLY", "PROG_NOISE"):
        a = w.abs() / amax
        c = layer.get("modifier", "coeffs")
        sigma = (amax * std * (c[0] + c[1] * a + c[2] * a * a)).abs()
        if typ == "PROG_NOISE":
            sigma = sigma / layer.get("modifier", "g_max")
            keeps = torch.where(w < 0, fb <= 0, fb >= 0)
            ctx.require(bool(keeps.all()), "sign-changed", lambda: f"{where}: {fb.tolist()} of {w.tolist()}")
            bound, sigma = 7 * sigma, None      # (folded at zero)
    elif typ == "DOREFA":
        ideal = torch.tanh(w) * abs(layer.get("modifier", "dorefa_clip") / torch.tanh(torch.tensor(amax, dtype=torch.float64)))
        dev = fb - ideal
        bound += res * (1.0 if stoch else 0.5)
        grid = fb / res
        ctx.require(not fine or bool(((grid - grid.round()).abs() < 1e-2).all()), "not-discrete", lambda: f"{where}: {fb.tolist()} for a resolution of {res}")
    if sigma is not None:
        bound = 7 * sigma
        ok = (sigma > 1e-4) & (sigma > 50 * eps) & ~dropped
        layer.z.setdefault(typ, []).extend((dev[ok] / sigma[ok]).tolist())
    bad = (dev.abs() > bound + eps) & ~dropped
    ctx.require(not bool(bad.any()), "wrong-modification", lambda: f"{where}: {typ} makes {fb.tolist()} of {w.tolist()} (at most {bound.tolist()} "
                "apart)")
    if pdrop > 0 and typ != "NONE":
        hard = (w.abs() > 1e-3) & (bound < w.abs())     # (zero only if dropped)
        layer.z.setdefault(f"drop {pdrop}", []).extend(dropped[hard].double().tolist())
    noise = dev[(sigma > 1e-4) & (sigma > 50 * eps)] if sigma is not None else None
    if noise is not None and noise.numel() and not bool(dropped.any()):
        ctx.require(layer.last_noise is None or layer.last_noise.shape != noise.shape or not torch.equal(layer.last_noise, noise),
                    "noise-not-fresh", where)
        ctx.require(bool((noise != 0).any()), "not-modified", lambda: f"{where}: {typ} leaves {w.tolist()}")
        layer.last_noise = noise


def statistics(ctx, layer, where):
    for typ, z in layer.z.items():
        n = len(z)
        if n < 60:
            continue
        mean = sum(z) / n
        if typ.startswith("drop"):
            p = float(typ.split()[1])
            ctx.require(abs(mean - p) < 8 * (p * (1 - p) / n) ** 0.5, "wrong-drop-rate", lambda: f"{where}: {mean} of {n} dropped instead of {p}")
            continue
        var = sum(v * v for v in z) / n
        ctx.require(abs(mean) < 8 / n ** 0.5 and abs(var - 1) < 8 * (2 / n) ** 0.5 + 0.02, "wrong-noise-strength",
                    lambda: f"{where}: {typ} has mean {mean} and variance {var} of {n} normalised deviations")


def modifies(layer):
    typ = layer.get("modifier", "type").name
    return typ != "NONE" and not (typ == "COPY" and layer.get("modifier", "pdrop") <= 0)


def observe_training(ctx, layer, where, stepped=False):
    """The weights of the training mode, checked against what is known."""
    layer.module.train()
    w, _ = layer.raw()
    got = layer.read()
    fuzz = layer.fuzz()
    if stepped:
        layer.tested = modifies(layer) and layer.get("modifier", "enable_during_test")
    if fuzz > 1e-3:
        ctx.probe("unreadable")
        if stepped:
            layer.fb, layer.fb_sure, layer.unread = None, True, modifies(layer)
        return
    if layer.spec.get("torch"):
        if layer.get("modifier", "per_batch_sample"):
            return      # (each of the inputs of the read-out has weights of its own)
        check_modified(ctx, layer, w, got, where)
        return
    if stepped:
        if modifies(layer):
            check_modified(ctx, layer, w, got, where)
            layer.fb = got
        else:
            close(ctx, got, w, "not-the-weights", f"{where}: the next mini-batch, which is not modified, uses", TOL + fuzz)
            layer.fb = None
        layer.fb_sure, layer.unread = True, False
        return
    if layer.unread:
        layer.fb, layer.fb_sure, layer.unread = got, False, False
    want = w if layer.fb is None else layer.fb
    if layer.fb is not None and not layer.fb_sure and core.first_difference(got, w, tol=TOL + fuzz) is None:
        return
    close(ctx, got, want, "modified-between-steps", f"{where}: the training forward pass uses", TOL + fuzz)


def observe_eval(ctx, layer, where):
    layer.module.eval()
    w, _ = layer.raw()
    got = layer.read()
    fuzz = layer.fuzz()
    if fuzz > 1e-3 or layer.unread:
        return
    keep = not layer.spec.get("torch") and layer.fb is not None and layer.tested
    if keep and not layer.fb_sure and core.first_difference(got, w, tol=TOL + fuzz) is None:
        return
    close(ctx, got, layer.fb if keep else w, "evaluation-modified", f"{where}: the evaluation uses", TOL + fuzz)


def build(scn):
    import torch
    from aihwkit import nn as an
    layers = []
    for k, spec in enumerate(scn["layers"]):
        engine.seed_all(core.derive(scn["seed"], "build", k), engine.MODE_SEEDED)
        mod = an.AnalogLinear(spec["in"], spec["out"], bias=spec["bias"], rpu_config=make_config(spec))
        w, b = mod.get_weights()
        if spec.get("zero"):
            w = emptied(w.clone(), spec["zero"])
            if b is not None and spec["zero"] == "all":
                b = b * 0.0
            mod.set_weights(w, b)
        layers.append(mod)
    return torch.nn.ModuleList(layers)


def optimizer(net, lr):
    from aihwkit.optim import AnalogSGD
    return AnalogSGD(net.parameters(), lr=lr)


def predict(ctx, layer, before, grads, lr):
    """Weights, scales and bias after a step, given the state before and the accumulated gradients."""
    w, smap, alpha, b = before
    gw, gb, galpha = grads
    if gw is not None and lr:
        # (the gradient acts on the weights times their mapping scales)
        w = (w * smap.view(-1, 1) - lr * gw) / smap.view(-1, 1)
        b = b - lr * gb if gb is not None else b
        alpha = alpha - lr * galpha if galpha is not None else alpha
    w = clipped(layer, w)
    s = smap * alpha
    return remapped(layer, w, s) + (b,)


def execute(scn, ctx):
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    import copy
    import io
    import pickle
    import torch
    net = build(scn)
    layers = [Layer(spec, net[k]) for k, spec in enumerate(scn["layers"])]
    opt = optimizer(net, 0.1)
    pending = [[] for _ in layers]       # (x, c, modified weights) of backward passes since the last step

    def check(where, stepped=False):
        for k, layer in enumerate(layers):
            w, _ = layer.raw()
            ctx.require(bool(torch.isfinite(w).all()), "weights-not-finite", lambda k=k, w=w: f"{where}, layer {k}: {w.tolist()}")
            observe_training(ctx, layer, f"{where}, layer {k}", stepped)
        for k, layer in enumerate(layers):
            observe_eval(ctx, layer, f"{where}, layer {k}")
        ctx.state([layer.raw()[0] for layer in layers])
        ctx.step()

    engine.seed_all(core.derive(scn["seed"], "check"), engine.MODE_STREAM)
    check("after construction")
    for i, op in enumerate(scn["ops"]):
        engine.seed_all(core.derive(scn["seed"], "op", i), engine.MODE_STREAM)
        where = f"operation {i} {op}"
        kind = op["op"]
        ctx.log(kind, op.get("end", ""))
        if kind == "batch":
            run_batch(scn, ctx, layers, opt, op, i, pending, where)
            if op.get("end") in ("step", "closure"):
                step(ctx, layers, opt, op, pending, where)
                check(where, True)
            else:
                if op.get("end", "").startswith("boom"):
                    ctx.fault(op["end"])
                check(where)
        elif kind == "eval":
            layer_modes = [m.training for m in net]
            net.train(op.get("train", False))
            for m, mode in zip(net, layer_modes):
                m.train(mode)
            check(where)
        elif kind == "probe":
            observe_training(ctx, layers[op["m"] % len(layers)], where)
        elif kind == "setw":
            layer = layers[op["m"] % len(layers)]
            w, b = layer.module.get_weights()
            gen_ = torch.Generator().manual_seed(op.get("s", 0))
            w = emptied((torch.rand(w.shape, generator=gen_) - 0.5) * 1.6, op.get("zero"))
            layer.module.set_weights(w, None if b is None else torch.rand(b.shape, generator=gen_) - 0.5)
            layer.fb_sure = False
            # (gradients of other weights are thrown away)
            opt.zero_grad()
            for other in layers:
                other.tile.analog_ctx.reset()
            pending[:] = [[] for _ in layers]
            check(where)
        elif kind == "drift":
            layer = layers[op["m"] % len(layers)]
            layer.tile.drift_weights(op["t"])
            layer.fb_sure = False
            check(where)
        elif kind == "change":
            layer = layers[op["m"] % len(layers)]
            change(ctx, layer, op)
            check(where)
        elif kind == "copy":
            ctx.fault("crash and restart" if op["how"] == "restart" else "copy")
            before = [layer.raw()[0] for layer in layers]
            if op["how"] == "deepcopy":
                net = copy.deepcopy(net)
            elif op["how"] == "pickle":
                net = pickle.loads(pickle.dumps(net))
            else:
                buf = io.BytesIO()
                torch.save(net.state_dict(), buf)
                new = build(scn)
                for old, mod in zip(net, new):
                    # (a program that changed its configuration does so again)
                    cfg, was = next(mod.analog_tiles()).rpu_config, next(old.analog_tiles()).rpu_config
                    cfg.modifier, cfg.clip, cfg.remap = copy.deepcopy((was.modifier, was.clip, was.remap))
                buf.seek(0)
                new.load_state_dict(torch.load(buf, weights_only=False))
                net = new
                engine.seed_all(core.derive(scn["seed"], "restarted", i), engine.MODE_STREAM)
            opt = optimizer(net, 0.1)
            pending[:] = [[] for _ in layers]
            for layer, mod in zip(layers, net):
                layer.module = mod
                for p in mod.parameters():
                    p.grad = None
                for tile in mod.analog_tiles():
                    tile.analog_ctx.reset()
            for layer, w in zip(layers, before):
                close(ctx, layer.raw()[0], w, "copy-differs", where, 0.0)
            check(where)
    for k, layer in enumerate(layers):
        statistics(ctx, layer, f"layer {k}")


def change(ctx, layer, op):
    """The user changes a configuration during training, which the runtime has to allow for compiled tiles."""
    if not layer.spec.get("fly") and not layer.spec.get("torch"):
        return
    if op["what"] == "remap" and layer.get("remap", "type").name == "NONE":
        return              # (mapping scales would have another shape)
    rng = core.rng_for("change", op.get("seed", 0))
    new = {"modifier": gen_modifier, "clip": gen_clip, "remap": gen_remap}[op["what"]](rng, layer.spec.get("torch"))
    cfg = getattr(layer.tile.rpu_config, op["what"])
    default = type(cfg)()
    for field in dataclasses.fields(cfg):
        setattr(cfg, field.name, getattr(default, field.name))
    zoo._value({"f": new}, cfg)     # pylint: disable=protected-access
    layer.z = {}
    layer.last_noise = None
    # (whether the evaluation uses the modified weights is decided with the next modification)
    ctx.probe("changed " + op["what"])


def run_batch(scn, ctx, layers, opt, op, i, pending, where):
    """A forward and a backward pass of all layers in use, each with weights of its own choosing in the loss."""
    import torch
    gen_ = torch.Generator().manual_seed(core.derive(scn["seed"], "data", i) & 0x7FFFFFFF)
    for group in opt.param_groups:
        group["lr"] = op.get("lr", 0.1)
    outs = []
    end = op.get("end", "step")
    for k, layer in enumerate(layers):
        use = op.get("use") or [True]
        if not use[k % len(use)]:
            continue
        layer.module.train()
        n = layer.spec["in"]
        per_sample = layer.spec.get("torch") and layer.get("modifier", "per_batch_sample")
        # (the unit vectors show which weights were used)
        x = torch.cat([torch.zeros(1, n), torch.eye(n), torch.rand(op.get("n", 1), n, generator=gen_) * 2 - 1])
        x.requires_grad_(True)
        w, b = layer.raw()
        y = layer.module(x)
        fb = None
        fuzz = layer.fuzz()
        if not per_sample and fuzz < 1e-3:
            yd = y.detach().double()
            fb = ((yd[1:n + 1] - yd[:1]) / layer.scale()).T
            if layer.tile.analog_bias:
                fb = torch.cat([fb, ((yd[0] - b) / layer.scale()).view(-1, 1)], 1)
            if layer.spec.get("torch"):
                check_modified(ctx, layer, w, fb, f"{where}, layer {k}")
            else:
                want = w if layer.fb is None else layer.fb
                if layer.fb is None or layer.fb_sure or core.first_difference(fb, w, tol=TOL + fuzz) is not None:
                    close(ctx, fb, want, "wrong-forward-weights", f"{where}, layer {k}: the forward pass uses", TOL + fuzz)
            close(ctx, y.detach().double(), layer.seen(fb, x.detach()), "not-linear", f"{where}, layer {k}")
        c = torch.rand(y.shape, generator=gen_) - 0.5
        outs.append((k, x, c, y, fb))
        if end == "boom-forward":
            break
    if end == "boom-forward" or not outs:
        return
    total = sum((y * c).sum() for _, _, c, y, _ in outs)
    if end == "boom-backward":
        k0, _, _, y0, _ = outs[0]

        def fail(_):
            raise Boom()
        y0.register_hook(fail)
        try:
            total = sum((y * c).sum() for _, _, c, y, _ in outs)
            total.backward()
        except Boom:
            pass
        # (the user throws the failed step away)
        opt.zero_grad()
        for layer in layers:
            layer.tile.analog_ctx.reset()
        pending[:] = [[] for _ in layers]
        return
    learned = {k: layers[k].scale("learned") for k, *_ in outs}
    total.backward()
    for k, x, c, y, fb in outs:
        layer = layers[k]
        xd, cd = x.detach().double(), c.double()
        if fb is not None:
            wanted = (cd * layer.scale()) @ fb
            close(ctx, x.grad.double(), wanted[:, :xd.shape[1]], "wrong-backward-weights",
                  f"{where}, layer {k}: the gradient of the inputs, with the weights of the forward pass,", 1e-4)
        if layer.tile.analog_bias:
            xd = torch.cat([xd, torch.ones(xd.shape[0], 1, dtype=torch.float64)], 1)
        d = cd * learned[k]
        galpha = None
        if layer.tile.get_learned_out_scales() is not None:
            _, b = layer.raw()
            pre = (y.detach().double() - b) / learned[k]
            galpha = (cd * pre).sum(0)
            if layer.tile.get_learned_out_scales().numel() == 1:
                galpha = galpha.sum().view(1).expand(cd.shape[1])
        gb = cd.sum(0) if layer.tile.digital_bias else None
        pending[k].append((d.T @ xd, gb, galpha))


def step(ctx, layers, opt, op, pending, where):
    before = [(layer.raw()[0], layer.scale("map"), layer.scale("learned"), layer.raw()[1]) for layer in layers]
    grads = []
    for p in pending:
        if not p:
            grads.append((None, None, None))
        else:
            grads.append(tuple(None if p[0][j] is None else sum(q[j] for q in p) for j in range(3)))
    lr = op.get("lr", 0.1)
    if op.get("end") == "closure":
        opt.step(lambda: 0.0)
    else:
        opt.step()
    opt.zero_grad()
    pending[:] = [[] for _ in layers]
    for k, layer in enumerate(layers):
        if layer.get("clip", "type").name == "LAYER_GAUSSIAN" and before[k][0].numel() > 1 and float(before[k][0].std()) < 1e-5:
            ctx.probe("no spread")     # (whether equal weights have one is up to rounding)
            continue
        w, s, b = predict(ctx, layer, before[k], grads[k], lr)
        got, gb = layer.raw()
        at = f"{where}, layer {k}"
        scale = layer.scale()
        close(ctx, got * scale.view(-1, 1), w * s.view(-1, 1), "wrong-step", f"{at}: after the step the layer's weights are", 2e-4)
        close(ctx, got, w, "wrong-mapping", f"{at}: after the step the crossbar holds", 2e-4)
        close(ctx, gb, b, "wrong-bias", at, 2e-4)
