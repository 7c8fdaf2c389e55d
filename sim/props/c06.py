"""C06: the drifted state of an inference tile is a function of what was programmed and of the time since then, and nothing else."""
from sim import core, engine, zoo

PID = "C06"
TOL = 3e-5

NOISE = ["PCMLikeNoiseModel", "StateIndependentNoiseModel", "CustomDriftPCMLikeNoiseModel", "HermesNoiseModel",
         "ReRamWan2022NoiseModel", "ReRamCMONoiseModel"]
TIMES = [0.0, 0.0, 1e-3, 1.0, 20.0, 3600.0, 86400.0, 1e6, 1e9]


def gen_noise(rng):
    cls = zoo.pick(rng, "PCMLikeNoiseModel", *NOISE)
    f = {"noise_scale": zoo.pick(rng, 0.0, 1.0)}
    if not cls.startswith("ReRam"):
        f = {"prog_noise_scale": zoo.pick(rng, 0.0, 1.0), "read_noise_scale": zoo.pick(rng, 0.0, 0.0, 1.0),
             "drift_scale": zoo.pick(rng, 0.0, 1.0, 1.0, 2.0)}
    conv = zoo.pick(rng, "single", "single", "single-gmin", "dual", "npair")
    return {"cls": cls, "f": f, "conv": conv if not cls.startswith(("ReRam", "Hermes")) else None}


def gen(rng, tier, index):
    models = []
    for _ in range(rng.randrange(1, 4)):
        kind = zoo.pick(rng, "linear", "linear", "mapped", "two", "conv")
        mapping = {"digital_bias": rng.random() < 0.5, "weight_scaling_omega": zoo.pick(rng, 0.0, 0.8, 1.0),
                   "weight_scaling_columnwise": rng.random() < 0.5, "out_scaling_columnwise": False,
                   "learn_out_scaling": rng.random() < 0.3}
        cls = zoo.pick(rng, "InferenceRPUConfig", "TorchInferenceRPUConfig")
        if kind == "mapped" or cls != "InferenceRPUConfig":
            mapping["digital_bias"] = True
        models.append({"kind": kind, "cls": cls, "in": rng.randrange(2, 6), "out": rng.randrange(1, 5), "bias": rng.random() < 0.6,
                       "noise": gen_noise(rng), "comp": zoo.pick(rng, None, "GlobalDriftCompensation", "PerColumnDriftCompensation",
                                                                 "GlobalDriftCompensationWithExactReference"),
                       "mapping": mapping})
    ops = []
    for _ in range(rng.randrange(5, 16 if tier == "quick" else 40)):
        r = rng.random()
        m = rng.randrange(len(models))
        if r < 0.16:
            ops.append({"op": "program", "m": m, "how": zoo.pick(rng, "layer", "layer", "current", "model"), "noise": gen_noise(rng),
                        "fault": zoo.pick(rng, None, None, None, None, "prog", "nu")})
        elif r < 0.60:
            reram = models[m]["noise"]["cls"].startswith("ReRamWan") and rng.random() < 0.7
            ops.append({"op": "drift", "m": m, "t": zoo.pick(rng, 1.0, 86400.0, 172800.0) if reram else
                        zoo.pick(rng, *TIMES) * (1 + rng.random()),
                        "fault": zoo.pick(rng, None, None, None, None, None, "drift", "comp"), "n": zoo.pick(rng, 1, 1, 2)})
        elif r < 0.68:
            ops.append({"op": "eval", "m": m})
        elif r < 0.74:
            ops.append({"op": "train-mode", "m": m})
        elif r < 0.82:
            ops.append({"op": "train", "m": m, "n": rng.randrange(1, 3)})
        elif r < 0.88:
            ops.append({"op": "setw", "m": m})
        else:
            ops.append({"op": "restart", "m": m, "how": zoo.pick(rng, "deepcopy", "pickle", "torch", "state_dict", "state_dict")})
    ops.append({"op": "drift", "m": rng.randrange(len(models)), "t": zoo.pick(rng, *TIMES), "fault": None, "n": 1})
    return {"seed": rng.getrandbits(32), "models": models, "ops": ops}


def make_noise(spec):
    from aihwkit.inference import noise as pkg
    from aihwkit.inference.noise import custom, hermes, pcm, reram
    from aihwkit.inference.converter import conductance as conv
    cls = None
    for mod in (pcm, custom, hermes, reram, pkg):
        cls = cls or getattr(mod, spec["cls"], None)
    kw = dict(spec["f"])
    converter = {None: None, "single": lambda: conv.SinglePairConductanceConverter(),
                 "single-gmin": lambda: conv.SinglePairConductanceConverter(g_max=30.0, g_min=2.0),
                 "dual": lambda: conv.DualPairConductanceConverter(f_lst=[1.0, 1.0]),
                 "npair": lambda: conv.NPairConductanceConverter(f_lst=[1.0, 2.0, 3.0])}[spec["conv"]]
    if converter:
        kw["g_converter"] = converter()
    if spec["cls"] == "CustomDriftPCMLikeNoiseModel":
        kw["custom_drift_model"] = {"g_lst": [0.0, 10.0, 30.0], "nu_mean_lst": [0.1, 0.05, 0.04], "nu_std_lst": [0.02, 0.01, 0.0]}
    if spec["cls"] == "ReRamWan2022NoiseModel":
        kw = {"noise_scale": spec["f"]["noise_scale"]}
    if spec["cls"] == "ReRamCMONoiseModel":
        kw = {}
    return cls(**kw)


def build(spec):
    from aihwkit import nn as an
    from aihwkit.inference.compensation import drift
    from aihwkit.simulator import configs
    c = getattr(configs, spec["cls"])()
    c.forward.is_perfect = True
    c.noise_model = make_noise(spec["noise"])
    c.drift_compensation = getattr(drift, spec["comp"])() if spec["comp"] else None
    for k, v in spec["mapping"].items():
        setattr(c.mapping, k, v)
    if spec["kind"] == "mapped":
        c.mapping.max_input_size, c.mapping.max_output_size = 3, 2
        return an.AnalogSequential(an.AnalogLinearMapped(spec["in"], spec["out"], bias=spec["bias"], rpu_config=c))
    if spec["kind"] == "conv":
        return an.AnalogSequential(an.AnalogConv2d(1, spec["out"], 2, bias=spec["bias"], rpu_config=c))
    layers = [an.AnalogLinear(spec["in"], spec["out"], bias=spec["bias"], rpu_config=c)]
    if spec["kind"] == "two":
        layers.append(an.AnalogLinear(spec["out"], 2, bias=spec["bias"], rpu_config=c))
    return an.AnalogSequential(*layers)


def raw(tile):
    """The raw analog weights in double precision, analog bias as a last column."""
    import torch
    w, b = tile.get_weights(apply_weight_scaling=False)
    if tile.analog_bias:
        w = torch.cat([w, b.view(-1, 1)], 1)
    return w.detach().clone().double()


class Known:
    """What the reference model knows of a tile."""

    def __init__(self, tile):
        self.tile = tile
        self.w = raw(tile)             # the weights it has
        self.reference = None          # what it is programmed from
        self.programmed, self.nu = None, None
        self.noise = None              # pristine copy of the model it was programmed with
        self.baseline = None
        self.alpha = None              # None: no compensation so far

    def readout(self, w, comp):
        v = w.abs()
        return (v.mean(1) if comp == "PerColumnDriftCompensation" else v.mean()).clamp(min=1e-4)


def programs(k, from_current, comp):
    """The reference model of programming (under the same random numbers)."""
    import copy
    if from_current or k.reference is None:
        k.reference = k.w.clone()
    noise = k.noise
    w, nu = noise.apply_programming_noise(k.reference.float())
    k.programmed, k.nu = w.clone(), copy.deepcopy(nu)
    k.w = w.double().clone()
    if comp:
        k.baseline = k.readout(k.reference if "Exact" in comp else k.w, comp)


def drifts(k, t, comp):
    import copy
    noise = copy.deepcopy(k.noise)
    k.w = noise.apply_drift_noise(k.programmed.clone(), copy.deepcopy(k.nu), t).double()
    if comp:
        k.alpha = k.baseline / k.readout(k.w, comp)


def formula(k, t, spec):
    """Power-law drift of single pairs in double precision, where nothing is random."""
    import torch
    if spec["f"].get("read_noise_scale", 1.0) or spec["conv"] not in ("single", "single-gmin") or spec["cls"] == "HermesNoiseModel":
        return None
    g_max, g_min = (25.0, 0.0) if spec["conv"] == "single" else (30.0, 2.0)
    w = k.programmed.double()
    scale = (g_max - g_min) / w.abs().max().clamp(min=1e-7)
    out = 0.0
    for sign, nu in ((1.0, k.nu[0]), (-1.0, k.nu[1])):
        g = (sign * w * scale).clamp(min=0.0) + g_min
        out = out + sign * g * ((t + 20.0) / 20.0) ** (-torch.as_tensor(nu, dtype=torch.float64))
    return out / scale


class Broken(Exception):
    """An error injected into a noise model or a compensation."""


class inject:  # pylint: disable=invalid-name
    """Let the n-th call of a method of a noise model or compensation fail, once."""

    def __init__(self, obj, name, n, ctx):
        self.obj, self.name, self.n, self.ctx = obj, name, n, ctx

    def __enter__(self):
        orig = getattr(self.obj, self.name)

        def failing(*args, **kwargs):
            self.n -= 1
            if self.n == 0:
                self.ctx.fault("failing-" + self.name)
                raise Broken(self.name)
            return orig(*args, **kwargs)
        self.obj.__dict__[self.name] = failing

    def __exit__(self, *exc):
        self.obj.__dict__.pop(self.name, None)


def execute(scn, ctx):
    # pylint: disable=too-many-branches,too-many-statements,too-many-locals
    import copy
    import torch
    engine.seed_all(core.derive(scn["seed"], "construct"), engine.MODE_SEEDED)
    fleet = [{"spec": s, "model": build(s).eval(), "noise": s["noise"]} for s in scn["models"]]
    for m in fleet:
        m["known"] = [Known(t) for t in m["model"].analog_tiles()]

    def near(a, b):
        return torch.allclose(a, b, rtol=TOL, atol=TOL * max(1.0, float(a.abs().max()) if a.numel() else 1.0))

    def audit(where):
        for n, m in enumerate(fleet):
            for j, (tile, k) in enumerate(zip(m["model"].analog_tiles(), m["known"])):
                w = raw(tile)
                ctx.require(w.shape == k.w.shape and near(k.w, w), "weights", lambda: f"{where}: raw weights of tile {j} of model "
                            f"{n}, expected against actual: {core.first_difference(k.w, w, tol=TOL)}")
                if m["spec"]["comp"] and k.alpha is not None:
                    a = torch.as_tensor(tile.alpha).double().reshape(-1)
                    ctx.require(near(k.alpha.reshape(-1).expand(a.shape), a), "compensation", lambda: f"{where}: compensation factor "
                                f"of tile {j} of model {n}: expected {k.alpha.tolist()}, got {a.tolist()}")
        ctx.state([[k.w for k in m["known"]] for m in fleet])

    def seed(i, j):
        engine.seed_all(core.derive(scn["seed"], "op", i, j), engine.MODE_STREAM)

    def output(m, i, training):
        spec, model = m["spec"], m["model"]
        if spec["kind"] not in ("linear",):
            return
        tile, k = next(model.analog_tiles()), m["known"][0]
        torch.manual_seed(i)
        x = torch.rand(2, spec["in"]).double()
        scales = tile.get_scales()
        xx = torch.cat([x, torch.ones(2, 1)], 1) if tile.analog_bias else x
        y = xx @ k.w.T
        if scales is not None:
            y = y * scales.detach().double().view(-1)
        if not training and spec["comp"] and k.alpha is not None:
            y = y * k.alpha
        if tile.bias is not None:
            y = y + tile.bias.detach().double()
        model.train(training)
        with torch.no_grad():
            got = model(x.float()).double()
        model.eval()
        ctx.require(near(y, got), "output", lambda: f"operation {i}: output in {'training' if training else 'evaluation'} mode, "
                    f"expected against actual: {core.first_difference(y, got, tol=TOL)}")
        ctx.probe("outputs-compared")

    def set_noise(m, spec):
        for k in m["known"]:
            k.noise = make_noise(spec)
        m["noise"] = spec

    def program_reference(m, i, from_current):
        seed(i, 0)
        for k in m["known"]:
            programs(k, from_current, m["spec"]["comp"])
    for i, op in enumerate(scn["ops"]):
        m = fleet[op["m"] % len(fleet)]
        model, comp = m["model"], m["spec"]["comp"]
        where = f"operation {i} {op}"
        ctx.step()
        kind = op["op"]
        if kind == "program":
            tiles = list(model.analog_tiles())
            if op["fault"]:
                name = {"prog": "apply_programming_noise_to_conductance", "nu": "generate_drift_coefficients"}[op["fault"]]
                victim = tiles[i % len(tiles)]
                before = raw(victim)
                try:
                    with inject(victim.rpu_config.noise_model, name, 1, ctx):
                        seed(i, 0)
                        victim.program_weights(from_reference=True)
                    failed = False
                except Broken:
                    failed = True
                ctx.require(failed, "error-swallowed", f"{where}: programming did not report the error of the noise model")
                ctx.require(torch.equal(before, raw(victim)), "failed-programming", f"{where}: the failed programming changed weights")
                k = m["known"][i % len(tiles)]
                if k.reference is None:
                    k.reference = k.w.clone()
                continue
            if op["how"] == "model" or m["known"][0].noise is None:
                new = op["noise"] if op["how"] == "model" else m["noise"]
                set_noise(m, new)
                seed(i, 0)
                if op["how"] == "model":
                    model.program_analog_weights(noise_model=make_noise(new))
                else:
                    model.program_analog_weights()
                program_reference(m, i, False)
            else:
                seed(i, 0)
                if op["how"] == "current":
                    for t in tiles:
                        t.program_weights(from_reference=False)
                else:
                    model.program_analog_weights()
                program_reference(m, i, op["how"] == "current")
            ctx.probe("programmed")
            f = m["noise"]["f"]
            if f.get("prog_noise_scale", 1.0) == 0.0:
                for k in m["known"]:
                    ctx.require(near(k.reference, k.w), "programmed-weights", lambda: f"{where}: programming without noise, reference "
                                f"against weights: {core.first_difference(k.reference, k.w, tol=TOL)}")
        elif kind == "drift":
            for rep in range(op["n"]):
                first = m["known"][0].noise is None
                if first:
                    set_noise(m, m["noise"])
                if op["fault"]:
                    tile = list(model.analog_tiles())[i % len(m["known"])]
                    k = m["known"][i % len(m["known"])]
                    if k.programmed is None or (op["fault"] == "comp" and (not comp or m["noise"]["cls"].startswith("ReRamWan"))):
                        break
                    obj, name = ((tile.rpu_config.noise_model, "apply_drift_noise_to_conductance") if op["fault"] == "drift"
                                 else (tile.rpu_config.drift_compensation, "readout"))
                    before = raw(tile)
                    try:
                        with inject(obj, name, 1, ctx):
                            seed(i, rep)
                            tile.drift_weights(op["t"])
                        failed = False
                    except Broken:
                        failed = True
                    ctx.require(failed, "error-swallowed", f"{where}: drift did not report the error of the noise model")
                    if op["fault"] == "drift":
                        ctx.require(torch.equal(before, raw(tile)), "failed-drift", f"{where}: the failed drift changed weights")
                    else:
                        k.w = raw(tile)  # drifted or not, both are fine; the next drift is what counts
                    break
                seed(i, rep)
                if m["noise"]["cls"] == "ReRamWan2022NoiseModel" and op["t"] not in (1.0, 86400.0, 172800.0):
                    # measured at these times only, others are refused
                    if m["known"][0].programmed is None:
                        break
                    refused = False
                    try:
                        model.drift_analog_weights(op["t"])
                    except Exception as exc:  # pylint: disable=broad-except
                        refused = type(exc).__name__ == "ArgumentError"
                    ctx.require(refused, "time-not-refused", f"{where}: the noise model is not defined for this time")
                    ctx.probe("refused-times")
                    audit(where)
                    break
                model.drift_analog_weights(op["t"])
                seed(i, rep)
                for k in m["known"]:
                    if k.programmed is None:
                        programs(k, False, comp)
                    drifts(k, op["t"], comp)
                for j, k in enumerate(m["known"]):
                    exact = formula(k, op["t"], m["noise"])
                    if exact is not None:
                        ctx.probe("closed-formula")
                        ctx.require(near(exact, k.w), "drift-law", lambda: f"{where}: tile {j}, g (t/t0)^-nu against the weights: "
                                    f"{core.first_difference(exact, k.w, tol=TOL)}")
                audit(where)
                output(m, i, False)
        elif kind in ("eval", "train-mode"):
            output(m, i, kind == "train-mode")
        elif kind == "train":
            # training goes on with the weights that are there; what was programmed stays what it was
            from aihwkit.optim import AnalogSGD
            model.train()
            opt = AnalogSGD(model.parameters(), lr=0.05)
            seed(i, 0)
            for _ in range(op["n"]):
                x = torch.rand(2, 1, 3, 3) if m["spec"]["kind"] == "conv" else torch.rand(2, m["spec"]["in"])
                opt.zero_grad()
                (model(x) ** 2).sum().backward()
                opt.step()
            model.eval()
            for tile, k in zip(model.analog_tiles(), m["known"]):
                k.w = raw(tile)
        elif kind == "setw":
            seed(i, 0)
            for tile, k in zip(model.analog_tiles(), m["known"]):
                w, b = tile.get_weights()
                tile.set_weights(torch.rand(w.shape) - 0.5, None if b is None else torch.rand(b.shape) - 0.5)
                k.w, k.reference = raw(tile), None
        elif kind == "restart":
            from sim.props.c02 import clone_model
            ctx.fault("restart-" + op["how"])
            if op["how"] == "state_dict":
                import io
                buf = io.BytesIO()
                torch.save(model.state_dict(), buf)
                buf.seek(0)
                seed(i, 1)
                new = build(m["spec"]).eval()
                new.load_state_dict(torch.load(buf, weights_only=False))
            else:
                new = clone_model(model, op["how"]).eval()
            m["model"] = new
            for tile, k in zip(new.analog_tiles(), m["known"]):
                k.tile = tile
        audit(where)
        ctx.log(i, kind, [float(k.w.sum()) for k in m["known"]])
