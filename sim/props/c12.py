"""C12: calibrating the input ranges sets exactly the ranges of what was seen, and nothing else - also if it fails midway."""
from sim import core, engine, zoo

PID = "C12"
TOL = 1e-4
MOVING = ("MOVING_STD", "MOVING_QUANTILE")


class Boom(Exception):
    """An error of the user's program, of the data or of the disk in the middle of a calibration."""


class Stop(BaseException):
    """The user interrupts."""


def gen(rng, tier, index):
    pick = zoo.pick
    layers, n_in = [], rng.randrange(1, 6)
    for k in range(pick(rng, 1, 2, 2, 3)):
        cls = pick(rng, "InferenceRPUConfig", "TorchInferenceRPUConfig", "InferenceRPUConfig", "SingleRPUConfig", "FloatingPointRPUConfig")
        n_out = rng.randrange(1, 5)
        layers.append({"cls": cls, "in": n_in, "out": n_out, "bias": rng.random() < 0.6, "split": pick(rng, 0, 0, 2), "noisy": rng.random() < 0.6,
                       "managed": rng.random() < 0.4, "perfect": rng.random() < 0.15, "enable": rng.random() < 0.5, "learn": rng.random() < 0.6,
                       "init_value": pick(rng, 0.5, 3.0), "init_from_data": pick(rng, 0, 0, 2), "before": pick(rng, None, None, None, "relu", "dead")
                       if k or rng.random() < 0.3 else None, "unused": rng.random() < 0.08, "frozen": rng.random() < 0.15})
        n_in = n_out
    ops = []
    for _ in range(rng.randrange(2, 5 if tier == "quick" else 14)):
        r = rng.random()
        if r < 0.65:
            op = {"op": "calibrate", "type": pick(rng, "MAX", "MAX", "CACHE_QUANTILE", "CACHE_QUANTILE", "MOVING_STD", "MOVING_QUANTILE", "NONE"),
                  "batches": rng.randrange(0, 4), "quantile": pick(rng, 0.99995, 0.9, 1.0, 0.7), "max_samples": pick(rng, 1000, 1000, 5, 1),
                  "std_alpha": pick(rng, None, None, 2.0), "force": rng.random() < 0.7, "amp": pick(rng, 0.3, 1.0, 5.0), "three": rng.random() < 0.2,
                  "zeros": rng.random() < 0.15, "kind": pick(rng, "normal", "normal", "signs", "mirror", "negative", "sparse"), "train": rng.random() < 0.6}
            if rng.random() < 0.4:
                op["fault"] = {"kind": pick(rng, "loader", "module", "interrupt", "shape"), "at": rng.randrange(0, 3), "where": rng.randrange(3)}
            ops.append(op)
        elif r < 0.85:
            ops.append({"op": "train", "lr": pick(rng, 0.0, 0.05)})
        else:
            ops.append({"op": "copy", "how": pick(rng, "deepcopy", "pickle", "restart")})
    return {"seed": rng.getrandbits(32), "layers": layers, "ops": ops}


def make_config(spec):
    quiet = {"inp_noise": 0.0, "out_noise": 0.0, "w_noise": 0.0, "inp_res": -1.0, "out_res": -1.0}
    forward = dict(quiet, out_noise=0.1) if spec.get("noisy") else quiet
    forward = dict(forward, is_perfect=bool(spec.get("perfect")), out_bound=1e5)
    if not spec.get("managed"):
        forward.update({"noise_management": "NoiseManagementType.NONE", "bound_management": "BoundManagementType.NONE"})
    f = {"pre_post": {"f": {"input_range": {"f": {"enable": spec.get("enable", False), "learn_input_range": spec.get("learn", True), "init_value":
                                                  spec.get("init_value", 3.0), "init_from_data": spec.get("init_from_data", 0)}}}},
         "mapping": {"f": {"max_input_size": spec.get("split", 0), "max_output_size": 0, "digital_bias": True}}}
    cls = spec.get("cls", "InferenceRPUConfig")
    if cls != "FloatingPointRPUConfig":
        f["forward"] = {"f": forward}
    if cls == "SingleRPUConfig":
        f["device"] = {"cls": "ConstantStepDevice", "f": {}}
    return zoo.build_config({"cls": cls, "f": f})


def has_noise(spec):
    return spec.get("cls") != "FloatingPointRPUConfig" and bool(spec.get("noisy")) and not spec.get("perfect")


def spy_class():
    import torch

    class Spy(torch.nn.Module):
        """Sees what goes into a layer, prepares it, and fails if told so."""

        def __init__(self, before):
            super().__init__()
            self.before = before
            self.seen = []
            self.fail = None
            self.kind = Boom

        def forward(self, x):
            if self.before == "relu":
                x = torch.relu(x)
            elif self.before == "dead":
                x = x * 0.0
            if self.fail is not None:
                if self.fail == 0:
                    raise self.kind("module")
                self.fail -= 1
            self.seen.append(x.detach().clone())
            return x

        def __reduce__(self):
            return rebuild_spy, (self.before,)
    return Spy


def rebuild_spy(before):
    return spy_class()(before)


class Net:
    """The system."""

    def __init__(self, scn):
        import torch
        from aihwkit.nn import AnalogLinearMapped
        Spy = spy_class()
        self.scn = scn
        modules = []
        for k, spec in enumerate(scn["layers"]):
            engine.seed_all(core.derive(scn["seed"], "build", k), engine.MODE_SEEDED)
            modules.append(Spy(spec.get("before")))
            modules.append(AnalogLinearMapped(spec["in"], spec["out"], bias=spec.get("bias", False), rpu_config=make_config(spec)))
            if spec.get("unused"):
                break       # (a model with layers which the data never reach)
        self.cut = len(modules)
        for k, spec in list(enumerate(scn["layers"]))[len(modules) // 2:]:
            engine.seed_all(core.derive(scn["seed"], "build", k), engine.MODE_SEEDED)
            modules.append(Spy(spec.get("before")))
            modules.append(AnalogLinearMapped(spec["in"], spec["out"], bias=spec.get("bias", False), rpu_config=make_config(spec)))
        self.net = model_class()(modules, self.cut)
        self.tune()

    def tune(self):
        import torch
        for spec, layer in zip(self.scn["layers"], self.layers):
            if spec.get("cls") == "SingleRPUConfig":
                continue
            g = torch.Generator().manual_seed(7)
            w, b = layer.get_weights()
            layer.set_weights(torch.rand(w.shape, generator=g) - 0.4, None if b is None else torch.rand(b.shape, generator=g) * 0.2)

    @property
    def layers(self):
        return [m for k, m in enumerate(self.net.mods) if k % 2]

    @property
    def spies(self):
        return [m for k, m in enumerate(self.net.mods) if not k % 2]

    def tiles(self):
        """(layer, columns, tile)"""
        out = []
        for k, layer in enumerate(self.layers):
            first = 0
            for tile in layer.analog_tiles():
                out.append((k, slice(first, first + tile.in_size), tile))
                first += tile.in_size
        return out


_MODEL = []


def model_class():
    if not _MODEL:
        import torch
        from aihwkit.nn import AnalogSequential

        class Plain(AnalogSequential):
            """A user's model."""

            def __init__(self, modules, cut):
                super().__init__()
                self.mods = torch.nn.ModuleList(modules)
                self.cut = cut

            def forward(self, x):
                for m in list(self.mods)[:self.cut]:
                    x = m(x)
                return x
        globals()["Plain"] = Plain
        Plain.__qualname__ = "Plain"
        _MODEL.append(Plain)
    return _MODEL[0]


def modes(net):
    return {name: m.training for name, m in net.net.named_modules()}


def ranges(net):
    return [None if t.input_range is None else (float(t.input_range.detach().reshape(-1)[0]), float(t.input_range_update_idx)) for _, _, t in net.tiles()]


def weights(net):
    out = []
    for layer in net.layers:
        out.append([None if v is None else v.detach().clone() for v in layer.get_weights()])
    for _, _, t in net.tiles():
        s = t.get_scales()
        out.append([None if s is None else s.detach().clone(), [(n, v.clone()) for n, v in t.get_hidden_parameters().items()]])
    return out


def perfects(net):
    return [getattr(getattr(t.rpu_config, "forward", None), "is_perfect", None) for _, _, t in net.tiles()]


def batches(scn, op, i, ctx):
    import torch
    n_in = scn["layers"][0]["in"]
    g = torch.Generator().manual_seed(core.derive(scn["seed"], "data", i) & 0x7FFFFFFF)
    fault = op.get("fault") or {}
    for b in range(op.get("batches", 2)):
        if fault.get("kind") == "loader" and fault["at"] == b:
            raise Boom("loader")
        shape = (2, 3, n_in) if op.get("three") else (1 + b, n_in)
        x = torch.randn(shape, generator=g) * op.get("amp", 1.0)
        kind = op.get("kind")
        if kind == "signs":
            x = x.sign() * op.get("amp", 1.0)
        elif kind == "negative":
            x = -x.abs()
        elif kind == "sparse":
            x = x * (x.abs() > op.get("amp", 1.0)).float()
        elif kind == "mirror" and n_in > 1:
            # (entries that cancel each other, exactly)
            x[..., n_in // 2:2 * (n_in // 2)] = -x[..., :n_in // 2]
            x[..., 2 * (n_in // 2):] = 0.0
            x[-1:] *= 4.0
        if op.get("zeros"):
            x[0] = 0.0
        if fault.get("kind") == "shape" and fault["at"] == b:
            x = torch.randn(2, n_in + 1)
        yield (x,), {}


def close(a, b):
    return abs(a - b) <= TOL * (abs(a) + abs(b)) + 1e-7


def expected(op, tile_spec, seen, before, alpha):
    """The possible ranges for the batches seen (None: cannot say)."""
    import torch
    value, count = before
    typ, q = op["type"], op.get("quantile", 0.99995)
    rows = [s.reshape(-1, s.shape[-1]) for s in seen]
    rows = [r[~(r == 0.0).all(-1)] for r in rows]
    rows = [r for r in rows if r.numel()]
    if typ in MOVING:
        out = []
        for absolute in (False, True):
            v, n = value, count
            for r in rows:
                x = r.abs() if absolute else r
                if typ == "MOVING_STD":
                    new = alpha * float(r.std()) if r.numel() > 1 and n < op.get("max_samples", 1000) else 0.0
                else:
                    new = float(r.abs().max()) if q == 1.0 else float(x.flatten().quantile(q))
                if new > 0:
                    v, n = (v * n + new) / (n + 1), n + 1
            out.append((v, n))
        return out
    if not rows:
        return [(value, count)]
    x = torch.cat(rows)
    if typ == "MAX":
        return [(float(x.abs().max()), count)]
    if x.shape[0] > op.get("max_samples", 1000):
        return [(1e-9, count, float(x.abs().max())), (value, count)]
    # (an empty range is not set)
    return [(abs(float(v.flatten().quantile(q))) or value, count) for v in (x, x.abs())]


def calibrate(scn, ctx, net, op, i, where):
    # pylint: disable=too-many-branches,too-many-statements,too-many-locals
    from aihwkit.exceptions import ConfigError
    from aihwkit.inference.calibration import InputRangeCalibrationType, calibrate_input_ranges
    typ = InputRangeCalibrationType[op["type"]]
    force = op.get("force", True)
    fault = op.get("fault") or {}
    net.net.train(op.get("train", True))
    for spec, layer in zip(scn["layers"], net.layers):
        if spec.get("frozen"):
            layer.train(not op.get("train", True))
    for spy in net.spies:
        spy.seen.clear()
        spy.fail, spy.kind = None, Boom
    if fault.get("kind") in ("module", "interrupt"):
        spy = net.spies[fault.get("where", 0) % len(net.spies)]
        spy.fail, spy.kind = fault["at"], Stop if fault["kind"] == "interrupt" else Boom
    tiles = net.tiles()
    was = {"modes": modes(net), "ranges": ranges(net), "weights": weights(net), "perfect": perfects(net),
           "enabled": [t.rpu_config.pre_post.input_range.enable for _, _, t in tiles], "params": [id(p) for p in net.net.parameters()],
           "alpha": [t.rpu_config.pre_post.input_range.init_std_alpha for _, _, t in tiles]}
    nm = [getattr(getattr(t.rpu_config, "forward", None), "noise_management", None) for _, _, t in tiles]
    chosen = [hasattr(t.rpu_config, "forward") and (force or e) for (_, _, t), e in zip(tiles, was["enabled"])]
    refused = not force and any(c and m is not None and m.name != "NONE" for c, m in zip(chosen, nm)) and typ.name != "NONE"
    failed = None
    try:
        kwargs = {} if op.get("std_alpha") is None else {"std_alpha": op["std_alpha"]}
        calibrate_input_ranges(net.net, typ, batches(scn, op, i, ctx), quantile=op.get("quantile", 0.99995), max_samples=op.get("max_samples", 1000),
                               force_all_layers=force, **kwargs)
    except Boom as e:
        failed = f"fault {e}"
    except Stop:
        failed = "interrupt"
    except ConfigError:
        ctx.require(refused, "refused", where)
        failed = "refused"
    except RuntimeError:
        if fault.get("kind") != "shape":
            raise
        failed = "shape"
    for spy in net.spies:
        spy.fail = None
    if failed is None:
        ctx.require(not refused or typ.name == "NONE", "not-refused", where)
    else:
        ctx.fault(failed)
        ctx.probe(f"failed: {failed}")
    tiles = net.tiles()
    ctx.require(modes(net) == was["modes"], "mode-changed", lambda: f"{where}: {[n for n, m in modes(net).items() if m != was['modes'].get(n)]}")
    ctx.require(all(not t._forward_pre_hooks for _, _, t in tiles), "hooks-left", where)
    ctx.require(perfects(net) == was["perfect"], "perfect-changed", lambda: f"{where}: {perfects(net)} instead of {was['perfect']}")
    diff = core.first_difference(weights(net), was["weights"], tol=0.0)
    ctx.require(diff is None, "weights-changed", lambda: f"{where}: {diff}")
    now = ranges(net)
    for n, (k, columns, tile) in enumerate(tiles):
        spec, at = scn["layers"][k], f"{where}, tile {n} of layer {k}"
        before = was["ranges"][n]
        enabled = tile.rpu_config.pre_post.input_range.enable
        if not chosen[n] or typ.name == "NONE":
            ctx.require(enabled == was["enabled"][n] and now[n] == before, "uncalibrated-changed", lambda: f"{at}: {now[n]} instead of {before}")
            continue
        if failed is not None:
            if before is not None and op["type"] not in MOVING:
                ctx.require(now[n] == before, "failed-changed", lambda: f"{at}: {now[n]} instead of {before}")
            continue
        ctx.require(enabled and now[n] is not None, "not-enabled", at)
        if before is None:
            ctx.require(not tile.input_range.requires_grad, "learned", at)
            before = (spec.get("init_value", 3.0), 0.0)
        seen = [s[..., columns] for s in net.spies[k].seen] if 2 * k < net.cut else []
        alpha = op["std_alpha"] if op.get("std_alpha") is not None else was["alpha"][n]
        options = expected(op, spec, seen, before, alpha)
        ok = any((o[0] <= now[n][0] <= o[2] + TOL) if len(o) == 3 else close(now[n][0], abs(o[0])) and now[n][1] == o[1] for o in options)
        ctx.require(ok, "wrong-range", lambda: f"{at}: {now[n]} instead of {options}")
        ctx.probe("calibrated " + op["type"])
        ctx.require(tile.rpu_config.forward.noise_management.name == "NONE", "management-left", at)
        ctx.require(tile.rpu_config.pre_post.input_range.init_from_data == 0, "still-from-data", at)
        if op["type"] not in MOVING and seen and now[n] != before and any(bool((s != 0).any()) for s in seen):
            ctx.require(tile.rpu_config.pre_post.input_range.calibration_info == typ.value, "no-info", at)
    ctx.require([id(p) for p in net.net.parameters() if id(p) in was["params"]] == was["params"], "parameters-replaced", where)
    look(scn, ctx, net, where)


def look(scn, ctx, net, where):
    """The layers compute what the configuration says."""
    import torch
    old = modes(net)
    net.net.eval()
    start = ranges(net)
    for k, (spec, layer) in enumerate(zip(scn["layers"], net.layers)):
        x = torch.linspace(-2.0, 3.1, 2 * spec["in"]).view(2, -1)
        y, again = layer(x).detach().double(), layer(x).detach().double()
        ctx.require(bool(torch.equal(y, again)) != has_noise(spec), "noise-lost" if has_noise(spec) else "noise-appeared",
                    f"{where}, layer {k}: {y.tolist()} {again.tolist()}")
        if has_noise(spec):
            continue
        w, b = layer.get_weights()
        ideal, sure = 0.0, True
        for j, columns, tile in net.tiles():
            if j != k:
                continue
            xt = x[:, columns].double()
            if tile.input_range is not None:
                r = abs(float(tile.input_range.detach().reshape(-1)[0]))
                xt = xt.clamp(-r, r)
            elif not spec.get("perfect") and not spec.get("managed") and spec.get("cls") != "FloatingPointRPUConfig":
                xt = xt.clamp(-1.0, 1.0)
            ideal = ideal + xt @ w.detach().double()[:, columns].T
            if tile.input_range is None and spec.get("managed") and hasattr(tile.rpu_config, "forward") and tile.rpu_config.forward.noise_management.name == "NONE":
                sure = False
        if b is not None:
            ideal = ideal + b.detach().double()
        ctx.require(not sure or bool(((y - ideal).abs() <= TOL * (10.0 + ideal.abs())).all()), "wrong-output",
                    lambda k=k, y=y, ideal=ideal: f"{where}, layer {k}: {y.tolist()} instead of {ideal.tolist()}")
    ctx.require(ranges(net) == start, "range-changed", where)
    for name, m in net.net.named_modules():
        m.training = old[name]


def optimizer(net):
    from aihwkit.optim import AnalogSGD
    opt = AnalogSGD(net.net.parameters(), lr=0.1)
    opt.regroup_param_groups(net.net)
    return opt


def train(scn, ctx, net, opt, op, where, calibrated):
    import torch
    net.net.train()
    start, w = ranges(net), weights(net)
    for group in opt.param_groups:
        group["lr"] = op.get("lr", 0.05)
    x = torch.linspace(-1.0, 2.0, 2 * scn["layers"][0]["in"]).view(2, -1)
    opt.zero_grad()
    net.net(x).pow(2).sum().backward()
    opt.step()
    now = ranges(net)
    for n, (k, _, tile) in enumerate(net.tiles()):
        if calibrated[n] and (op.get("lr", 0.05) == 0.0 or not tile.rpu_config.pre_post.input_range.learn_input_range):
            ctx.require(now[n] == start[n], "training-moved-range", lambda n=n: f"{where}, tile {n}: {now[n]} instead of {start[n]}")
    last = net.cut // 2 - 1
    spec = scn["layers"][last]
    if op.get("lr", 0.05) > 0.0 and spec.get("bias"):
        bias = net.layers[last].get_weights()[1]
        ctx.require(not torch.equal(bias, w[last][1]), "not-training", where)


def execute(scn, ctx):
    import copy
    import io
    import pickle
    import torch
    net = Net(scn)
    opt = optimizer(net)
    calibrated = [False] * len(net.tiles())
    for i, op in enumerate(scn["ops"]):
        where = f"operation {i} {op}"
        engine.seed_all(core.derive(scn["seed"], "op", i), engine.MODE_STREAM)
        ctx.log(op["op"], op.get("type", ""))
        if op["op"] == "calibrate":
            calibrate(scn, ctx, net, op, i, where)
            for n, (_, _, t) in enumerate(net.tiles()):
                ir = t.rpu_config.pre_post.input_range
                calibrated[n] = ir.enable and ir.init_from_data == 0
        elif op["op"] == "train":
            train(scn, ctx, net, opt, op, where, calibrated)
        else:
            before, w = ranges(net), weights(net)
            ctx.fault("crash and restart" if op.get("how") == "restart" else "copy")
            other = Net.__new__(Net)
            other.scn, other.cut = scn, net.cut
            if op.get("how") == "restart":
                blob = io.BytesIO()
                torch.save(net.net.state_dict(), blob)
                blob.seek(0)
                other = Net(scn)
                other.net.load_state_dict(torch.load(blob, weights_only=False))
            elif op.get("how") == "pickle":
                other.net = pickle.loads(pickle.dumps(net.net))
            else:
                other.net = copy.deepcopy(net.net)
            net, opt = other, None
            opt = optimizer(net)
            ctx.require(ranges(net) == before, "range-lost", lambda: f"{where}: {ranges(net)} instead of {before}")
            diff = core.first_difference(weights(net), w, tol=1e-5)
            ctx.require(diff is None, "copy-differs", lambda: f"{where}: {diff}")
            look(scn, ctx, net, where)
        ctx.state([ranges(net), perfects(net)])
        ctx.step()
