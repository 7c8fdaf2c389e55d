"""C18: a learned input range follows its rule through every training history, and clips what it says."""
from sim import core, engine, zoo

PID = "C18"
TOL = 2e-4


class Boom(Exception):
    """An error of the user's program in the middle of a training step."""


def gen(rng, tier, index):
    pick = zoo.pick
    layers, n_in = [], rng.randrange(1, 7)
    for _ in range(pick(rng, 1, 1, 2)):
        cls = pick(rng, "InferenceRPUConfig", "TorchInferenceRPUConfig", "InferenceRPUConfig", "FloatingPointRPUConfig", "SingleRPUConfig")
        n_out = rng.randrange(1, 6)
        io = pick(rng, "perfect", "bound", "managed", "noisy")
        if cls in ("TorchInferenceRPUConfig", "FloatingPointRPUConfig"):
            io = "perfect"
        ir = {"enable": rng.random() < 0.9, "learn_input_range": rng.random() < 0.85, "init_value": pick(rng, 0.4, 1.3, 3.0),
              "init_from_data": pick(rng, 0, 0, 1, 2, 5), "init_std_alpha": pick(rng, 1.0, 3.0, 0.5), "decay": pick(rng, 0.0, 0.001, 0.13, 0.9),
              "input_min_percentage": pick(rng, 0.947, 0.513, 0.013), "gradient_scale": pick(rng, 1.0, 0.37, 2.3), "gradient_relative":
              rng.random() < 0.6, "output_min_percentage": pick(rng, 0.947, 0.513)}
        if io == "bound":
            ir["manage_output_clipping"] = rng.random() < 0.7
        layers.append({"cls": cls, "in": n_in, "out": n_out, "bias": rng.random() < 0.6, "io": io, "ir": ir, "bound": pick(rng, 0.2, 0.6, 1.5),
                       "omega": pick(rng, 0.0, 0.0, 0.7), "columns": rng.random() < 0.5, "split": pick(rng, 0, 0, 2), "perfect_back":
                       rng.random() < 0.7})
        n_in = n_out
    ops = []
    for _ in range(rng.randrange(3, 10 if tier == "quick" else 30)):
        r = rng.random()
        data = {"n": rng.randrange(1, 6), "amp": pick(rng, 0.3, 1.0, 1.0, 4.0), "kind": pick(rng, "normal", "normal", "normal", "normal", "zero",
                                                                                               "const", "three", "nan", "signs", "negative", "mirror")}
        if r < 0.66:
            ops.append({"op": "batch", "data": data, "end": pick(rng, "step", "step", "step", "step", "forward", "boom", "accumulate", "discard"),
                        "lr": pick(rng, 0.0, 0.03, 0.03, 0.4, 2.6), "d": pick(rng, 0.3, 1.0, 5.0)})
        elif r < 0.80:
            ops.append({"op": "eval", "data": data, "grad": rng.random() < 0.2})
        elif r < 0.87:
            ops.append({"op": "range", "m": rng.randrange(len(layers)), "v": pick(rng, 0.2, 1.7, -0.8), "tensor": rng.random() < 0.5})
        else:
            ops.append({"op": "copy", "how": pick(rng, "deepcopy", "pickle", "restart")})
    return {"seed": rng.getrandbits(32), "layers": layers, "ops": ops}


def make_config(spec):
    io = spec.get("io", "perfect")
    quiet = {"inp_noise": 0.0, "out_noise": 0.0, "w_noise": 0.0, "inp_res": -1.0, "out_res": -1.0}
    if io == "perfect":
        forward = {"is_perfect": True}
    elif io == "bound":
        forward = dict(quiet, inp_bound=1.0, out_bound=spec.get("bound", 0.6), noise_management="NoiseManagementType.NONE",
                       bound_management="BoundManagementType.NONE")
    elif io == "managed":
        forward = dict(quiet, out_bound=spec.get("bound", 0.6))
    else:
        forward = {"out_bound": spec.get("bound", 0.6)}
    f = {"pre_post": {"f": {"input_range": {"f": spec.get("ir", {})}}},
         "mapping": {"f": {"weight_scaling_omega": spec.get("omega", 0.0), "weight_scaling_columnwise": spec.get("columns", False),
                           "max_input_size": spec.get("split", 0), "max_output_size": 0, "digital_bias": True}}}
    cls = spec.get("cls", "InferenceRPUConfig")
    if cls != "FloatingPointRPUConfig":
        f["forward"] = {"f": forward}
        f["backward"] = {"f": {"is_perfect": bool(spec.get("perfect_back", True))}}
    if cls == "SingleRPUConfig":
        f["device"] = {"cls": "ConstantStepDevice", "f": {}}
    return zoo.build_config({"cls": cls, "f": f})


class Tile:
    """What is known about one tile: its range, the averaged batches and the gradient gathered."""

    def __init__(self, spec, tile, first):
        self.spec, self.tile = spec, tile
        self.columns = slice(first, first + tile.in_size)
        self.value, self.count = None, None
        if tile.input_range is not None:
            self.value = self.seen()
            self.count = 0.0
        self.forget()

    def forget(self):
        """The gradient is discarded."""
        self.grad, self.size = None, 0.0

    def get(self, key):
        return getattr(self.tile.rpu_config.pre_post.input_range, key)

    @property
    def learned(self):
        return self.value is not None and self.get("learn_input_range")

    def seen(self):
        return float(self.tile.input_range.detach().reshape(-1)[0])


class Net:
    """The layers, chained, with the tensors between them kept."""

    def __init__(self, scn):
        import torch
        from aihwkit.nn import AnalogLinearMapped
        modules = []
        for k, spec in enumerate(scn["layers"]):
            engine.seed_all(core.derive(scn["seed"], "build", k), engine.MODE_SEEDED)
            modules.append(AnalogLinearMapped(spec["in"], spec["out"], bias=spec.get("bias", False), rpu_config=make_config(spec)))
        self.net = torch.nn.Sequential(*modules)

    def tiles(self, scn):
        out = []
        for spec, module in zip(scn["layers"], self.net):
            first, mine = 0, []
            for tile in module.analog_tiles():
                mine.append(Tile(spec, tile, first))
                first += tile.in_size
            out.append(mine)
        return out

    def forward(self, x):
        between = [x]
        for module in self.net:
            x = module(x)
            if x.requires_grad and not x.is_leaf:
                x.retain_grad()
            between.append(x)
        return between


def optimizer(net):
    from aihwkit.optim import AnalogSGD
    opt = AnalogSGD(net.parameters(), lr=0.1)
    opt.regroup_param_groups(net)
    return opt


def data(scn, i, spec, n_in):
    import torch
    g = torch.Generator().manual_seed(core.derive(scn["seed"], "data", i) & 0x7FFFFFFF)
    n = spec.get("n", 2)
    shape = (n, 2, n_in) if spec.get("kind") == "three" else (n, n_in)
    x = torch.randn(shape, generator=g) * spec.get("amp", 1.0)
    if spec.get("kind") == "zero":
        x = x * 0.0
    elif spec.get("kind") == "const":
        x = torch.full(shape, spec.get("amp", 1.0))
    elif spec.get("kind") == "signs":
        x = x.sign() * spec.get("amp", 1.0)
    elif spec.get("kind") == "negative":
        x = -x.abs()
    elif spec.get("kind") == "mirror" and n_in > 1:
        x[..., n_in // 2:2 * (n_in // 2)] = -x[..., :n_in // 2]
        x[..., 2 * (n_in // 2):] = 0.0
    elif spec.get("kind") == "nan":
        x.view(-1)[0] = float("nan")
    return x


def weights(module):
    w, b = module.get_weights()
    return w.detach().double(), None if b is None else b.detach().double()


def close(ctx, a, b, size, kind, where):
    ctx.require(abs(a - b) <= TOL * (abs(b) + size) + 1e-9, kind, lambda: f"{where}: {a} instead of {b}")


def averaged(ctx, tile, x, where):
    """The range after a training pass with ``x``."""
    if tile.value is None:
        return
    tile.value = abs(tile.value)
    if tile.count < tile.get("init_from_data"):
        std = float(x.std()) if x.numel() > 1 else float("nan")
        if std > 0.0:
            tile.value = (tile.value * tile.count + tile.get("init_std_alpha") * std) / (tile.count + 1)
            tile.count += 1
            ctx.probe("averaged")
    now = tile.seen()
    close(ctx, now, tile.value, 0.0, "wrong-range", where)
    close(ctx, float(tile.tile.input_range_update_idx), tile.count, 0.0, "wrong-count", where)
    tile.value = now


def unchanged(ctx, tiles, where):
    for k, mine in enumerate(tiles):
        for tile in mine:
            if tile.value is None:
                ctx.require(tile.tile.input_range is None, "range-appeared", where)
                continue
            ctx.require(abs(tile.seen()) == abs(tile.value), "range-changed", lambda t=tile, k=k: f"{where}, layer {k}: {t.seen()} instead of {t.value}")
            ctx.require(float(tile.tile.input_range_update_idx) == tile.count, "count-changed", lambda k=k: f"{where}, layer {k}")


def outcome(spec, module, mine, x):
    """The outputs of a layer without noise (None with noise) and the share of each output of each tile which passes."""
    import torch
    io = spec.get("io", "perfect") if spec.get("cls") != "FloatingPointRPUConfig" else "perfect"
    if io == "noisy" or spec.get("cls") == "SingleRPUConfig" and io == "noisy":
        return None, None
    w, b = weights(module)
    y, passes = 0.0, []
    for tile in mine:
        wt, xt = w[:, tile.columns], x[..., tile.columns].double()
        r = 1.0
        if tile.value is not None:
            r = abs(tile.value)
            xt = xt.clamp(-r, r)
        s = tile.tile.get_scales()
        s = torch.ones(w.shape[0], dtype=torch.float64) if s is None else s.detach().double().view(-1)
        if io == "bound":
            raw = (xt / r).clamp(-1.0, 1.0) @ (wt / s.view(-1, 1)).T
            bound = spec.get("bound", 0.6)
            passes.append((raw.abs(), bound))
            y = y + raw.clamp(-bound, bound) * s * r
        else:
            passes.append(None)
            y = y + xt @ wt.T
            if io == "managed" and max(1.0, float((xt.abs() / r).amax())) * float((wt / s.view(-1, 1)).abs().sum(1).amax()) > 20 * spec.get("bound", 0.6):
                return None, None   # (the management gives up at some point)
    return (y if b is None else y + b), passes


def clear(passes):
    """Whether it is certain which outputs are clipped (gradients stop short of the bound)."""
    return all(p is None or not bool(((p[0] > 0.998 * p[1]) & (p[0] < 1.001 * p[1])).any()) for p in passes)


def check_outputs(ctx, scn, net, tiles, between, where):
    """All outputs, and what passes."""
    shares = []
    for k, (spec, mine) in enumerate(zip(scn["layers"], tiles)):
        x = between[k].detach()
        y, passes = outcome(spec, net.net[k], mine, x)
        shares.append(passes)
        if y is None or bool(x.isnan().any()):
            continue
        got = between[k + 1].detach().double()
        size = float(x.abs().max()) * x.shape[-1] + 1.0
        ctx.require(bool(((got - y).abs() <= TOL * (size + y.abs())).all()), "wrong-output", lambda k=k, y=y, got=got:
                    f"{where}, layer {k}: {got.tolist()} instead of {y.tolist()}")
    return shares


def check_gradients(ctx, scn, net, tiles, between, shares, where):
    """The gradients of the inputs and what they add to those of the ranges."""
    # pylint: disable=too-many-locals,too-many-branches
    import torch
    for k, (spec, mine) in enumerate(zip(scn["layers"], tiles)):
        if between[k].grad is None or between[k + 1].grad is None:
            continue
        x = between[k].detach()
        torchlike = spec.get("cls") == "TorchInferenceRPUConfig"
        d_out = between[k + 1].grad.detach().double()
        d_seen = between[k].grad.detach().double()
        w, _ = weights(net.net[k])
        sure = shares[k] is not None and clear(shares[k])
        for n, tile in enumerate(mine):
            xt, dt = x[..., tile.columns], d_seen[..., tile.columns]
            stopped = None
            d_tile = d_out
            if shares[k] is not None and shares[k][n] is not None:
                raw, bound = shares[k][n]
                stopped = raw >= 0.999 * bound
                d_tile = torch.where(stopped, torch.zeros_like(d_out), d_out)
            ideal = d_tile @ w[:, tile.columns]
            size = float(d_out.abs().max()) * (float(w.abs().max()) + 1e-6) * w.shape[0]
            if torchlike:
                inside = torch.ones_like(xt, dtype=torch.bool) if tile.value is None else xt.abs() <= abs(tile.value)
                ideal_in = torch.where(inside, ideal, torch.zeros_like(ideal))
            else:
                ideal_in = ideal
            perfect = torchlike or spec.get("cls") == "FloatingPointRPUConfig" or spec.get("perfect_back", True)
            if sure and perfect:
                ctx.require(bool(((dt - ideal_in).abs() <= TOL * (size + ideal_in.abs())).all()), "wrong-input-gradient",
                            lambda k=k, dt=dt, e=ideal_in: f"{where}, layer {k}: {dt.tolist()} instead of {e.tolist()}")
                ctx.probe("input gradient")
            if tile.value is None or not tile.learned:
                continue
            r = abs(tile.value)
            d = ideal if torchlike else dt
            add = float(d[xt >= r].clamp(max=0.0).sum()) - float(d[xt <= -r].clamp(min=0.0).sum())
            size = float(d.abs().sum()) * 1e-1
            if torchlike:   # (the division and the multiplication by the range cancel)
                size = float(d_out.abs().sum()) * (float(w.abs().sum()) + 1e-3) * max(1.0, 1.0 / r)
            if tile.get("gradient_relative"):
                add, size = add * r, size * r
            add, size = add * tile.get("gradient_scale"), size * max(1.0, tile.get("gradient_scale"))
            if tile.get("manage_output_clipping"):
                if not sure or stopped is None:
                    tile.size = float("inf")
                    continue
                share = 1.0 - float(stopped.double().mean())
                if share < tile.get("output_min_percentage"):
                    add -= (1.0 - share) * r
                    ctx.probe("outputs clipped")
            if tile.get("decay") > 0 and float((xt.abs() < r).double().mean()) > tile.get("input_min_percentage"):
                add += tile.get("decay") * r
                ctx.probe("decayed")
            tile.grad = (tile.grad or 0.0) + add
            tile.size += size + abs(add)
    for k, mine in enumerate(tiles):
        for tile in mine:
            if not tile.learned or tile.size == float("inf"):
                continue
            g = tile.tile.input_range.grad
            ctx.require((g is None) == (tile.grad is None), "range-gradient", lambda k=k, g=g, t=tile: f"{where}, layer {k}: {g} instead of {t.grad}")
            if g is not None:
                close(ctx, float(g), tile.grad, tile.size, "wrong-range-gradient", f"{where}, layer {k}")


def execute(scn, ctx):
    # pylint: disable=too-many-branches,too-many-statements,too-many-locals
    import torch
    net = Net(scn)
    tiles = net.tiles(scn)
    opt = optimizer(net.net)
    for spec, mine in zip(scn["layers"], tiles):
        for tile in mine:
            enabled = spec.get("ir", {}).get("enable", False)
            ctx.require((tile.value is not None) == enabled, "range-not-enabled", "construction")
            if enabled:
                close(ctx, tile.value, spec["ir"].get("init_value", 3.0), 0.0, "wrong-start", "construction")
    pending = []
    for i, op in enumerate(scn["ops"]):
        where = f"operation {i} {op}"
        engine.seed_all(core.derive(scn["seed"], "op", i), engine.MODE_STREAM)
        kind = op["op"]
        ctx.log(kind, op.get("end", ""))
        if kind == "batch":
            batch(ctx, scn, net, tiles, opt, op, i, pending, where)
        elif kind == "eval":
            net.net.eval()
            x = data(scn, i, op.get("data", {}), scn["layers"][0]["in"]).requires_grad_(True)
            between = net.forward(x)
            unchanged(ctx, tiles, where)
            shares = check_outputs(ctx, scn, net, tiles, between, where)
            if op.get("grad") and not bool(x.isnan().any()):
                between[-1].sum().backward()
                pending.append(None)
                check_gradients(ctx, scn, net, tiles, between, shares, where)
            ctx.probe("evaluated")
        elif kind == "range":
            for tile in tiles[op["m"] % len(tiles)]:
                if tile.value is not None:
                    v = op.get("v", 1.7)
                    tile.tile.set_input_range(torch.tensor([v]) if op.get("tensor") else v)
                    close(ctx, tile.seen(), abs(v), 0.0, "range-not-set", where)
                    tile.value = tile.seen()
        elif kind == "copy":
            net, tiles, opt, pending = moved(ctx, scn, net, tiles, opt, pending, op, i, where)
        unchanged(ctx, tiles, where)
        ctx.state([[t.value, t.count] for mine in tiles for t in mine])
        ctx.step()


def drop(opt, tiles, pending):
    """The gathered gradients are discarded."""
    opt.zero_grad()
    for mine in tiles:
        for tile in mine:
            tile.forget()
            tile.tile.analog_ctx.reset()
    pending.clear()


def batch(ctx, scn, net, tiles, opt, op, i, pending, where):
    net.net.train()
    end = op.get("end", "step")
    spec = op.get("data", {})
    x = data(scn, i, spec, scn["layers"][0]["in"]).requires_grad_(True)
    between = net.forward(x)
    for k, mine in enumerate(tiles):
        for tile in mine:
            averaged(ctx, tile, between[k].detach()[..., tile.columns], f"{where}, layer {k}")
    shares = check_outputs(ctx, scn, net, tiles, between, where)
    if bool(x.isnan().any()) or end in ("forward", "boom"):
        ctx.fault("not a number" if end not in ("forward", "boom") else "abandoned pass")
        return
    g = torch_generator(scn, i)
    import torch
    d = torch.randn(between[-1].shape, generator=g) * op.get("d", 1.0)
    between[-1].retain_grad()
    between[-1].backward(d)
    pending.append([(b.detach().clone(), a.grad.detach().clone() if a.grad is not None else None) for b, a in zip(between, between[1:])])
    check_gradients(ctx, scn, net, tiles, between, shares, where)
    unchanged(ctx, tiles, where)
    if end == "accumulate":
        return
    if end == "discard":
        ctx.fault("gradients discarded")
        drop(opt, tiles, pending)
        return
    step(ctx, scn, net, tiles, opt, op, pending, where)


def torch_generator(scn, i):
    import torch
    return torch.Generator().manual_seed(core.derive(scn["seed"], "grad", i) & 0x7FFFFFFF)


def step(ctx, scn, net, tiles, opt, op, pending, where):
    lr = op.get("lr", 0.1)
    for group in opt.param_groups:
        group["lr"] = lr
    before = [weights(module)[0] for module in net.net]
    old = [[t.value for t in mine] for mine in tiles]
    opt.step()
    for k, mine in enumerate(tiles):
        for tile in mine:
            if tile.value is None:
                continue
            expected = tile.value - lr * (tile.grad or 0.0) if tile.learned else tile.value
            now = tile.seen()
            if tile.size != float("inf"):
                close(ctx, abs(now), abs(expected), lr * tile.size, "wrong-step", f"{where}, layer {k}")
            if expected < 0.0:
                ctx.probe("overshot")
            tile.value = now
    if len(pending) == 1 and pending[0] is not None:
        check_update(ctx, scn, net, tiles, before, old, pending[0], lr, where)
    drop(opt, tiles, pending)


def check_update(ctx, scn, net, tiles, before, old, seen, lr, where):
    """The weights learn from the inputs as clipped."""
    for k, (spec, mine) in enumerate(zip(scn["layers"], tiles)):
        if spec.get("cls") == "SingleRPUConfig" or seen[k][1] is None:
            continue
        w, _ = weights(net.net[k])
        x, d = seen[k]
        d = d.double().reshape(-1, d.shape[-1])
        for tile, r_old in zip(mine, old[k]):
            xt = x[..., tile.columns].double().reshape(d.shape[0], -1)
            if tile.value is not None:
                r = abs(r_old)
                if spec.get("cls") == "FloatingPointRPUConfig" and abs(tile.value) != r:
                    continue    # (deferred updates see the range of after the step)
                xt = xt.clamp(-r, r)
                if spec.get("cls") != "TorchInferenceRPUConfig":
                    xt = xt / r
            change = -lr * d.T @ xt
            got = (w - before[k])[:, tile.columns]
            size = lr * float(d.abs().sum()) * (float(xt.abs().max()) + 1e-3) + float(before[k].abs().max()) * 1e-2
            ctx.require(bool(((got - change).abs() <= TOL * size + 1e-6).all()), "wrong-update", lambda k=k, g=got, c=change:
                        f"{where}, layer {k}: weights changed by {g.tolist()} instead of {c.tolist()}")
            ctx.probe("update checked")


def moved(ctx, scn, net, tiles, opt, pending, op, i, where):
    """A copy, or a new process which loads the checkpoint."""
    import copy
    import io
    import pickle
    import torch
    drop(opt, tiles, pending)
    ctx.fault("crash and restart" if op.get("how") == "restart" else "copy")
    if op.get("how") == "restart":
        blob = io.BytesIO()
        torch.save(net.net.state_dict(), blob)
        blob.seek(0)
        new = Net(scn)
        engine.seed_all(core.derive(scn["seed"], "restarted", i), engine.MODE_STREAM)
        new.net.load_state_dict(torch.load(blob, weights_only=False))
    else:
        new = Net.__new__(Net)
        new.net = pickle.loads(pickle.dumps(net.net)) if op.get("how") == "pickle" else copy.deepcopy(net.net)
    now = new.tiles(scn)
    for mine, theirs in zip(tiles, now):
        for tile, other in zip(mine, theirs):
            other.value, other.count = tile.value, tile.count
            if tile.value is not None:
                ctx.require(other.tile.input_range is not None and other.seen() == tile.seen(), "range-lost", lambda o=other, t=tile:
                            f"{where}: {o.tile.input_range} instead of {t.value}")
                other.value = other.seen()
    return new, now, optimizer(new.net), []
