"""C04: at every moment the weights a tile reports, the weights it computes with and the views on them are the same, and
refused writes change nothing."""
from sim import core, engine, zoo

PID = "C04"
FAMS = ["single", "float", "inference", "torch", "custom", "quant", "vector", "transfer", "mixed", "single", "reference",
        "onesided", "chopped", "inference", "torchtransfer", "dynamic"]
WRITES = ["add_", "data.add_", "item", "data.item", "replace", "out", "zero_", "copy_", "data.mul_", "iadd"]
ALIASES = ["init", "detach", "view", "foreach", "numpy", "rows", "transpose", "data.view", "init-data"]
BAD = ["weight-rows", "weight-cols", "bias-size", "empty"]


def gen(rng, tier, index):
    fam = FAMS[index % len(FAMS)]
    cfg = zoo.gen_config(rng, fam)
    f = cfg["f"]
    # perfect computation in forward direction, so that the output tells the weights
    if fam not in ("float",):
        f["forward"] = {"f": {"is_perfect": True}}
    if fam == "quant":
        f["pre_post"]["f"]["periph_quant"]["f"]["n_bits"] = 0
        f["pre_post"]["f"].pop("input_range", None)
    else:
        f.pop("pre_post", None)
    if fam in zoo.INFERENCE and zoo.maybe(rng, 0.5):
        f.pop("clip", None)
    kinds = ["linear", "mapped", "conv1d", "conv2d", "conv2dmapped", "linear"]
    if fam in ("custom", "quant", "torchtransfer"):
        kinds = ["linear", "mapped"]
    model = zoo.gen_model(rng, fam, kinds)
    ops = []
    for _ in range(rng.randrange(4, 12 if tier == "quick" else 24)):
        r = rng.random()
        if r < 0.28:
            ops.append({"op": "set", "amp": zoo.pick(rng, 0.2, 0.5, 2.0), "scaling": rng.random() < 0.7,
                        "omega": zoo.pick(rng, None, None, 0.5, 1.0), "level": zoo.pick(rng, "tile", "layer"),
                        "zero_row": rng.random() < 0.2})
        elif r < 0.36:
            ops.append({"op": zoo.pick(rng, "scales", "mapping-scales", "learned-scales"),
                        "v": zoo.pick(rng, 0.5, 2.0), "vec": rng.random() < 0.5})
        elif r < 0.42:
            ops.append({"op": "remap", "omega": zoo.pick(rng, None, 0.5, 1.0)})
        elif r < 0.55:
            ops.append({"op": "train", "n": rng.randrange(1, 3)})
        elif r < 0.67:
            ops.append({"op": "mode", "v": zoo.pick(rng, "placeholder", "data_view", "buffer")})
        elif r < 0.82:
            ops.append({"op": "write", "how": rng.choice(WRITES + ALIASES)})
        elif r < 0.92:
            ops.append({"op": "bad", "how": rng.choice(BAD), "bias": rng.random() < 0.5})
        else:
            ops.append({"op": zoo.pick(rng, "reload", "deepcopy", "eval", "noop")})
        ops[-1]["tile"] = rng.randrange(8)
    return {"seed": rng.getrandbits(32), "family": fam, "config": cfg, "model": model, "ops": ops,
            "opt": zoo.pick(rng, "sgd", "sgdm", "adam"), "lr": 0.1}


def exact_setting(scn, tile):
    """Whether setting weights puts exactly these (or the bounds) into the device."""
    fam = scn["family"]
    if fam in ("float", "inference", "torch", "custom", "quant"):
        return True
    if fam == "single":
        dev = scn["config"]["f"]["device"]
        return "Reference" not in dev["cls"] and not dev["f"].get("write_noise_std")
    return False


class TileModel:
    """The reference: raw weights, scales and bias as the documentation describes them."""

    def __init__(self, tile):
        self.sync(tile)

    def sync(self, tile):
        w, b = tile.get_weights(apply_weight_scaling=False)
        self.raw = w.clone()
        self.bias = None if b is None else b.clone()
        self.mapping = clone(tile.get_mapping_scales())
        self.learned = clone(tile.get_learned_out_scales())

    def scales(self, n):
        import torch
        if self.mapping is None and self.learned is None:
            return None
        out = torch.ones(n)
        for s in (self.mapping, self.learned):
            if s is not None:
                out = out * s.view(-1)
        return out

    def logical(self):
        import torch
        s = self.scales(self.raw.shape[0])
        return self.raw if s is None else self.raw * s.view(-1, 1), s if s is not None else torch.ones(self.raw.shape[0])

    def set_scales(self, v):
        self.set_mapping(v)
        if self.learned is not None:
            self.learned = self.learned * 0 + 1.0

    def set_mapping(self, v):
        import torch
        v = torch.as_tensor(v, dtype=torch.float32).view(-1)
        if self.mapping is not None and v.numel() == 1:
            v = v.expand(self.mapping.numel())
        self.mapping = v.clone()


def clone(t):
    return None if t is None else t.detach().clone().view(-1)


def close(a, b, tol=2e-6):
    import torch
    return a.shape == b.shape and bool(((a == b) | (torch.isnan(a) & torch.isnan(b)) |
                                        (torch.abs(a - b) <= tol * (1.0 + torch.abs(b)))).all())


def expected_output(job, scn, x, w, b):
    import torch.nn.functional as F
    kind = scn["model"]["kind"]
    layer = job.model[0]
    if kind in ("linear", "mapped"):
        return F.linear(x, w, b)
    if kind == "conv1d":
        return F.conv1d(x, w.view(layer.out_channels, layer.in_channels, *layer.kernel_size), b)
    return F.conv2d(x, w.view(layer.out_channels, layer.in_channels, *layer.kernel_size), b)


def audit(job, scn, models, ctx, where):
    """All views on the weights agree with each other and with the reference."""
    import torch
    before = job.observe()
    for k, (name, tile) in enumerate(job.tiles()):
        m = models[k]
        raw, rawb = tile.get_weights(apply_weight_scaling=False)
        log, b = tile.get_weights()
        ctx.require(core.first_difference(m.raw, raw) is None, "weights-changed", lambda: f"{where}: raw weights of {name}: "
                    f"{core.first_difference(m.raw, raw)}")
        want, scale = m.logical()
        ctx.require(close(log, want), "scaled-weights-inconsistent", lambda: f"{where}: logical weights of {name} are not raw "
                    f"weights times scales: {core.first_difference(want, log, tol=2e-6)} (scales {scale.tolist()})")
        have = tile.get_scales()
        ctx.require((have is None) == (m.scales(1 if m.mapping is None else m.mapping.numel()) is None) and
                    (have is None or close(have.detach().view(-1).expand(scale.numel()) if have.numel() == 1 else
                                           have.detach().view(-1), scale)),
                    "scales-changed", lambda: f"{where}: scales of {name}: {scale.tolist()} expected, "
                    f"{None if have is None else have.tolist()} found")
        if m.bias is not None:
            want_b = m.bias * scale if not tile.digital_bias else m.bias
            ctx.require(close(b, want_b), "bias-inconsistent", lambda: f"{where}: bias of {name}: "
                        f"{core.first_difference(want_b, b, tol=2e-6)}")
        actx = tile.analog_ctx
        mode = actx.data_view_mode
        ctx.require(tuple(actx.shape) == tuple(log.shape) and tuple(actx.size()) == tuple(log.shape), "view-shape",
                    lambda: f"{where}: parameter shape {tuple(actx.shape)}, weights {tuple(log.shape)}")
        if mode.value == "buffer":
            got = actx.data.clone()
            ctx.require(core.first_difference(m.buffer, got) is None, "buffer-changed", lambda: f"{where}: the buffer of "
                        f"{name}: {core.first_difference(m.buffer, got)}")
        else:
            # read through the diagnostic view
            actx.enable_data_view()
            got = actx.data.clone()
            norm = float(actx.norm())
            actx.data_view_mode = mode
            ctx.require(close(got.as_subclass(torch.Tensor), log), "view-inconsistent", lambda: f"{where}: the view of {name} "
                        f"shows other weights than reported: {core.first_difference(log, got.as_subclass(torch.Tensor), tol=2e-6)}")
            ctx.require(norm != norm or abs(norm - float(log.norm())) <= 1e-4 * (1 + norm), "view-inconsistent", f"{where}: norm {norm} "
                        f"of {name} against {float(log.norm())}")
        if mode.value == "placeholder":
            refused = 0
            for read in (lambda: actx.norm(), lambda: actx + 1.0, lambda: actx.get_data(), lambda: actx.data.sum(),
                         lambda: actx.T):
                try:
                    read()
                except RuntimeError:
                    refused += 1
            ctx.require(refused == 5, "placeholder-readable", f"{where}: {5 - refused} of 5 reads of the placeholder of "
                        f"{name} gave values")
    # computation
    layer = job.model[0]
    w, b = layer.get_weights()
    training = job.model.training
    job.model.eval()
    x = job.data()
    with torch.no_grad():
        y = layer(x)
    job.model.train(training)
    want = expected_output(job, scn, x, w, b)
    ctx.require(close(y, want, 2e-4), "computes-with-other-weights", lambda: f"{where}: output with the reported weights "
                f"against output of the layer: {core.first_difference(want, y, tol=2e-4)}")
    after = job.observe()
    ctx.require(core.first_difference(before, after) is None, "reading-changes-state", lambda: f"{where}: reading weights and "
                f"computing in evaluation mode changed: {core.first_difference(before, after)}")


def set_model(m, tile, weight, bias, scaling, omega, mapping, exact, ctx):
    """The reference of set_weights; returns nothing, updates m."""
    import torch
    raw = weight.clone()
    digital = tile.digital_bias
    rawb = None if bias is None or m.bias is None else bias.clone()
    if scaling and mapping is not None:
        om = mapping.weight_scaling_omega if omega is None else omega
        if om:
            full = raw if digital or rawb is None else torch.cat([raw, rawb.view(-1, 1)], 1)
            top = full.abs().max(1, keepdim=True)[0] if mapping.weight_scaling_columnwise else full.abs().max().view(1, 1)
            alpha = top / om
            alpha[alpha == 0.0] = 1.0
            raw = raw / alpha
            if rawb is not None and not digital:
                rawb = rawb / alpha.view(-1)
            m.set_scales(alpha)
    if not exact:
        return False
    hidden = tile.get_hidden_parameters()
    if "max_bound" in hidden:
        n = raw.shape[1]
        raw = raw.minimum(hidden["max_bound"][:, :n]).maximum(hidden["min_bound"][:, :n])
        if rawb is not None and not digital:
            rawb = rawb.minimum(hidden["max_bound"][:, n]).maximum(hidden["min_bound"][:, n])
    m.raw, m.bias = raw, rawb if rawb is not None else m.bias
    return True


def execute(scn, ctx):
    # pylint: disable=too-many-branches,too-many-statements,too-many-locals
    import copy
    import torch
    from sim.props.c02 import adopt
    from sim.train import Job
    job = Job(scn, core.derive(scn["seed"], "construct"))
    job.build_optimizer()
    models = [TileModel(t) for _, t in job.tiles()]
    for m, (_, t) in zip(models, job.tiles()):
        m.buffer = None
    audit(job, scn, models, ctx, "after construction")
    for i, op in enumerate(scn["ops"]):
        job.op_seed(i)
        kind = op["op"]
        tiles = [t for _, t in job.tiles()]
        k = op["tile"] % len(tiles)
        tile, m = tiles[k], models[k]
        actx = tile.analog_ctx
        mapping = getattr(tile.rpu_config, "mapping", None)
        where = f"operation {i} {op}"
        ctx.step()
        if kind == "set":
            if op["level"] == "tile":
                w, b = tile.get_weights()
            else:
                w, b = job.model[0].get_weights()
            w = (torch.rand(w.shape) - 0.5) * op["amp"]
            if op["zero_row"]:
                w[0] = 0.0
            b = None if b is None else (torch.rand(b.shape) - 0.5) * op["amp"]
            kw = {"apply_weight_scaling": op["scaling"], "weight_scaling_omega": op["omega"]}
            given = w.clone()
            (tile if op["level"] == "tile" else job.model[0]).set_weights(w, b, **kw)
            ctx.require(core.first_difference(given, w) is None, "input-modified", f"{where}: the given weights changed")
            if op["level"] == "tile":
                parts = [(tile, m, w, b)]
            else:
                parts = split(job.model[0], tiles, models, w, b)
            for t, tm, pw, pb in parts:
                if not set_model(tm, t, pw, pb, op["scaling"], op["omega"], mapping, exact_setting(scn, t), ctx):
                    mp, ln = tm.mapping, tm.learned
                    tm.sync(t)
                    if t.get_mapping_scales() is not None or mp is not None:
                        tm.mapping, tm.learned = mp, ln  # the scales are known all the same
                else:
                    now, nb = t.get_weights(apply_weight_scaling=False)
                    ctx.require(close(now, tm.raw), "set-and-get-differ", lambda: f"{where}: expected against reported raw "
                                f"weights: {core.first_difference(tm.raw, now, tol=2e-6)}")
                    tm.raw = now.clone()
                    if tm.bias is not None:
                        ctx.require(close(nb, tm.bias), "set-and-get-differ", lambda: f"{where}: expected against reported "
                                    f"bias: {core.first_difference(tm.bias, nb, tol=2e-6)}")
                        tm.bias = nb.clone()
                    ctx.probe("exact-set")
        elif kind in ("scales", "mapping-scales", "learned-scales"):
            if mapping is None:
                continue
            v = op["v"]
            if op["vec"] and (kind != "learned-scales" or (m.learned is not None and m.learned.numel() > 1)):
                v = torch.rand(tile.out_size) + v
            if kind == "scales":
                tile.set_scales(v)
                m.set_scales(v)
            elif kind == "mapping-scales":
                tile.set_mapping_scales(v)
                m.set_mapping(v)
            else:
                tile.set_learned_out_scales(v)
                if m.learned is not None:
                    m.learned = m.learned * 0 + torch.as_tensor(v)
        elif kind == "remap":
            if exact_setting(scn, tile):
                w, b = tile.get_weights()
                tile.remap_weights(weight_scaling_omega=op["omega"])
                set_model(m, tile, w, b, True, op["omega"], mapping, True, ctx)
                now, nb = tile.get_weights(apply_weight_scaling=False)
                ctx.require(close(now, m.raw, 1e-5), "remap-changes-weights", lambda: f"{where}: expected against raw weights: "
                            f"{core.first_difference(m.raw, now, tol=1e-5)}")
                m.raw, m.bias = now.clone(), None if nb is None else nb.clone()
        elif kind in ("train", "eval"):
            try:
                job.apply(i, op)
            except RuntimeError as exc:
                ctx.log("rejected", str(exc)[:60])
            for m2, t in zip(models, tiles):
                m2.sync(t)
                if t.analog_ctx.data_view_mode.value == "buffer":
                    m2.buffer = t.analog_ctx.data.clone()
        elif kind == "mode":
            actx.data_view_mode = op["v"]
            if op["v"] == "buffer":
                m.buffer = actx.data.clone()
                ctx.require(not bool(m.buffer.any()), "buffer-changed", f"{where}: a new buffer is not zero")
        elif kind == "write":
            ctx.fault("direct-write")
            write(actx, op["how"], m, ctx, where)
        elif kind == "bad":
            w, b = tile.get_weights()
            bad_w, bad_b = torch.rand(w.shape), None if b is None else torch.rand(b.shape)
            if op["how"] == "weight-rows":
                bad_w = torch.rand(w.shape[0] + 1, w.shape[1])
            elif op["how"] == "weight-cols":
                bad_w = torch.rand(w.shape[0], w.shape[1] + 2)
            elif op["how"] == "empty":
                bad_w = torch.rand(0, w.shape[1])
            elif b is None:
                continue
            else:
                bad_b = torch.rand(b.shape[0] + 1)
            ctx.fault("rejected-write")
            try:
                tile.set_weights(bad_w, bad_b)
            except Exception as exc:  # pylint: disable=broad-except
                ctx.log("refused", type(exc).__name__)
            else:
                ctx.require(False, "bad-shape-accepted", f"{where}: weights {tuple(bad_w.shape)} were set on a tile of "
                            f"{tuple(w.shape)}")
        elif kind == "reload":
            modes = [t.analog_ctx.data_view_mode for t in tiles]
            job.model.load_state_dict(copy.deepcopy(job.model.state_dict()))
            for m2, (_, t), mode in zip(models, job.tiles(), modes):
                if scn["family"] not in ("float", "inference", "torch", "custom", "quant"):
                    m2.sync(t)  # what exactly is restored is another property
                if t.analog_ctx.data_view_mode.value == "buffer":
                    m2.buffer = t.analog_ctx.data.clone()
        elif kind == "deepcopy":
            job = adopt(job, copy.deepcopy(job.model))
            for m2, (_, t) in zip(models, job.tiles()):
                if scn["family"] not in ("float", "inference", "torch", "custom", "quant"):
                    m2.sync(t)
                if t.analog_ctx.data_view_mode.value == "buffer":
                    m2.buffer = t.analog_ctx.data.clone()
        engine.seed_all(core.derive(scn["seed"], "audit", i), engine.MODE_STREAM)
        audit(job, scn, models, ctx, where)
        ctx.state(job.observe())


def split(layer, tiles, models, w, b):
    """The parts of a layer's weights each of its tiles gets."""
    arr = getattr(layer, "analog_module", layer)
    if len(tiles) == 1 and not hasattr(arr, "array"):
        return [(tiles[0], models[0], w.reshape(tiles[0].out_size, -1), b)]
    out, col, n = [], 0, 0
    for row in arr.array:
        start = 0
        for t in row:
            part = w.reshape(w.shape[0], -1)[start:start + t.out_size, col:col + t.in_size]
            m = models[[x is t for x in tiles].index(True)]
            out.append((t, m, part, None))
            start += t.out_size
            n += 1
        col += row[0].in_size
    return out


def write(actx, how, m, ctx, where):
    """A direct write to the parameter: refused unless it is a digital buffer, in which case it is all that changes."""
    import torch
    buffered = actx.data_view_mode.value == "buffer"
    one = torch.ones(tuple(actx.shape))
    try:
        if how == "add_":
            actx.add_(1.0)
        elif how == "data.add_":
            actx.data.add_(1.0)
        elif how == "data.mul_":
            actx.data.mul_(3.0)
        elif how == "item":
            actx[0, 0] = 9.0
        elif how == "data.item":
            actx.data[0, 0] = 9.0
        elif how == "replace":
            actx.data = one
        elif how == "out":
            torch.add(one, one, out=actx)
        elif how == "zero_":
            actx.zero_()
        elif how == "copy_":
            actx.copy_(one)
        elif how == "init":
            torch.nn.init.constant_(actx, 4.0)
        elif how == "iadd":
            actx += 1.0
        elif how == "detach":
            actx.detach().add_(1.0)
        elif how == "view":
            actx.view(-1).mul_(2.0)
        elif how == "data.view":
            actx.data.view(-1).mul_(2.0)
        elif how == "foreach":
            torch._foreach_add_([actx], 1.0)  # pylint: disable=protected-access
        elif how == "numpy":
            actx.data.numpy().fill(3.0)
        elif how == "rows":
            for row in actx:
                row.add_(1.0)
        elif how == "transpose":
            actx.T.add_(1.0)
        elif how == "init-data":
            torch.nn.init.normal_(actx.data)
    except (RuntimeError, TypeError) as exc:
        ctx.log("refused", how, type(exc).__name__)
        return
    except NotImplementedError as exc:
        ctx.log("refused", how, str(exc)[:30])
        return
    # what an alias of the view is written with may be accepted, but must not reach the tile (see the audit)
    ctx.require(buffered or how in ALIASES, "direct-write-accepted", f"{where}: a direct write was accepted")
    if not buffered:
        return
    m.buffer = actx.data.clone()
    ctx.probe("buffer-write")
