"""C05: every gradient recorded by a backward pass is applied exactly once, by the next optimizer step, whatever the schedule of
forward passes, backward passes, failures, learning rates and frozen layers."""
from sim import core, engine, zoo

PID = "C05"
FAMS = ["float", "single", "custom", "inference", "torch", "float", "single", "ideal"]
TOL = 2e-4


class Boom(Exception):
    """An error in the user's part of the network."""


def gen(rng, tier, index):
    fam = FAMS[index % len(FAMS)]
    perfect = {"forward": {"f": {"is_perfect": True}}, "backward": {"f": {"is_perfect": True}}}
    mapping = zoo.gen_mapping(rng, inference=fam in ("inference", "torch"))
    mf = mapping["f"]
    if fam in ("torch", "inference", "custom", "float"):
        mf.pop("weight_scaling_lr_compensation", None)
    if fam in ("custom", "torch"):
        mf.pop("digital_bias", None)
    f = {"mapping": mapping}
    if zoo.maybe(rng, 0.25):
        f["runtime"] = {"f": {"offload_input": rng.random() < 0.5, "offload_gradient": rng.random() < 0.5}}
    if fam == "float":
        cfg = {"cls": "FloatingPointRPUConfig", "f": f}
    elif fam == "custom":
        cfg = {"cls": "CustomRPUConfig", "f": dict(f, forward=perfect["forward"], backward=perfect["backward"])}
    elif fam in ("single", "ideal"):
        dev = {"cls": "IdealDevice", "f": {}} if fam == "ideal" else \
            {"cls": zoo.pick(rng, "ConstantStepDevice", "LinearStepDevice"), "f": {"w_max": 50.0, "w_min": -50.0, "w_max_dtod": 0.0,
                                                                                   "w_min_dtod": 0.0}}
        cfg = {"cls": "SingleRPUConfig", "f": dict(f, device=dev, update={"f": {"pulse_type": "PulseType.NONE"}}, **perfect)}
    else:
        cfg = {"cls": {"inference": "InferenceRPUConfig", "torch": "TorchInferenceRPUConfig"}[fam], "f": dict(f, **perfect)}
        cfg["f"]["drift_compensation"] = None
    kinds = ["linear", "linear", "linear", "mapped"]
    if fam in ("float", "single", "ideal", "inference"):
        kinds += ["conv", "convmapped"]
    if fam == "torch":
        kinds += ["conv"]
    first = zoo.pick(rng, *kinds)
    net = {"first": first, "in": rng.randrange(2, 6), "hidden": rng.randrange(2, 5), "out": rng.randrange(1, 4),
           "bias": [rng.random() < 0.6 for _ in range(3)], "shared": rng.random() < 0.3, "digital": rng.random() < 0.3}
    shapes = ["2d", "2d", "3d", "1d", "transposed"] if not first.startswith("conv") else ["2d", "2d", "transposed"]
    ops = []
    for _ in range(rng.randrange(5, 16 if tier == "quick" else 40)):
        r = rng.random()
        if r < 0.28:
            ops.append({"op": "forward", "shape": zoo.pick(rng, *shapes), "batch": rng.randrange(1, 4),
                        "mode": zoo.pick(rng, "train", "train", "train", "eval", "no_grad"), "xgrad": rng.random() < 0.3})
        elif r < 0.56:
            ops.append({"op": "backward", "of": rng.randrange(3), "retain": rng.random() < 0.25,
                        "boom": zoo.pick(rng, None, None, None, None, 0, 1), "scale": zoo.pick(rng, 1.0, -0.5)})
        elif r < 0.76:
            ops.append({"op": "step", "closure": zoo.pick(rng, None, None, None, "ok", "boom")})
        elif r < 0.84:
            ops.append({"op": "lr", "v": zoo.pick(rng, 0.0, 0.02, 0.1), "how": zoo.pick(rng, "set", "group", "all-groups"),
                        "group": rng.randrange(4)})
        elif r < 0.90:
            ops.append({"op": zoo.pick(rng, "freeze", "unfreeze"), "layer": rng.randrange(3)})
        elif r < 0.95:
            ops.append({"op": zoo.pick(rng, "regroup", "get", "reuse")})
        else:
            ops.append({"op": "setw", "layer": rng.randrange(3)})
    ops.append({"op": "step", "closure": None})
    return {"seed": rng.getrandbits(32), "family": fam, "config": cfg, "net": net, "ops": ops, "lr": zoo.pick(rng, 0.02, 0.1),
            "momentum": zoo.pick(rng, 0.0, 0.0, 0.9), "regroup": rng.random() < 0.3}


def build(scn):
    from torch.nn import Linear
    from aihwkit import nn as an
    net = scn["net"]
    i, h, o = net["in"], net["hidden"], net["out"]

    def cfg(mapped=False):
        c = zoo.build_config(scn["config"])
        if mapped:
            c.mapping.digital_bias = True
            c.mapping.max_input_size = 5 if net["first"] == "convmapped" else 3
            c.mapping.max_output_size = 2
        return c
    b = net["bias"]
    if net["first"] == "linear":
        layers = [an.AnalogLinear(i, h, bias=b[0], rpu_config=cfg())]
    elif net["first"] == "mapped":
        layers = [an.AnalogLinearMapped(i, h, bias=b[0], rpu_config=cfg(True))]
    elif net["first"] == "conv":
        layers = [an.AnalogConv2d(2, h, 2, bias=b[0], rpu_config=cfg())]
    else:
        layers = [an.AnalogConv2dMapped(2, h, 2, bias=b[0], rpu_config=cfg(True))]
    layers.append(an.AnalogLinear(h, h, bias=b[1], rpu_config=cfg()))
    if net["digital"]:
        layers.append(Linear(h, o, bias=b[2]))
    else:
        layers.append(an.AnalogLinear(h, o, bias=b[2], rpu_config=cfg()))
    return an.AnalogSequential(*layers)


class RefTile:
    """One tile in digital: raw weights times mapping scales, analog bias as a last column, learned scales."""

    def __init__(self, tile, torchlike):
        import torch
        self.tile = tile
        self.torchlike = torchlike
        w, b = tile.get_weights()
        alpha = tile.get_learned_out_scales()
        self.alpha = None if alpha is None else torch.nn.Parameter(alpha.detach().clone().view(-1))
        if tile.analog_bias:
            w = torch.cat([w, b.view(-1, 1)], 1)
        self.bias = None if tile.bias is None else torch.nn.Parameter(tile.bias.detach().clone())
        with torch.no_grad():
            self.w = torch.nn.Parameter(w / self.alpha.view(-1, 1) if alpha is not None else w.clone())

    def __call__(self, x):
        import torch
        if self.tile.analog_bias:
            x = torch.cat([x, torch.ones(*x.shape[:-1], 1)], -1)
        y = x @ self.w.T
        if self.alpha is not None:
            y = y * self.alpha
        return y + self.bias if self.bias is not None else y

    def update(self, lr):
        """What the analog update of a training tile does with the accumulated gradient."""
        import torch
        if self.w.grad is None:
            return
        with torch.no_grad():
            self.w -= lr * self.w.grad
        self.w.grad = None

    def sync(self):
        import torch
        new = RefTile(self.tile, self.torchlike)
        with torch.no_grad():
            self.w.copy_(new.w)
            if self.alpha is not None:
                self.alpha.copy_(new.alpha)
            if self.bias is not None:
                self.bias.copy_(new.bias)

    def parameters(self):
        return [p for p in (self.w, self.alpha, self.bias) if p is not None]


class RefLayer:
    """A layer in digital: a grid of tiles or a digital layer."""

    def __init__(self, layer, torchlike):
        import torch
        self.layer = layer
        self.grid, self.digital = None, None
        self.bias = None
        if isinstance(layer, torch.nn.Linear) and not hasattr(layer, "analog_tiles"):
            self.digital = torch.nn.Linear(layer.in_features, layer.out_features, bias=layer.bias is not None)
            self.digital.load_state_dict(layer.state_dict())
            return
        arr = getattr(layer, "analog_module", layer)
        if hasattr(arr, "array"):
            self.grid = [[RefTile(t, torchlike) for t in row] for row in arr.array]
            if arr.bias is not None:
                self.owner = arr
                self.bias = torch.nn.Parameter(arr.bias.detach().clone())
        else:
            self.grid = [[RefTile(arr, torchlike)]]
        self.conv = "Conv" in type(layer).__name__

    def __call__(self, x):
        import torch
        import torch.nn.functional as F
        if self.digital is not None:
            return self.digital(x)
        shape = x.shape
        if self.conv:
            x = F.unfold(x, 2).transpose(1, 2)
        res, at = 0.0, 0
        for row in self.grid:
            n = row[0].tile.in_size
            res = res + torch.cat([t(x[..., at:at + n]) for t in row], -1)
            at += n
        if self.bias is not None:
            res = res + self.bias
        if self.conv:
            res = res.transpose(1, 2).reshape(shape[0], -1, shape[2] - 1, shape[3] - 1)
        return res

    def tiles(self):
        return [] if self.grid is None else [t for row in self.grid for t in row]

    def pairs(self):
        """Parameters of the reference with those of the layer which play by ordinary optimizer rules."""
        out = []
        if self.digital is not None:
            return list(zip(self.digital.parameters(), self.layer.parameters()))
        for t in self.tiles():
            if t.alpha is not None:
                out.append((t.alpha, t.tile.out_scaling_alpha))
            if t.bias is not None:
                out.append((t.bias, t.tile.bias))
        if self.bias is not None:
            out.append((self.bias, self.owner.bias))
        return out

    def parameters(self):
        if self.digital is not None:
            return list(self.digital.parameters())
        return [p for t in self.tiles() for p in t.parameters()] + ([] if self.bias is None else [self.bias])

    def sync(self):
        import torch
        for t in self.tiles():
            t.sync()
        with torch.no_grad():
            for mine, theirs in self.pairs():
                mine.copy_(theirs.detach().view(mine.shape))


def boom_function():
    import torch

    class Fuse(torch.autograd.Function):  # pylint: disable=abstract-method
        """The identity, whose backward pass fails if it is told to."""

        @staticmethod
        def forward(ctx, x, box, pos):  # pylint: disable=arguments-differ
            ctx.box, ctx.pos = box, pos
            return x.view_as(x)

        @staticmethod
        def backward(ctx, grad):  # pylint: disable=arguments-differ
            if ctx.box["boom"] == ctx.pos:
                raise Boom("backward")
            return grad, None, None
    return Fuse


def run(scn, layers, x, fuse, box):
    import torch
    net = scn["net"]
    y = torch.tanh(layers[0](x))
    if net["first"].startswith("conv"):
        y = y.mean((2, 3)) + y[:, :, 0, 0]
    y = fuse.apply(y, box, 0)
    y = torch.tanh(layers[1](y))
    if net["shared"]:
        y = torch.tanh(layers[1](y) + y)
    y = fuse.apply(y, box, 1)
    return layers[2](y)


def execute(scn, ctx):
    # pylint: disable=too-many-branches,too-many-statements,too-many-locals
    import torch
    from torch.optim import SGD
    from aihwkit.optim import AnalogSGD
    net, fam = scn["net"], scn["family"]
    torchlike = fam in ("inference", "torch")
    engine.seed_all(core.derive(scn["seed"], "construct"), engine.MODE_SEEDED)
    model = build(scn)
    layers = list(model)
    with torch.no_grad():
        for layer in layers:
            if hasattr(layer, "get_weights"):
                w, b = layer.get_weights()
                layer.set_weights((torch.rand(w.shape) - 0.5), None if b is None else torch.rand(b.shape) - 0.5)
    refs = [RefLayer(layer, torchlike) for layer in layers]
    opt = AnalogSGD(model.parameters(), lr=scn["lr"], momentum=scn["momentum"])
    if scn["regroup"]:
        opt.regroup_param_groups(model)
    # what is left to ordinary optimizers in the reference
    plain = [p for r in refs for p, _ in r.pairs()] + ([t.w for r in refs for t in r.tiles()] if torchlike else [])
    ref_opt = SGD([{"params": [p]} for p in plain] or [torch.nn.Parameter(torch.zeros(1))], lr=scn["lr"],
                  momentum=scn["momentum"])
    fuse, box = boom_function(), {"boom": None}
    pending, reused = [], False

    def lr_of(param):
        for g in opt.param_groups:
            if any(p is param for p in g["params"]):
                return g["lr"]
        raise KeyError

    def shared_of(tile):
        return getattr(tile, "shared_weights", None) if fam == "inference" else tile.tile.weight

    def forward(op):
        shape = (op["batch"], net["in"]) if not net["first"].startswith("conv") else (op["batch"], 2, 3, 3)
        if op["shape"] == "3d":
            shape = (2,) + shape
        elif op["shape"] == "1d":
            shape = shape[1:] if net["first"] == "linear" else shape
        x = torch.rand(shape) * 2.0 - 0.8
        if op["shape"] == "transposed":
            x = torch.rand(shape[::-1]).permute(*range(len(shape) - 1, -1, -1)) * 2.0 - 0.8
        xa, xr = x.clone(), x.clone()
        if op["shape"] == "transposed":
            xa = x.detach()
        xa.requires_grad_(op["xgrad"])
        xr.requires_grad_(op["xgrad"])
        model.train(op["mode"] != "eval")
        before = xa.detach().clone()
        if op["mode"] == "no_grad":
            with torch.no_grad():
                ya, yr = run(scn, layers, xa, fuse, box), run(scn, refs, xr, fuse, box)
        else:
            ya, yr = run(scn, layers, xa, fuse, box), run(scn, refs, xr, fuse, box)
        ctx.require(bool((before == xa).all()), "input-modified", "the forward pass modified its input")
        ctx.require(near(ya, yr), "output", lambda: f"output {ya.tolist()} against {yr.tolist()}")
        ctx.require(ya.requires_grad == yr.requires_grad, "requires-grad", lambda: f"output requires grad: {ya.requires_grad}, "
                    f"expected {yr.requires_grad}")
        return xa, xr, ya, yr

    def near(a, b):
        a, b = a.detach(), b.detach()
        return a.shape == b.shape and bool((torch.abs(a - b) <= TOL * (1.0 + torch.abs(b))).all())

    def backward(item, op):
        xa, xr, ya, yr = item
        if not ya.requires_grad:
            return
        g = torch.rand(ya.shape) - 0.5
        box["boom"] = op.get("boom")
        failed = []
        kept = xa.detach().clone()
        for x, y in ((xa, ya), (xr, yr)):
            try:
                (y * g).sum().mul(op.get("scale", 1.0)).backward(retain_graph=op.get("retain", False))
                failed.append(None)
            except Boom as exc:
                failed.append(str(exc))
        box["boom"] = None
        if failed[0]:
            ctx.fault("backward-fails")
        ctx.require(failed[0] == failed[1], "error", f"{failed[0]} against {failed[1]}")
        ctx.require(bool((kept == xa.detach()).all()), "input-modified", "the backward pass modified the input")
        if xa.requires_grad:
            ctx.require((xa.grad is None) == (xr.grad is None) and (xa.grad is None or near(xa.grad, xr.grad)), "input-gradient",
                        lambda: f"gradient of the input: {xa.grad} against {xr.grad}")

    def ref_step():
        ref_groups = {id(g["params"][0]): g for g in ref_opt.param_groups}
        for r in refs:
            for mine, theirs in r.pairs():
                ref_groups[id(mine)]["lr"] = lr_of(theirs)
            for t in r.tiles():
                if torchlike:
                    ref_groups[id(t.w)]["lr"] = lr_of(shared_of(t.tile))
                else:
                    lr = lr_of(t.tile.analog_ctx)
                    t.update(lr)
        ref_opt.step()

    def audit(where):
        for k, r in enumerate(refs):
            for n, t in enumerate(r.tiles()):
                now = RefTile(t.tile, torchlike)
                ctx.require(near(now.w, t.w), "stored-input-aliased" if reused and k == 0 else "weights", lambda: f"{where}: weights of layer "
                            f"{k}, tile {n}, expected against actual: {core.first_difference(t.w.detach(), now.w.detach(), tol=TOL)}")
            for mine, theirs in r.pairs():
                ctx.require(near(theirs.view(mine.shape), mine), "digital-parameters", lambda: f"{where}: digital parameters of "
                            f"layer {k}: {mine.tolist()} expected, {theirs.tolist()} found")

    def zero():
        opt.zero_grad()
        for r in refs:
            for p in r.parameters():
                if torchlike or not any(p is t.w for t in r.tiles()):
                    p.grad = None

    for i, op in enumerate(scn["ops"]):
        kind = op["op"]
        engine.seed_all(core.derive(scn["seed"], "op", i), engine.MODE_STREAM)
        ctx.step()
        where = f"operation {i} {op}"
        if kind == "forward":
            if reused:
                continue
            pending.append(forward(op))
            pending = pending[-3:]
        elif kind == "backward":
            if op["of"] >= len(pending):
                continue
            item = pending[op["of"]]
            if not (op["retain"] and op["boom"] is None):
                pending = pending[:op["of"]] + pending[op["of"] + 1:]
            backward(item, op)
            last = item
        elif kind == "step":
            if op["closure"]:
                state = torch.get_rng_state()

                def closure():
                    torch.set_rng_state(state)
                    item = forward({"shape": "2d", "batch": 2, "mode": "train", "xgrad": False})
                    backward(item, {})
                    if op["closure"] == "boom":
                        ctx.fault("closure-fails")
                        raise Boom("closure")
                    return item[2].sum()
                try:
                    opt.step(closure)
                except Boom:
                    audit(where)
                    continue
            else:
                opt.step()
            ref_step()
            ctx.probe("steps")
            audit(where)
            zero()
            pending, reused = [], False
            for r in refs:
                r.sync()
        elif kind == "lr":
            if op["how"] == "set":
                opt.set_learning_rate(op["v"])
            elif op["how"] == "group":
                opt.param_groups[op["group"] % len(opt.param_groups)]["lr"] = op["v"]
            else:
                for g in opt.param_groups:
                    g["lr"] = op["v"]
        elif kind in ("freeze", "unfreeze"):
            layers[op["layer"]].requires_grad_(kind == "unfreeze")
            for p in refs[op["layer"]].parameters():
                p.requires_grad_(kind == "unfreeze")
            pending = []
            ctx.fault(kind)
        elif kind == "regroup":
            opt.regroup_param_groups(model)
        elif kind == "get":
            audit(where)
        elif kind == "reuse":
            # the data loader writes the next batch into the same memory
            if any(r.w.grad is not None for ref in refs for r in ref.tiles()) and "last" in dir():
                with torch.no_grad():
                    last[0].detach().copy_(torch.rand(last[0].shape))
                pending = []
                reused = True
                ctx.fault("input-buffer-reused")
        elif kind == "setw":
            layer, ref = layers[op["layer"]], refs[op["layer"]]
            if ref.digital is None:
                w, b = layer.get_weights()
                layer.set_weights(torch.rand(w.shape) - 0.5, None if b is None else torch.rand(b.shape) - 0.5,
                                  apply_weight_scaling=False)
                ref.sync()
                pending = []
        ctx.state([t.w.detach() for r in refs for t in r.tiles()])
    audit("at the end")
