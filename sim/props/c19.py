"""C19: quantized layers use the ranges their state allows, on the weights they have, through every history."""
from sim import core, engine, zoo

PID = "C19"
TOL = 3e-5
STATES = {"fix": "fix_ranges", "learn": "learn_ranges", "estimate": "estimate_ranges", "train": "estimate_ranges_train"}
FNS = ["fix_ranges", "learn_ranges", "estimate_ranges", "estimate_ranges_train", "fix_act_ranges", "fix_weight_ranges",
       "estimate_act_ranges", "reset_act_ranges"]


class Boom(Exception):
    """An error of the user's program in the middle of a pass."""


def quick_search(spec):
    """The MSE estimator tries 200 * 2^n ranges in every pass: only with few bits."""
    if spec["est"] == "MSE":
        spec["n"] = min(spec["n"], 4)
    return spec


def gen_act(rng):
    return quick_search({"n": zoo.pick(rng, 0, 2, 2, 3, 3, 4, 4, 8), "sym": rng.random() < 0.5,
                         "est": zoo.pick(rng, "running_minmax", "running_minmax", "current_minmax", "allminmax", "MSE"), "mom": zoo.pick(rng, 0.9, 0.5)})


def gen_layer(rng, first, kind=None):
    kind = kind or zoo.pick(rng, "linear", "linear", "linear", "norm", "tile", "tile", "array", *(["conv", "embedding"] if first else []))
    spec = {"kind": kind, "out": rng.randrange(2, 6), "bias": rng.random() < 0.7, "act": gen_act(rng), "inq": gen_act(rng) if rng.random() < 0.2 else None}
    if kind in ("tile", "array"):
        spec["periph"] = {"n": zoo.pick(rng, 0, 3, 5, 8), "sym": rng.random() < 0.5, "learn": rng.random() < 0.35, "after": rng.randrange(1, 4)}
        spec["map"] = {"weight_scaling_omega": zoo.pick(rng, 0.0, 0.6, 1.0), "weight_scaling_columnwise": rng.random() < 0.6,
                       "learn_out_scaling": rng.random() < 0.5, "out_scaling_columnwise": rng.random() < 0.6}
        spec["zero_bias"] = rng.random() < 0.3
        if kind == "array":
            spec["max_in"], spec["max_out"] = zoo.pick(rng, 0, 2, 3, 100), zoo.pick(rng, 1, 2, 3)
    else:
        spec["weight"] = quick_search({"n": zoo.pick(rng, 0, 2, 2, 3, 3, 4, 4, 8), "sym": rng.random() < 0.5,
                                       "est": zoo.pick(rng, "current_minmax", "current_minmax", "allminmax", "MSE"), "pc": rng.random() < 0.4})
        if kind == "embedding":
            spec["inq"] = None
            spec["act"]["n"] = 8
    return spec


def gen(rng, tier, index):
    kinds = ["linear", "tile", "array", "norm", None]
    layers = [gen_layer(rng, k == 0, kinds[index % 5] if k == 0 else None) for k in range(zoo.pick(rng, 1, 1, 2, 3))]
    data = lambda: {"n": rng.randrange(1, 5), "s": rng.getrandbits(16), "kind": zoo.pick(rng, "normal", "normal", "normal", "positive", "large", "zero")}
    ops = [{"op": "train", "data": data(), "lr": 0.1, "end": "step"}] if rng.random() < 0.6 else []
    for _ in range(rng.randrange(3, 9 if tier == "quick" else 26)):
        r = rng.random()
        if r < 0.36:
            ops.append({"op": "train", "data": data(), "lr": zoo.pick(rng, 0.0, 0.02, 0.1, 1.0), "end": zoo.pick(rng, "step", "step", "step", "skip", "boom",
                                                                                                     "state"),
                        "fn": zoo.pick(rng, *FNS), "m": rng.randrange(len(layers))})
        elif r < 0.50:
            ops.append({"op": "eval", "data": data(), "boom": rng.random() < 0.1, "m": rng.randrange(len(layers))})
        elif r < 0.53:
            ops += [{"op": "save"}, {"op": "train", "data": data(), "lr": 0.1, "end": "step"}, {"op": "eval", "data": data()},
                    {"op": "load", "k": -1}, {"op": "eval", "data": data()}]
        elif r < 0.56:
            ops += [{"op": "eval", "data": data()}, {"op": "quant", "w": rng.random() < 0.5, "a": rng.random() < 0.5}, {"op": "eval", "data": data()}]
        elif r < 0.58:
            step = {"op": "train", "data": data(), "lr": zoo.pick(rng, 0.1, 1.0), "end": "step"}
            ops += [{"op": "quant", "w": rng.random() < 0.5, "a": True}] if rng.random() < 0.5 else []
            ops += [{"op": "eval", "data": data()}, step, {"op": "eval", "data": data()}]
        elif r < 0.60:
            ops += [{"op": "train", "data": data(), "lr": 0.1, "end": "step"}, {"op": "state", "fn": "learn_ranges", "m": None}]
            ops += [{"op": "train", "data": data(), "lr": zoo.pick(rng, 0.1, 1.0), "end": "step"} for _ in range(3)]
        elif r < 0.68:
            ops.append({"op": "state", "fn": zoo.pick(rng, *FNS), "m": zoo.pick(rng, None, None, rng.randrange(len(layers)))})
        elif r < 0.72:
            ops.append({"op": "quant", "w": rng.random() < 0.6, "a": rng.random() < 0.6})
        elif r < 0.79:
            n = rng.randrange(1, 4)
            ops.append({"op": "calibrate", "data": [data() for _ in range(n)], "max": zoo.pick(rng, 20, 20, rng.randrange(0, 3)), "dict": rng.random() < 0.3,
                        "fail": rng.randrange(n) if rng.random() < 0.3 else None})
        elif r < 0.85:
            ops.append({"op": "save"})
        elif r < 0.92:
            ops.append({"op": "load", "k": rng.getrandbits(8)})
        else:
            ops.append({"op": "copy", "how": zoo.pick(rng, "deepcopy", "pickle", "restart", "live")})
    return {"seed": rng.getrandbits(32), "in": rng.randrange(2, 6), "layers": layers, "ops": ops}


# ---- building

def act_config(a):
    from aihwkit.simulator.digital_low_precision.range_estimators import RangeEstimators
    from aihwkit.simulator.parameters.quantization import ActivationQuantConfig
    cfg = ActivationQuantConfig(n_bits=a["n"], symmetric=a["sym"], range_estimator=RangeEstimators[a["est"]])
    if a["est"] == "running_minmax":
        cfg.range_estimator_params.momentum = a["mom"]
    return cfg


def weight_config(w):
    from aihwkit.simulator.digital_low_precision.range_estimators import RangeEstimators
    from aihwkit.simulator.parameters.quantization import WeightQuantConfig
    return WeightQuantConfig(n_bits=w["n"], symmetric=w["sym"], per_channel=w["pc"], range_estimator=RangeEstimators[w["est"]])


def tile_config(spec):
    from aihwkit.simulator.configs import QuantizedTorchInferenceRPUConfig
    cfg = QuantizedTorchInferenceRPUConfig()
    cfg.forward.is_perfect = True
    cfg.act_quant_config = act_config(spec["act"])
    p = spec["periph"]
    cfg.pre_post.periph_quant.n_bits, cfg.pre_post.periph_quant.symmetric = p["n"], p["sym"]
    cfg.pre_post.periph_quant.learn_quant_params, cfg.pre_post.periph_quant.init_learning_after = p["learn"], p["after"]
    for key, value in spec.get("map", {}).items():
        setattr(cfg.mapping, key, value)
    if spec["kind"] == "array":
        cfg.mapping.max_input_size, cfg.mapping.max_output_size = spec["max_in"], spec["max_out"]
    return cfg


def build(scn):
    import torch
    from aihwkit import nn as an
    from aihwkit.nn.low_precision_conversion import convert_to_quantized
    from aihwkit.nn.low_precision_modules import quantized_base_modules as qb
    from aihwkit.simulator.parameters.quantization import QuantizationConfig, QuantizationMap, QuantizedModuleConfig
    qmap = QuantizationMap()
    mods = []
    size = scn["in"]
    for k, spec in enumerate(scn["layers"]):
        engine.seed_all(core.derive(scn["seed"], "build", k), engine.MODE_SEEDED)
        kind = spec["kind"] if k == 0 or spec["kind"] not in ("conv", "embedding") else "linear"
        if kind in ("tile", "array"):
            mod = an.AnalogLinear(size, spec["out"], bias=spec["bias"], rpu_config=tile_config(spec))
            if spec.get("zero_bias") and spec["bias"]:
                mod.set_weights(mod.get_weights()[0], torch.zeros(spec["out"]))
            size = spec["out"]
        elif kind == "norm":
            mod, cls = torch.nn.LayerNorm(size), qb.QuantLayerNorm
            torch.nn.init.uniform_(mod.weight, -1.0, 1.0)
        elif kind == "conv":
            mod, cls = torch.nn.Conv2d(1, spec["out"], (1, size), bias=spec["bias"]), qb.QuantConv2d
            size = spec["out"]
        elif kind == "embedding":
            mod, cls = torch.nn.Embedding(7, spec["out"]), qb.QuantEmbedding
            size = spec["out"]
        else:
            mod, cls = torch.nn.Linear(size, spec["out"], bias=spec["bias"]), qb.QuantLinear
            size = spec["out"]
        name = str(2 * k)
        if kind not in ("tile", "array"):
            qmap.instance_qconfig_map[name] = QuantizedModuleConfig(quantized_module=cls, module_qconfig=QuantizationConfig(
                activation_quant=act_config(spec["act"]), weight_quant=weight_config(spec["weight"])))
        if spec.get("inq") and quantizes(spec):
            qmap.input_activation_qconfig_map[name] = act_config(spec["inq"])
        mods += [mod, torch.nn.Flatten(1) if kind == "conv" else torch.nn.Tanh()]
    return convert_to_quantized(torch.nn.Sequential(*mods), qmap)


def quantizes(spec):
    """Whether the layer is converted (its input can only be quantized then)."""
    return spec["kind"] not in ("tile", "array") and (spec["act"]["n"] > 0 or spec["weight"]["n"] > 0)


# ---- reference

class Unready(Exception):
    """A range is needed that was never estimated."""


def ste(x):
    return x + (x.round() - x).detach()


class Range:
    """One quantizer: its state and its range."""

    def __init__(self, name, n, sym, est, mom=0.9, pc=False):
        self.name, self.n, self.sym, self.est, self.mom, self.pc = name, n, sym, est, mom, pc
        self.state = "train"
        self.stat = None            # running minimum and maximum
        self.delta = self.zero = self.signed = None
        self.blind = False          # estimated from what single precision cannot decide: adopt it
        self.follow = None          # adopts the range of the system
        self.sided = None           # whether the first data were not negative (for a search)
        self.idx = 0                # mini-batches counted before learning

    def estimate(self, x):
        import torch
        x = x.detach()
        x = x.reshape(x.shape[0], -1) if self.pc else x.reshape(1, -1)
        lo, hi = x.min(1)[0], x.max(1)[0]
        if self.stat is not None and self.est == "allminmax":
            lo, hi = torch.minimum(lo, self.stat[0]), torch.maximum(hi, self.stat[1])
        elif self.stat is not None and self.est == "running_minmax":
            lo = (1 - self.mom) * lo + self.mom * self.stat[0]
            hi = (1 - self.mom) * hi + self.mom * self.stat[1]
        self.stat = (lo, hi)
        lo, hi = lo.clamp(max=0.0), hi.clamp(min=1e-8)
        if self.sym:
            self.signed = bool((lo < 0).any())
            self.delta = torch.maximum(lo.abs(), hi) / self.top()
            self.zero = None
        else:
            self.delta = (hi - lo) / self.top()
            self.zero = -lo / self.delta

    def top(self):
        return 2.0 ** (self.n - int(bool(self.signed and self.sym))) - 1

    def bottom(self):
        return -(2.0 ** (self.n - 1)) if self.sym and self.signed else 0.0

    def reset(self):
        self.sided = None
        self.stat = self.delta = self.zero = self.signed = None

    def estimating(self, training):
        return self.state == "estimate" or (self.state == "train" and training)

    def apply(self, x, training, leaves, ties):
        """The quantized tensor."""
        if self.estimating(training):
            self.estimate(x)
            if self.est == "MSE":
                if self.sided is None:
                    self.sided = bool((x >= 0).all())
                self.follow(self)       # (found by a search: only its sign and the use of the range are checked)
                if self.sym and self.delta is not None and self.signed != (not self.sided):
                    raise core.Violation("wrong-sign", f"{self.name}: signed {self.signed} for data which are{'' if self.sided else ' not'} positive")
        if self.delta is None:
            raise Unready(self.name)
        delta = self.delta.clone().requires_grad_(True)
        leaves[self.name + ".quantizer._delta"] = delta
        shape = [-1] + [1] * (x.dim() - 1)
        s = delta.clamp(min=1e-8).view(shape) if self.pc else delta.clamp(min=1e-8).view([1] * x.dim())
        zp = 0.0
        if not self.sym:
            zero = self.zero.clone().requires_grad_(True)
            leaves[self.name + ".quantizer._zero_float"] = zero
            zp = ste(zero).clamp(self.bottom(), self.top())
            near(self.zero, self, ties)
            zp = zp.view(shape) if self.pc else zp.view([1] * x.dim())
        r = x / s
        near(r.detach(), self, ties)
        return s * ((ste(r) + zp).clamp(self.bottom(), self.top()) - zp)


def near(r, q, ties):
    """Notes roundings that cannot be decided in single precision."""
    frac = (r - r.floor() - 0.5).abs()
    limit = 1e-4 + 8e-6 * 2.0 ** q.n + 4e-7 * r.abs()
    if bool((frac < limit).any()):
        ties.append(q.name)


def d(t):
    return t.detach().double()


class Layer:
    """Reference of one layer (module k of the model)."""

    def __init__(self, scn, k, net):
        self.spec = spec = scn["layers"][k]
        self.kind = spec["kind"] if k == 0 or spec["kind"] not in ("conv", "embedding") else "linear"
        self.name = str(2 * k)
        self.digital = self.kind not in ("tile", "array")
        self.plain = self.digital and not quantizes(spec)
        self.wrapped = bool(spec.get("inq")) and quantizes(spec)
        self.ranges = {}
        self.quant_w = self.quant_a = True
        base = self.name + (".module" if self.wrapped else "")
        self.base = base
        a = spec["act"]
        args = (a["n"], a["sym"], a["est"], a["mom"])
        if self.wrapped:
            i = spec["inq"]
            self.add("in", f"{self.name}.input_quantizer.activation_quantizer", i["n"], i["sym"], i["est"], i["mom"])
        if self.digital and not self.plain:
            w = spec["weight"]
            self.add("weight", base + ".weight_quantizer", w["n"], w["sym"], w["est"], 0.9, w["pc"])
            if self.kind != "embedding":
                self.add("act", base + ".activation_quantizer", *args)
        elif not self.digital:
            p = spec["periph"]
            tiles = self.tiles(net)
            self.is_array = not hasattr(net[2 * k].analog_module, "tile")
            self.shape = [len(c) for c in net[2 * k].analog_module.array] if self.is_array else [1]
            for j, (tname, tile) in enumerate(tiles):
                pre = f"{base}.analog_module" + (f".{tname}" if tname else "")
                if p["n"] > 0:
                    self.add(("scale", j), pre + ".scale_quantizer", p["n"], p["sym"], "current_minmax")
                    if spec["bias"] and not self.is_array:
                        self.add("bias", pre + ".bias_quantizer", p["n"], p["sym"], "current_minmax")
                if a["n"] > 0:
                    self.add(("out", j), pre + ".out_quantizer.activation_quantizer", *args)
            if self.is_array and a["n"] > 0 and len(tiles) > 1:
                self.add("act", base + ".analog_module.module_out_quantizer.activation_quantizer", *args)
            if self.is_array and p["n"] > 0 and spec["bias"]:
                self.add("bias", base + ".analog_module.bias_quantizer", p["n"], p["sym"], "current_minmax")
        self.on = {key: r.n > 0 for key, r in self.ranges.items()}

    def add(self, key, name, *args):
        self.ranges[key] = Range(name, *args)

    def module(self, net):
        return net[int(self.name)]

    def tiles(self, net):
        mod = self.module(net).analog_module
        if hasattr(mod, "tile"):
            return [("", mod)]
        return [(f"array.{i}.{j}", t) for i, row in enumerate(mod.array) for j, t in enumerate(row)]

    def use(self, key, x, training, leaves, ties):
        if key in self.ranges and self.on[key]:
            return self.ranges[key].apply(x, training, leaves, ties)
        return x

    def periphery(self, key, x, training, leaves, ties):
        """Quantizers of scales and biases, which change their state on their own."""
        q = self.ranges.get(key)
        if q is None:
            return x
        p = self.spec["periph"]
        if training and not p["learn"]:
            q.state = "train"
        elif training and q.state != "learn":
            q.idx += 1
            q.state = "learn" if q.idx > p["after"] else "train"
        elif not training and q.delta is None:
            q.state = "estimate"
            x = q.apply(x, training, leaves, ties)
            q.state = "fix"
            return x
        return q.apply(x, training, leaves, ties)

    def forward(self, net, x, training, leaves, ties):
        """The output of the layer in double precision from its input and present parameters."""
        import torch
        from torch.nn import functional as F
        mod = self.module(net)
        if self.wrapped:
            x = self.use("in", x, training, leaves, ties)
            mod = mod.module
        if self.digital:
            w = leaf(leaves, self.base + ".weight", mod.weight)
            b = leaf(leaves, self.base + ".bias", mod.bias) if getattr(mod, "bias", None) is not None else None
            if not self.plain:
                w = self.use("weight", w, training, leaves, ties)
            if self.kind == "linear":
                y = F.linear(x, w, b)
            elif self.kind == "conv":
                y = F.conv2d(x, w, b)
            elif self.kind == "embedding":
                return F.embedding(x, w)
            else:
                y = F.layer_norm(x, mod.normalized_shape, w, b, mod.eps)
            return self.use("act", y, training, leaves, ties)
        bias = None
        if self.spec["bias"]:
            bias = leaf(leaves, self.base + ".analog_module.bias", mod.analog_module.bias)
        tiles = self.tiles(net)
        rows, j, start = [], 0, 0
        for count in self.shape:
            cols = []
            for _ in range(count):
                tname, tile = tiles[j]
                pre = f"{self.base}.analog_module" + (f".{tname}" if tname else "")
                w = leaf(leaves, pre + ".tile.weight", tile.get_weights(apply_weight_scaling=False)[0])
                y = x[:, start:start + w.shape[1]] @ w.T
                smap, alpha = tile.get_mapping_scales(), tile.get_learned_out_scales()
                scale = None
                if smap is not None:
                    scale = d(smap).view(-1)
                if alpha is not None:
                    alpha = leaf(leaves, pre + ".out_scaling_alpha", alpha)
                    scale = alpha.view(-1) if scale is None else scale * alpha.view(-1)
                if scale is not None:
                    y = y * self.periphery(("scale", j), scale, training, leaves, ties).view(1, -1)
                if not self.is_array and bias is not None:
                    y = y + self.periphery("bias", bias, training, leaves, ties).view(1, -1)
                cols.append(self.use(("out", j), y, training, leaves, ties))
                j += 1
            start += w.shape[1]
            rows.append(torch.cat(cols, 1))
        y = sum(rows[1:], rows[0])
        if self.is_array and bias is not None:
            y = y + self.periphery("bias", bias, training, leaves, ties).view(1, -1)
        return self.use("act", y, training, leaves, ties)


def leaf(leaves, name, t):
    leaves[name] = d(t).clone().requires_grad_(True)
    return leaves[name]


# ---- the simulated system

class System:
    """The model, its reference and what was recorded of the passes."""

    def __init__(self, scn, ctx):
        self.scn, self.ctx = scn, ctx
        self.net = build(scn)
        self.layers = [Layer(scn, k, self.net) for k in range(len(scn["layers"]))]
        for _, _, q in self.all():
            q.follow = self.follow
        self.hooks, self.seen, self.boom = [], [], None
        self.hook()

    def hook(self):
        import torch
        for h in self.hooks:
            h.remove()
        self.hooks = []

        def before(k):
            def fn(_mod, args, kwargs):
                x = args[0] if args else kwargs["input"]
                if self.boom == ("in", k):
                    raise Boom()
                if torch.is_floating_point(x) and torch.is_grad_enabled():
                    if not x.requires_grad:
                        x.requires_grad_(True)
                    x.retain_grad()
                self.seen.append([k, x, None])
            return fn

        def after(k):
            def fn(_mod, args, kwargs, out):
                self.seen[-1][2] = out.detach().clone()
                if out.requires_grad:
                    self.seen[-1].append(out)
                    out.retain_grad()
                if self.boom == ("out", k):
                    raise Boom()
            return fn
        for k, layer in enumerate(self.layers):
            mod = layer.module(self.net)
            self.hooks.append(mod.register_forward_pre_hook(before(k), with_kwargs=True))
            self.hooks.append(mod.register_forward_hook(after(k), with_kwargs=True))

    def unhook(self):
        for h in self.hooks:
            h.remove()
        self.hooks = []

    def managers(self, net=None):
        from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager
        return {n: m for n, m in (net or self.net).named_modules() if isinstance(m, QuantizationManager)}

    def all(self):
        return [(layer, key, q) for layer in self.layers for key, q in layer.ranges.items()]

    def data(self, spec):
        import torch
        g = torch.Generator().manual_seed(spec["s"])
        first = self.layers[0].kind
        if first == "embedding":
            return torch.randint(0, 7, (spec["n"],), generator=g)
        shape = (spec["n"], 1, 1, self.scn["in"]) if first == "conv" else (spec["n"], self.scn["in"])
        x = torch.randn(shape, generator=g)
        return {"positive": x.abs(), "large": 7.0 * x, "zero": 0.0 * x}.get(spec["kind"], x)

    def adopt(self, only_blind=False):
        """Takes over the ranges of the system."""
        for _, _, q in self.all():
            if q.blind or not only_blind:
                q.blind = False
                self.follow(q)

    def follow(self, q):
        """Takes over the range of one quantizer."""
        state = self.net.state_dict()
        delta = d(state[q.name + ".quantizer._delta"]).reshape(-1)
        if bool(delta.isnan().all()):
            q.stat = q.delta = q.zero = q.signed = None
            return
        q.delta = delta
        q.zero = None if q.sym else d(state[q.name + ".quantizer._zero_float"]).reshape(-1)
        q.signed = bool(state[q.name + ".quantizer._signed"]) if q.sym else None
        lo, hi = (state.get(f"{q.name}.range_estimator.current_x{m}") for m in ("min", "max"))
        q.stat = None if lo is None else (d(lo).reshape(-1), d(hi).reshape(-1))

    def compare(self, where):
        """States and ranges of all quantizers against the reference."""
        ctx = self.ctx
        managers = self.managers()
        self.adopt(only_blind=True)
        want = {q.name for _, _, q in self.all()}
        names = {n for n in managers if not n.endswith("weight_quantizer") or n in want}
        names = {n for n in names if n in want or bool(managers[n].quantizer.is_initialized)}
        ctx.require(want <= set(managers) and names <= want, "quantizers-missing", lambda: f"{where}: {sorted(want ^ names)}")
        label = {"fix_ranges": "fix", "learn_ranges": "learn", "estimate_ranges": "estimate", "estimate_ranges_train": "train"}
        for _, _, q in self.all():
            m = managers[q.name]
            at = f"{where}: {q.name}"
            ctx.require(label[m.state.name] == q.state, "wrong-state", lambda: f"{at} is in state {m.state.name} instead of {STATES[q.state]}")
            real = m.quantizer
            ready = bool(real.is_initialized)
            ctx.require(ready == (q.delta is not None), "wrong-initialisation", lambda: f"{at}: {'a' if ready else 'no'} range, which is "
                        f"{'unexpected' if ready else 'missing'}")
            if not ready:
                continue
            diff = core.first_difference(d(real.scale).reshape(-1) * 1e3, q.delta.clamp(min=1e-8).reshape(-1) * 1e3, tol=TOL)
            ctx.require(diff is None, "wrong-scale", lambda: f"{at} in state {q.state}: scale (in thousandths){diff}")
            if q.sym:
                ctx.require(bool(real.signed) == q.signed, "wrong-sign", lambda: f"{at}: signed {real.signed}")
            else:
                zp = q.zero.round().clamp(0, q.top())
                diff = core.first_difference(d(real.zero_point).reshape(-1), zp, tol=TOL)
                edge = bool(((q.zero - q.zero.floor() - 0.5).abs() < 1e-3 + 1e-5 * q.zero.abs()).any())
                ctx.require(diff is None or edge, "wrong-zero-point", lambda: f"{at}: {diff}")
            if q.state != "learn":
                ctx.require(not any(p.requires_grad for p in m.parameters()), "still-learnable", lambda: f"{at} is in state {q.state}, but its range has a gradient")
        self.adopt()
        ctx.state([[q.state, None if q.delta is None else q.delta] for _, _, q in self.all()])

    def forward(self, x, training, where, boom=None, dict_input=False):
        """One forward pass of the system and of the reference: (output or None, error or None, references of the layers)."""
        # pylint: disable=too-many-locals,too-many-branches
        import torch
        ctx, net = self.ctx, self.net
        self.seen, self.boom = [], boom
        error = out = None
        try:
            with torch.set_grad_enabled(training):
                out = net(**{"input": x}) if dict_input else net(x)
        except Exception as e:    # pylint: disable=broad-except
            error = e
        self.boom = None
        return out, error, self.replay(training, where, error, boom)

    def replay(self, training, where, error, boom=None):
        """The reference of a pass, from the recorded inputs of the layers."""
        ctx, net = self.ctx, self.net
        refs = []
        ready = True
        for k, x, y, *more in self.seen:
            layer = self.layers[k]
            leaves, ties = {}, []
            xd = d(x).requires_grad_(True) if x.is_floating_point() else x
            try:
                want = layer.forward(net, xd, training, leaves, ties)
            except Unready as e:
                ctx.require(y is None and error is not None, "range-made-up", lambda: f"{where}: layer {k} ran, although {e} has no range")
                ready = False
                ctx.probe("no-range")
                break
            ctx.require(y is not None, "pass-failed", lambda: f"{where}: layer {k} ({layer.kind}) raises {type(error).__name__}: {error}")
            if ties:
                ctx.probe("undecided")
                for q in layer.ranges.values():
                    q.blind = True
                refs.append(None)
                continue
            diff = core.first_difference(d(y), want.detach(), tol=1e-4)
            ctx.require(diff is None, "wrong-output", lambda: f"{where}: layer {k} ({layer.kind}){diff}")
            refs.append((k, x, xd, want, leaves, more[0] if more else None))
        if error is not None and ready and not (boom is not None and isinstance(error, Boom)):
            ctx.require(False, "pass-failed", f"{where}: {type(error).__name__}: {error}")
        return refs


def check_grads(ctx, sys_, refs, where):
    """Gradients of all parameters and inputs of the layers."""
    import torch
    named = dict(sys_.net.named_parameters())
    learned = {q.name for _, _, q in sys_.all() if q.state == "learn"}
    for ref in refs:
        if ref is None:
            continue
        k, x, xd, want, leaves, out = ref
        if out is None or out.grad is None:
            continue
        g = d(out.grad)
        names = list(leaves)
        inputs = [leaves[n] for n in names] + ([xd] if xd.is_floating_point() else [])
        grads = torch.autograd.grad(want, inputs, g, allow_unused=True)
        size = float(g.abs().max()) * (1.0 + (float(d(x).abs().max()) if x.is_floating_point() else 1.0))
        for n, gr in zip(names + ["input"], grads):
            if n.endswith("._delta") or n.endswith("._zero_float"):
                if n.rsplit(".quantizer.", 1)[0] not in learned:
                    continue
            if n.endswith("tile.weight") and gr is not None:
                tile = dict(sys_.net.named_modules())[n[:-len(".tile.weight")]]
                smap = tile.get_mapping_scales()    # (the gradient acts on the weights times their mapping scales)
                gr = gr if smap is None else gr / d(smap).view(-1, 1) ** 2
            real = x.grad if n == "input" else named[n].grad
            a = torch.zeros_like(inputs[-1] if n == "input" else leaves[n]).reshape(-1) if real is None else d(real).reshape(-1)
            b = torch.zeros_like(a) if gr is None else gr.reshape(-1)
            if a.numel() != b.numel():
                a = a.expand_as(b)
            fine = "quantizer" not in n and sys_.layers[k].kind != "norm"
            diff = core.first_difference(a / max(size, 1e-12), b / max(size, 1e-12), tol=1e-4 if fine else 2e-3)
            ctx.require(diff is None, "wrong-gradient", lambda: f"{where}: layer {k} ({sys_.layers[k].kind}), {n}{diff}")


def set_state(sys_, fn, m, ctx):
    from aihwkit.nn.low_precision_modules import quantization_states as qs
    target = sys_.net if m is None else sys_.layers[m].module(sys_.net)
    getattr(qs, fn)(target)
    for layer in (sys_.layers if m is None else [sys_.layers[m]]):
        for key, q in layer.ranges.items():
            act = key in ("in", "act") or (isinstance(key, tuple) and key[0] == "out")
            if fn == "fix_ranges" or (fn == "fix_act_ranges" and act) or (fn == "fix_weight_ranges" and key == "weight"):
                if q.delta is not None:
                    q.state = "fix"
            elif fn == "learn_ranges":
                if q.delta is not None:
                    q.state = "learn"
            elif fn == "estimate_ranges" or (fn == "estimate_act_ranges" and act):
                q.state = "estimate"
            elif fn == "estimate_ranges_train":
                q.state = "train"
            elif fn == "reset_act_ranges" and act:
                q.reset()
                q.state = "train"
    ctx.log(fn, m)


def optimizer(net, lr):
    from aihwkit.optim import AnalogSGD
    opt = AnalogSGD(net.parameters(), lr=lr)
    opt.regroup_param_groups(net)
    return opt


def values(net):
    return {n: d(p).clone() for n, p in net.named_parameters() if "analog_ctx" not in n}


def train(sys_, ctx, op, opt, where):
    # pylint: disable=too-many-locals
    import torch
    net = sys_.net
    net.train()
    for group in opt.param_groups:
        group["lr"] = op["lr"]
    opt.zero_grad()
    boom = None
    if op["end"] == "boom":
        boom = (zoo.pick(core.rng_for(op["data"]["s"]), "in", "out"), op.get("m", 0))
        ctx.fault("failing pass")
    out, error, refs = sys_.forward(sys_.data(op["data"]), True, where, boom)
    sys_.compare(where + " after the forward pass")
    if error is not None:
        return
    g = torch.Generator().manual_seed(op["data"]["s"] + 1)
    (out * torch.randn(out.shape, generator=g)).sum().backward()
    check_grads(ctx, sys_, refs, where)
    if op["end"] == "skip":
        ctx.fault("discarded pass")
        return
    if op["end"] == "state":
        ctx.fault("state changed before the step")
        set_state(sys_, op["fn"], None, ctx)
    old = values(net)
    grads = {n: (None if p.grad is None else d(p.grad).clone()) for n, p in net.named_parameters() if n in old}
    opt.step()
    fixed = {q.name: q for _, _, q in sys_.all() if q.state != "learn"}
    for n, p in net.named_parameters():
        owner = n.rsplit(".quantizer.", 1)[0] if ".quantizer._" in n else None
        if n not in old:
            continue
        want = old[n]
        if owner not in fixed and grads[n] is not None:
            want = old[n] - op["lr"] * grads[n]
        diff = core.first_difference(d(p), want, tol=1e-5)
        ctx.require(diff is None, "range-moved" if owner in fixed else "wrong-step", lambda: f"{where}: {n}{diff}")
    for _, _, q in sys_.all():
        if q.state == "learn" and q.delta is not None:
            now = dict(net.named_parameters())
            q.delta = d(now[q.name + ".quantizer._delta"]).reshape(-1)
            if not q.sym:
                q.zero = d(now[q.name + ".quantizer._zero_float"]).reshape(-1)


class Loader:
    """Batches of calibration data, which may fail."""

    def __init__(self, sys_, op, ctx):
        self.sys, self.op, self.ctx = sys_, op, ctx

    def __iter__(self):
        for k, spec in enumerate(self.op["data"]):
            if self.op.get("fail") == k:
                self.ctx.fault("failing data")
                raise Boom()
            x = self.sys.data(spec)
            yield {"input": x} if self.op.get("dict") else (x, None)
            self.flush()

    def flush(self):
        self.sys.flush()


def calibrate(sys_, ctx, op, where):
    import torch
    from aihwkit.inference.calibration import calibrate_quantization_ranges
    sys_.seen = []
    for _, _, q in sys_.all():
        q.state = "estimate"
    done = []

    def flush(error=None):
        if sys_.seen:
            sys_.replay(False, f"{where}, batch {len(done)}", error)
            done.append(1)
        sys_.seen = []
        sys_.adopt(only_blind=True)
    sys_.flush = flush
    error = None
    try:
        with torch.no_grad():
            calibrate_quantization_ranges(sys_.net, Loader(sys_, op, ctx), max_num_batches=op["max"])
    except Exception as e:    # pylint: disable=broad-except
        error = e
    flush(None if isinstance(error, Boom) else error)
    fail = op.get("fail")
    expected = fail is not None and fail < len(op["data"]) and fail <= op["max"]
    ctx.require((error is not None) == expected and (error is None or isinstance(error, Boom)), "calibration-failed",
                lambda: f"{where}: {type(error).__name__}: {error}")
    n = min(op["max"], len(op["data"]) if fail is None else fail)
    ctx.require(len(done) == n, "wrong-batches", lambda: f"{where}: {len(done)} batches used instead of {n}")
    if error is None:
        for _, _, q in sys_.all():
            if q.delta is not None:
                q.state = "fix"


def snapshot(net):
    import torch
    return {n: (v.detach().clone() if isinstance(v, torch.Tensor) else None) for n, v in net.state_dict().items() if "analog_ctx" not in n}


def reference_state(sys_):
    return {q.name: (q.stat, q.delta, q.zero, q.signed, q.idx) for _, _, q in sys_.all()}


def set_reference(sys_, ref):
    for _, _, q in sys_.all():
        q.stat, q.delta, q.zero, q.signed, q.idx = ref[q.name]
        if q.delta is None:
            q.sided = None
        if q.delta is None and q.state in ("fix", "learn"):
            q.state = "train"


def execute(scn, ctx):
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    import copy
    import io
    import torch
    sys_ = System(scn, ctx)
    opt = optimizer(sys_.net, 0.1)
    saved = []
    others = []          # (model which is not used any more, what it is)

    def to_bytes(obj):
        buf = io.BytesIO()
        torch.save(obj, buf)
        return buf.getvalue()

    def from_bytes(data):
        return torch.load(io.BytesIO(data), weights_only=False)

    def apply_states(net, quant_w, quant_a):
        managers = sys_.managers(net)
        for _, _, q in sys_.all():
            getattr(managers[q.name], STATES[q.state])()
        if flags["set"]:
            from aihwkit.nn.low_precision_modules.quantization_states import set_quant_state
            set_quant_state(net, quant_w, quant_a)

    flags = {"set": False, "w": True, "a": True}
    sys_.compare("after the conversion")
    for i, op in enumerate(scn["ops"]):
        kind = op["op"]
        where = f"operation {i} ({kind})"
        ctx.step()
        ctx.log(kind)
        engine.seed_all(core.derive(scn["seed"], "op", i), engine.MODE_SEEDED)
        if kind == "train":
            train(sys_, ctx, op, opt, where)
        elif kind == "eval":
            sys_.net.eval()
            boom = ("out", op["m"]) if op.get("boom") else None
            if boom:
                ctx.fault("failing pass")
            sys_.forward(sys_.data(op["data"]), False, where, boom)
        elif kind == "state":
            set_state(sys_, op["fn"], op.get("m"), ctx)
        elif kind == "quant":
            from aihwkit.nn.low_precision_modules.quantization_states import set_quant_state
            # (quantization to no bits can only be switched off)
            flags = {"set": True, "w": op["w"] and all(q.n > 0 for _, key, q in sys_.all() if key == "weight"),
                     "a": op["a"] and all(q.n > 0 for _, key, q in sys_.all() if key != "weight")}
            set_quant_state(sys_.net, flags["w"], flags["a"])
            for layer, key, q in sys_.all():
                if key == "weight":
                    layer.on[key] = flags["w"]
                elif key in ("in", "act") or (isinstance(key, tuple) and key[0] == "out"):
                    layer.on[key] = flags["a"]
        elif kind == "calibrate":
            calibrate(sys_, ctx, op, where)
        elif kind == "save":
            saved.append((to_bytes(sys_.net.state_dict()), reference_state(sys_)))
        elif kind == "load" and saved:
            data, ref = saved[op["k"] % len(saved)]
            sys_.net.load_state_dict(from_bytes(data))
            set_reference(sys_, ref)
            ctx.fault("rollback")
        elif kind == "copy":
            sys_.unhook()
            how = op["how"]
            old = sys_.net
            training = old.training
            if how == "deepcopy":
                net = copy.deepcopy(old)
            elif how == "pickle":
                net = from_bytes(to_bytes(old))
            else:
                net = build(scn)
                net.load_state_dict(old.state_dict() if how == "live" else from_bytes(to_bytes(old.state_dict())))
                for _, _, q in sys_.all():
                    q.sided = None
                apply_states(net, flags["w"], flags["a"])
                net.train(training)
            ctx.fault("crash and restart" if how == "restart" else f"copy ({how})")
            others.append((old, snapshot(old)))
            sys_.net = net
            sys_.hook()
            opt = optimizer(net, 0.1)
        sys_.compare(where)
        for net, was in others:
            diff = core.first_difference(snapshot(net), was)
            ctx.require(diff is None, "original-changed", lambda: f"{where}: the model which was copied changes in {diff}")
