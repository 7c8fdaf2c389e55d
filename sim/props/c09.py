"""C09: compound devices transfer what they collected exactly when, where and as much as they were told to."""
from sim import core, engine
from sim.props.c08 import pulse

PID = "C09"
FAMILIES = ["transfer", "buffered", "chopped", "transfer", "buffered", "chopped", "mixed", "onesided", "dynamic"]
CLASSES = {"transfer": "TransferCompound", "buffered": "BufferedTransferCompound", "chopped": "ChoppedTransferCompound",
           "dynamic": "DynamicTransferCompound", "mixed": "MixedPrecisionCompound", "onesided": "OneSidedUnitCell"}
SLOW = ["ConstantStepDevice", "ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice"]


def pick(rng, *values):
    return values[rng.randrange(len(values))]


def gen(rng, tier, index):
    fam = FAMILIES[index % len(FAMILIES)]
    n_in, n_out = rng.randrange(1, 6), rng.randrange(1, 6)
    if rng.random() < 0.2:
        n_in, n_out = pick(rng, (1, 40), (40, 1), (30, 2))
    scn = {"seed": rng.getrandbits(32), "family": fam, "in": n_in, "out": n_out, "f": gen_compound(rng, fam),
           "fast": gen_device(rng, fam != "onesided"), "slow": gen_device(rng, True), "update": gen_update(rng)}
    if fam in ("transfer", "buffered"):
        n = pick(rng, 2, 2, 3, 4)
        scn["n"] = n
        f = scn["f"]
        if rng.random() < 0.3:
            f["transfer_every_vec"] = [float(pick(rng, 1, 2, 3)) for _ in range(n)]
        if rng.random() < 0.3:
            f["transfer_lr_vec"] = [pick(rng, 0.31, 0.73, 1.0) for _ in range(n)]
        if rng.random() < 0.4:
            f["gamma_vec"] = [pick(rng, 0.0, 0.5, 0.25) for _ in range(n - 1)] + [pick(rng, 1.0, 0.5)]
        else:
            f["gamma"] = pick(rng, 0.0, 0.0, 0.3)
    ops = []
    regular = fam == "chopped" and not scn["f"]["in_chop_random"] and rng.random() < 0.8
    if regular:  # long enough for several whole passes over the lines
        scn.update({"in": min(n_in, 3), "out": min(n_out, 3)})
        n_in, n_out = scn["in"], scn["out"]
        scn["f"]["transfer_every"] = 1.0
    for _ in range(rng.randrange(3, 10 if tier == "quick" else 30) + (4 if regular else 0)):
        r = rng.random()
        if regular and r < 0.4:
            r = 0.75
        if r < 0.6:
            ops.append({"op": "update", "x": values(rng, n_in), "d": values(rng, n_out), "lr": pick(rng, 0.137, 0.0173, 0.53)})
        elif r < 0.72:
            ops.append({"op": "idle", "m": rng.randrange(1, 5), "lr": pick(rng, 0.137, 0.53)})
        elif r < 0.8:
            ops.append({"op": "batch", "m": rng.randrange(2, 5), "lr": pick(rng, 0.137, 0.53), "s": rng.getrandbits(16)})
        elif r < 0.84:
            ops.append({"op": "stop", "lr": 0.0, "x": values(rng, n_in), "d": values(rng, n_out)})
        elif r < 0.88:
            ops.append({"op": "setw", "s": rng.getrandbits(16), "amp": pick(rng, 0.3, 1.0)})
        elif r < 0.92:
            ops.append({"op": "eval"})
        else:
            ops.append({"op": "copy", "how": pick(rng, "deepcopy", "pickle", "restart")})
    scn["ops"] = ops
    return scn


def values(rng, n):
    return [round(rng.uniform(-1, 1), 3) if rng.random() < 0.85 else 0.0 for _ in range(n)]


def gen_device(rng, slow):
    f = {"dw_min": pick(rng, 0.0313, 0.0071, 0.11), "dw_min_std": 0.0, "w_max": pick(rng, 0.6, 3.0), "reset_std": 0.0}
    f["w_min"] = -f["w_max"]
    if rng.random() < 0.5:
        f.update({"dw_min_dtod": 0.0, "up_down_dtod": 0.0, "w_max_dtod": 0.0, "w_min_dtod": 0.0})
    if rng.random() < 0.3:
        f["up_down"] = pick(rng, 0.2, -0.1)
    return {"cls": pick(rng, *SLOW) if slow else "ConstantStepDevice", "f": f}


def gen_update(rng):
    f = {"pulse_type": pick(rng, "DETERMINISTIC_IMPLICIT", "DETERMINISTIC_IMPLICIT", "MEAN_COUNT", "STOCHASTIC_COMPRESSED"),
         "desired_bl": pick(rng, 1, 5, 31), "update_bl_management": pick(rng, True, False), "update_management": pick(rng, True, False)}
    if rng.random() < 0.2:
        f["fixed_bl"] = False
    return f


def gen_compound(rng, fam):
    if fam == "mixed":
        f = {"transfer_every": pick(rng, 1, 1, 2, 3), "n_rows_per_transfer": pick(rng, -1, -1, 1, 2, 3, 4, 0), "random_row": rng.random() < 0.2,
             "granularity": pick(rng, 0.0, 0.0, 0.053), "transfer_lr": pick(rng, 1.0, 0.7), "n_x_bins": pick(rng, 0, 0, 5, 8),
             "n_d_bins": pick(rng, 0, 0, 5, 8), "stoc_round_x": rng.random() < 0.2, "stoc_round_d": rng.random() < 0.2}
        return f
    if fam == "onesided":
        return {"refresh_every": pick(rng, 0, 1, 2, 3), "units_in_mbatch": pick(rng, True, False), "refresh_upper_thres":
                pick(rng, 0.75, 0.3), "refresh_lower_thres": pick(rng, 0.25, 0.05), "copy_inverted": rng.random() < 0.3,
                "refresh_update": "NONE_WITH_DEVICE"}
    f = {"transfer_every": pick(rng, 1.0, 1.0, 2.0, 3.0, 0.0), "units_in_mbatch": pick(rng, True, False), "transfer_columns":
         pick(rng, True, False), "fast_lr": pick(rng, 0.0, 0.51, 1.0), "scale_fast_lr": pick(rng, True, False), "transfer_lr":
         pick(rng, 0.37, 1.0, 1.7), "scale_transfer_lr": pick(rng, True, False)}
    up = {"pulse_type": "DETERMINISTIC_IMPLICIT", "desired_bl": pick(rng, 1, 4, 31), "update_bl_management": pick(rng, True, False),
          "update_management": pick(rng, True, False)}
    if fam == "transfer":
        up["pulse_type"] = pick(rng, "DETERMINISTIC_IMPLICIT", "MEAN_COUNT", "NONE_WITH_DEVICE")
        if f["transfer_columns"] and rng.random() < 0.25:
            f["with_reset_prob"] = pick(rng, 1.0, 1.0, 0.5)
    else:
        if up["desired_bl"] == 1 and rng.random() < 0.5:
            up = {"pulse_type": "STOCHASTIC_COMPRESSED", "desired_bl": 1, "update_bl_management": False, "update_management": False}
        f.update({"momentum": pick(rng, 0.0, 0.1, 0.5), "forget_buffer": pick(rng, True, False), "step": 1.0})
    f["transfer_update"] = up
    if fam in ("transfer", "buffered"):
        f["n_reads_per_transfer"] = pick(rng, 1, 1, 2, 3)
        f["random_selection"] = rng.random() < 0.2
        f["no_self_transfer"] = rng.random() < 0.8
    if fam == "buffered":
        f["thres_scale"] = pick(rng, 1.0, 0.7, 2.0)
    if fam in ("chopped", "dynamic"):
        f["gamma"] = pick(rng, 0.0, 0.3)
        if fam == "chopped":
            kind = pick(rng, "none", "random", "always", "regular", "out", "outalways")
            f.update({"in_chop_prob": {"none": 0.0, "random": 0.5, "always": 1.0, "regular": pick(rng, 0.5, 0.3, 0.25)}.get(kind, 0.0),
                      "in_chop_random": kind != "regular", "out_chop_prob": {"out": 0.5, "outalways": 1.0}.get(kind, 0.0)})
            f.update({"buffer_granularity": pick(rng, 1.0, 0.5), "auto_granularity": pick(rng, 0.0, 0.0, 10.0),
                      "no_buffer": rng.random() < 0.15})
        else:
            f.update({"in_chop_prob": pick(rng, 0.5, 0.3)})
            f.pop("scale_fast_lr")
            f.pop("no_buffer", None)
        f.update({"auto_scale": rng.random() < 0.3, "auto_momentum": 0.9, "correct_gradient_magnitudes": rng.random() < 0.3})
        if f["transfer_every"] == 0.0:
            f["transfer_every"] = 1.0
    return f


def build(scn):
    from aihwkit.simulator.configs import (
        BufferedTransferCompound, ChoppedTransferCompound, ConstantStepDevice, DynamicTransferCompound, IOParameters, LinearStepDevice,
        MixedPrecisionCompound, OneSidedUnitCell, PulseType, SoftBoundsDevice, TransferCompound, UnitCellRPUConfig,
        DigitalRankUpdateRPUConfig, UpdateParameters)
    classes = {c.__name__: c for c in (
        BufferedTransferCompound, ChoppedTransferCompound, ConstantStepDevice, DynamicTransferCompound, LinearStepDevice,
        MixedPrecisionCompound, OneSidedUnitCell, SoftBoundsDevice, TransferCompound)}

    def update(f):
        f = dict(f)
        f["pulse_type"] = getattr(PulseType, f["pulse_type"])
        return UpdateParameters(**f)

    def device(spec):
        return classes[spec["cls"]](**spec["f"])

    fam, f = scn["family"], dict(scn["f"])
    perfect = IOParameters(is_perfect=True)
    if fam == "mixed":
        cfg = DigitalRankUpdateRPUConfig(device=MixedPrecisionCompound(device=device(scn["fast"]), **f))
    else:
        if fam == "onesided":
            f["refresh_update"] = UpdateParameters(pulse_type=getattr(PulseType, f["refresh_update"]))
            f["refresh_forward"] = perfect
            cells = [device(scn["fast"])]
        else:
            f["transfer_update"] = update(f["transfer_update"])
            f["transfer_forward"] = perfect
            cells = [device(scn["fast"])] + [device(scn["slow"]) for _ in range(scn.get("n", 2) - 1)]
        cfg = UnitCellRPUConfig(device=classes[CLASSES[fam]](unit_cell_devices=cells, **f))
    cfg.update = update(scn["update"])
    cfg.forward = IOParameters(is_perfect=True)
    cfg.backward = IOParameters(is_perfect=True)
    return cfg


# ---------------------------------------------------------------------------------------------------------------------
# the reference


def management(up, lr, gran, x, d):
    """Number of slots, and the factors of errors and inputs."""
    import numpy as np
    f = np.float32
    xm, dm = np.abs(x).max(), np.abs(d).max()
    bl, ubl = up.desired_bl, up.update_bl_management
    um = up.update_management or ubl
    if lr == 0 or (um and (xm == 0 or dm == 0)):
        return 0, f(0), f(0)
    lr, gran = f(lr), f(gran)
    a = b = np.sqrt(lr / (gran * f(bl)))
    if not up.fixed_bl and not ubl and gran * f(bl) < lr:
        a = b = f(1)
        bl = max(int(np.ceil(lr / gran)), 1)
    if um:
        k = lr * xm * dm / gran
        if ubl:
            bl = min(int(np.ceil(k)), up.desired_bl)
            a = b = np.sqrt(lr / (gran * f(bl)))
        dv = dm * f(up.desired_bl) / k if k > up.desired_bl else dm
        a, b = a * np.sqrt(xm / dv), b * np.sqrt(dv / xm)
    return bl, a, b


def rounded(v):
    """Nearest integers (halves away from zero), and where that is not certain."""
    import numpy as np
    n = np.trunc(v + np.copysign(np.float32(0.5), v))
    return n, np.abs(np.abs(v - np.trunc(v)) - 0.5) < 1e-3


def coincidences(up, lr, gran, x, d):
    """Pulses of each cross point (positive: down) for a deterministic update, and where they are not certain."""
    import numpy as np
    f = np.float32
    bl, a, b = management(up, lr, gran, x, d)
    if bl == 0:
        n = np.zeros((len(d), len(x)), dtype=f)
        return n, n != 0
    with np.errstate(over="ignore"):
        px, pd = np.minimum(np.abs(x) * b, f(1)), np.minimum(np.abs(d) * a, f(1))
    # (at the edge of the number of slots, which is rounded up, everything is uncertain)
    edge = False
    if up.update_bl_management:
        k = np.float64(lr) * np.abs(x).max() * np.abs(d).max() / gran
        edge = k < up.desired_bl + 0.01 and abs(k - np.round(k)) < 1e-4 * max(k, 1)
    if up.pulse_type.name == "MEAN_COUNT":
        nx, ux = rounded(px * f(bl))
        nd, ud = rounded(pd * f(bl))
        n, u = rounded(np.outer(nd * np.sign(d), nx * np.sign(x)).astype(f) / f(bl))
        u = u & (nd != 0)[:, None] & (nx != 0)[None, :] | ud[:, None] | ux[None, :]
    else:
        n, u = rounded((np.outer(pd * np.sign(d), px * np.sign(x)) * f(bl)).astype(f))
    return n, u | edge


class TooMany(Exception):
    """More random choices than can be followed."""


class State:
    """What is known about a tile."""

    def __init__(self, n, n_in, n_out):
        self.cycle = 0
        # weights and buffers of the devices, and where they are not certain until they are seen again
        self.w, self.h, self.unsure, self.unsure_h = [None] * n, [None] * n, [None] * n, [None] * n
        self.slice = [0] * n
        self.chop_in, self.chop_out = [1] * n_in, [1] * n_out
        self.matrices = 0    # full matrix transfers

    def copy(self):
        new = State.__new__(State)
        new.__dict__.update({k: list(v) if isinstance(v, list) else v for k, v in self.__dict__.items()})
        return new

    def key(self):
        return (self.cycle, tuple(self.slice), tuple(self.chop_in), tuple(self.chop_out), self.matrices)


class Reference:
    """Executable model of the documented transfer schedules. Random choices give several states."""
    # pylint: disable=too-many-instance-attributes

    def __init__(self, scn, cfg):
        self.scn, self.cfg, self.fam, self.device = scn, cfg, scn["family"], cfg.device
        self.n = 1 if self.fam == "mixed" else 2 if self.fam == "onesided" else len(cfg.device.unit_cell_devices)
        self.par = []
        self.mx = self.md = self.count_lr = 0.0
        self.columns = getattr(self.device, "transfer_columns", True)
        self.lines, self.across = (scn["in"], scn["out"]) if self.columns else (scn["out"], scn["in"])
        self.states = [State(self.n, self.lines, self.across)]

    def spec(self, k):
        if self.fam in ("mixed", "onesided") or k == 0:
            return self.scn["fast"]
        return self.scn["slow"]

    def model(self, k):
        if self.fam == "mixed":
            return self.device.device
        return self.device.unit_cell_devices[0 if self.fam == "onesided" else min(k, 1)]

    def dw(self, k):
        return self.spec(k)["f"]["dw_min"]

    def every(self, j, m):
        import numpy as np
        dev = self.device
        vec = list(dev.transfer_every_vec)
        if not vec:
            t, vec = np.float32(dev.transfer_every), []
            for _ in range(self.n):
                vec.append(t)
                t = t * np.float32(self.lines) / np.float32(min(dev.n_reads_per_transfer, self.lines))
            if dev.no_self_transfer:
                vec[-1] = 0
        if dev.units_in_mbatch:
            return max(int(np.ceil(np.float32(vec[j]) * np.float32(m))), 0)
        return max(int(np.trunc(np.float32(vec[j]) + np.float32(0.5))), 0)

    def gamma(self):
        return list(self.device.gamma_vec) or [self.device.gamma ** (self.n - 1 - k) for k in range(self.n)]

    def fast_lr(self, lr):
        dev, up = self.device, self.cfg.update
        base = lr if dev.fast_lr <= 0 else dev.fast_lr * lr if dev.scale_fast_lr else dev.fast_lr
        if getattr(dev, "auto_scale", False) and dev.fast_lr > 0:
            base = base * up.desired_bl * self.dw(0)
            if self.mx > 0 and self.md > 0:
                base /= self.mx * self.md
        return base

    def move(self, state, k, n, unsure):
        """Applies n pulses (positive: down) to device k."""
        import numpy as np
        w, par, spec = state.w[k].copy(), self.par[k], self.spec(k)
        for i in range(int(np.abs(n).max()) if n.size else 0):
            for up in (True, False):
                part = (np.abs(n) > i) & ((n < 0) == up)
                if part.any():
                    w = np.where(part, pulse(spec["cls"], self.model(k), par, w, up), w)
        state.w[k] = w.astype(np.float32)
        state.unsure[k] = state.unsure[k] | unsure

    def one_hot(self, line):
        import numpy as np
        v = np.zeros(self.lines, dtype=np.float32)
        v[line] = 1
        return v

    def write(self, state, k, line, v, lr, up):
        """Writes -lr v onto a line of device k."""
        import numpy as np
        e = self.one_hot(line)
        x, d = (e, v) if self.columns else (v, e)
        if up.pulse_type.name in ("NONE", "NONE_WITH_DEVICE"):
            w = state.w[k] - np.float32(lr) * np.outer(d, x).astype(np.float32)
            if up.pulse_type.name == "NONE_WITH_DEVICE":
                w = np.minimum(np.maximum(w, self.par[k]["min_bound"]), self.par[k]["max_bound"])
            state.w[k] = w.astype(np.float32)
        elif up.pulse_type.name == "STOCHASTIC_COMPRESSED":
            # with a single slot, and probability one
            n = np.clip(np.outer(d, x), -1, 1)
            self.move(state, k, n, n != n)
        else:
            n, u = coincidences(up, lr, self.dw(k), x, d)
            self.move(state, k, n, u)

    def line(self, a, i):
        return a[:, i] if self.columns else a[i, :]

    def taint(self, state, j, line, k):
        """What is written to device k is not certain where device j was not."""
        t = self.line(state.unsure[j], line)
        if t.any():
            new = state.unsure[k].copy()
            self.line(new, line)[...] = True
            state.unsure[k] = new

    # -- one transfer of each kind

    def transfer(self, state, j, lr):
        """Successor states of a transfer from device j."""
        dev = self.device
        to = min(j + 1, self.n - 1)
        vec = list(getattr(dev, "transfer_lr_vec", []))
        lr = (vec[j] if vec else dev.transfer_lr) * (lr if dev.scale_transfer_lr else 1.0)
        if self.fam != "transfer":
            gamma = self.gamma()
            lr *= gamma[j] / gamma[to] if gamma[j] > 0 and gamma[to] > 0 else 1.0
        reads = min(getattr(dev, "n_reads_per_transfer", 1), self.lines)
        starts = range(self.lines) if getattr(dev, "random_selection", False) else [state.slice[j]]
        out = []
        for start in starts:
            new = [state.copy()]
            if lr != 0 and to != j:
                for r in range(reads):
                    new = [t for s in new for t in self.read(s, j, to, (start + r) % self.lines, lr)]
            for s in new:
                s.slice[j] = (start + reads) % self.lines
            out += new
            if len(out) > 200:
                raise TooMany()
        return out

    def read(self, state, j, to, line, lr):
        import numpy as np
        dev, f = self.device, np.float32
        up = dev.transfer_update
        if self.fam == "transfer":
            v = -self.line(state.w[j], line)
            self.taint(state, j, line, to)
            self.write(state, to, line, v.copy(), lr, up)
            out = [state]
            if dev.with_reset_prob > 0.0:
                if dev.with_reset_prob < 1.0:
                    out.append(state.copy())
                par = self.par[j]
                w = state.w[j].copy()
                self.line(w, line)[...] = self.line(np.clip(par["reset_bias"], par["min_bound"], par["max_bound"]), line)
                state.w[j] = w
                state.unsure[j] = state.unsure[j].copy()
                self.line(state.unsure[j], line)[...] = False
            return out
        self.taint(state, j, line, to)
        if self.fam == "dynamic":
            u = state.unsure[to].copy()
            self.line(u, line)[...] = True
            state.unsure[to] = u
            return [state]
        h, a = self.line(state.h[j], line).copy(), self.line(state.w[j], line)
        if self.fam == "buffered":
            h = (h + a * f(lr)).astype(f)
            gran = f(dev.thres_scale) * f(self.dw(to))
            ratio = h / gran
        else:
            sign = np.array([state.chop_in[line] * s for s in state.chop_out], dtype=f)
            bg = dev.buffer_granularity * self.dw(0)
            if dev.auto_granularity > 0:
                bg *= dev.auto_granularity / (self.lines * dev.transfer_every)
            scale = lr / bg
            if dev.correct_gradient_magnitudes:
                scale = lr / self.count_lr / (bg * self.dw(1) / self.dw(0))
            h = ((0 if dev.no_buffer else h) + sign * a * f(scale)).astype(f)
            gran, ratio = f(1), h
        n = np.clip(np.trunc(ratio), -up.desired_bl, up.desired_bl)
        unsure = np.abs(ratio - np.round(ratio)) < 1e-3
        unsure &= np.abs(np.round(ratio)) > 0
        after = np.where(n != 0, h * f(dev.momentum) if dev.forget_buffer else h - f(1 - dev.momentum) * n * gran, h)
        new = state.h[j].copy()
        self.line(new, line)[...] = after
        state.h[j] = new
        # (what is uncertain is not compared any more)
        mask = state.unsure_h[j].copy()
        self.line(mask, line)[...] |= unsure | self.line(state.unsure[j], line)
        state.unsure_h[j] = mask
        if (n != 0).any():
            self.write(state, to, line, -n.astype(f), dev.step * self.dw(to), up)
        if unsure.any():
            u = state.unsure[to].copy()
            self.line(u, line)[...] = True
            state.unsure[to] = u
        if self.fam == "buffered":
            return [state]
        return self.chop(state, line)

    def chop(self, state, line):
        import math
        dev = self.device
        out = [state]
        if dev.in_chop_prob > 0.0:
            if not dev.in_chop_random:
                period = max(math.ceil(1.0 / dev.in_chop_prob), 2)
                flip = [state.matrices % period + 1 == period]
            else:
                flip = [True] if dev.in_chop_prob >= 1.0 else [True, False]
            out = []
            for turn in flip:
                s = state.copy()
                if turn:
                    s.chop_in[line] = -s.chop_in[line]
                out.append(s)
        if line == self.lines - 1:
            if dev.out_chop_prob > 0.0:
                for k in range(self.across):
                    if dev.out_chop_prob >= 1.0:
                        for s in out:
                            s.chop_out[k] = -s.chop_out[k]
                    else:
                        more = []
                        if len(out) > 200:
                            raise TooMany()
                        for s in out:
                            t = s.copy()
                            t.chop_out[k] = -t.chop_out[k]
                            more += [s, t]
                        out = more
            for s in out:
                s.matrices += 1
        return out

    def mixed_transfer(self, state):
        import copy
        import numpy as np
        dev, f = self.device, np.float32
        rows = self.scn["out"]
        if dev.n_rows_per_transfer == 0 or dev.transfer_lr == 0:
            return [state]
        n = rows if dev.n_rows_per_transfer < 0 else min(dev.n_rows_per_transfer, rows)
        gran = dev.granularity or self.dw(0)
        up = copy.copy(self.cfg.update)
        up.update_management = up.update_bl_management = True
        out = []
        for start in range(rows) if dev.random_row and n < rows else [state.slice[0]]:
            s = state.copy()
            for r in range(n):
                row = (start + r) % rows
                chi = s.h[0].copy()
                ratio = chi[row] / f(gran)
                k = np.trunc(ratio)
                bad = (np.abs(ratio - np.round(ratio)) < 1e-3) & (np.abs(np.round(ratio)) > 0)
                chi[row] = chi[row] - k * f(gran)
                s.h[0] = chi
                mask = s.unsure_h[0].copy()
                mask[row] |= bad
                s.unsure_h[0] = mask
                e = np.zeros(rows, dtype=f)
                e[row] = 1
                if up.pulse_type.name == "STOCHASTIC_COMPRESSED":
                    m = s.unsure[0].copy()
                    m[row] |= k != 0
                    s.unsure[0] = m
                else:
                    p, u = coincidences(up, gran * dev.transfer_lr, self.dw(0), k.astype(f), e)
                    self.move(s, 0, p, u)
                if (bad | mask[row]).any():
                    m = s.unsure[0].copy()
                    m[row] = True
                    s.unsure[0] = m
            s.slice[0] = (start + n) % rows
            out.append(s)
        return out

    def refresh(self, state):
        import numpy as np
        dev, f = self.device, np.float32
        wp, wm = state.w[1], state.w[0]
        w_max = f(abs(self.spec(0)["f"]["w_max"]))
        hi, lo = f(dev.refresh_upper_thres), f(dev.refresh_lower_thres)
        which = np.where(wp > wm, (wp / w_max > hi) & (wm / w_max > lo), (wp / w_max > lo) & (wm / w_max > hi))
        edge = sum((np.abs(w / w_max - t) < 1e-5).astype(int) for w in (wp, wm) for t in (hi, lo)) > 0
        diff = wp - wm
        for k, sign in ((1, 1), (0, -1)):
            par = self.par[k]
            w = np.where(which, np.clip(par["reset_bias"], par["min_bound"], par["max_bound"]), state.w[k])
            w = w + np.where(which & (sign * diff > 0), sign * diff, 0)
            if dev.refresh_update.pulse_type.name == "NONE_WITH_DEVICE":
                w = np.minimum(np.maximum(w, par["min_bound"]), par["max_bound"])
            state.w[k] = w.astype(f)
            state.unsure[k] = state.unsure[k] | edge
        return [state]

    # -- one update cycle

    def prepare(self, x, d, lr, m):
        """Learning rate of the fast device for the next cycle."""
        import numpy as np
        if getattr(self.device, "auto_scale", False):
            xm, dm = float(np.abs(x).max()), float(np.abs(d).max())
            tau = (1 - self.device.auto_momentum) / m
            self.mx = xm if self.mx <= 0 else self.mx if xm <= 0 else (1 - tau) * self.mx + tau * xm
            self.md = dm if self.md <= 0 else self.md if dm <= 0 else (1 - tau) * self.md + tau * dm
        self.count_lr = self.fast_lr(lr) if "fast_lr" in vars(self.device) else lr

    def cycle(self, x, d, lr, m, fast=None):
        """All states after an update with one pair of vectors; fast: the state of the fast device after it, if it was seen."""
        out = []
        for state in self.states:
            s = state.copy()
            if self.fam == "mixed":
                self.collect(s, x, d, lr)
                index = s.cycle
                s.cycle += 1
                every = int(self.device.transfer_every) * m
                out += self.mixed_transfer(s) if every > 0 and index > 0 and index % every == 0 else [s]
                continue
            if fast is not None:
                s.w[0] = fast
            else:
                self.sgd(s, x, d)
            s.cycle += 1
            if self.fam == "onesided":
                every = self.device.refresh_every * (m if self.device.units_in_mbatch else 1)
                out += self.refresh(s) if every > 0 and s.cycle % every == 0 else [s]
                continue
            now = [s]
            for j in range(self.n):
                every = self.every(j, m)
                if every > 0 and s.cycle % every == 0:
                    now = [t for s_ in now for t in self.transfer(s_, j, lr)]
            out += now
            if len(out) > 400:
                raise TooMany()
        self.states = list({s.key() + tuple(w.tobytes() for w in s.w + s.h + s.unsure + s.unsure_h if w is not None): s for s in out}.values())
        if len(self.states) > 200:
            raise TooMany()

    def collect(self, s, x, d, lr):
        """Mixed precision: the outer product of the (quantized) vectors is added."""
        import numpy as np
        dev, f = self.device, np.float32
        q, sure = [], True
        for v, bins, sto in ((x, dev.n_x_bins, dev.stoc_round_x), (d, dev.n_d_bins, dev.stoc_round_d)):
            if bins > 0 and np.abs(v).max() > 0:
                if sto:
                    sure = False
                width = np.abs(v).max() / f(bins // 2)
                r, edge = rounded((v / width).astype(f))
                q.append((np.clip(r, -(bins // 2), bins // 2) * width).astype(f))
                sure = sure and not edge.any()
            else:
                q.append(v)
        s.h[0] = (s.h[0] + f(lr) * np.outer(q[1], q[0])).astype(f)
        if not sure:
            s.unsure_h[0] = np.ones_like(s.unsure_h[0])
            s.unsure[0] = np.ones_like(s.unsure[0])

    def sgd(self, s, x, d):
        """The update of the fast device, if it can be predicted."""
        import numpy as np
        if self.fam == "dynamic" or self.scn["update"]["pulse_type"].startswith("STOCHASTIC"):
            if np.abs(x).max() > 0 and np.abs(d).max() > 0:
                s.unsure[0] = np.ones_like(s.unsure[0])
                if self.fam == "onesided":
                    s.unsure[1] = np.ones_like(s.unsure[1])
            return
        if self.fam == "onesided":
            n, u = coincidences(self.cfg.update, self.count_lr, self.dw(0), x, d)
            self.one_sided(s, n, u)
            return
        if self.fam == "chopped":
            n, u = coincidences(self.cfg.update, self.count_lr, self.dw(0), x, d)
            n = n * self.signs(s)
        else:
            n, u = coincidences(self.cfg.update, self.count_lr, self.dw(0), x, d)
        self.move(s, 0, n, u)

    def signs(self, s):
        """Of the choppers at all cross points."""
        import numpy as np
        return np.outer(s.chop_out, s.chop_in) if self.columns else np.outer(s.chop_in, s.chop_out)

    def one_sided(self, s, n, u):
        import numpy as np
        # both devices are only moved up
        self.move(s, 1, np.where(n < 0, n, 0), u)
        self.move(s, 0, np.where(n > 0, -n, 0), u)


# ---------------------------------------------------------------------------------------------------------------------
# the run


class Seen:
    """What is seen of the devices of a tile."""

    def __init__(self, tile, ref):
        hid = {k: v.detach().numpy().copy() for k, v in tile.get_hidden_parameters().items()}
        raw = tile.get_weights(apply_weight_scaling=False)[0].detach().numpy().copy()
        self.raw, self.w, self.h, par = raw, [], [], []
        for k in range(ref.n):
            suffix = "" if ref.fam == "mixed" else f"_{k}"
            self.w.append(hid["hidden_weights" + suffix] if suffix else raw)
            self.h.append(hid["hidden_weights_chi"] if ref.fam == "mixed" else hid.get(f"buffered_FP_weight_{k}"))
            par.append({n[:len(n) - len(suffix)]: v for n, v in hid.items() if n.endswith(suffix)})
        ref.par = par


def adopt(ref, seen):
    import numpy as np
    for s in ref.states:
        s.w, s.h = list(seen.w), list(seen.h)
        s.unsure = [np.zeros(w.shape, dtype=bool) for w in seen.w]
        s.unsure_h = [None if h is None else np.zeros(h.shape, dtype=bool) for h in seen.h]
    ref.states = list({s.key(): s for s in ref.states}.values())


def differs(state, seen):
    """What differs from what was seen."""
    import numpy as np
    for k, w in enumerate(state.w):
        bad = ~np.isclose(w, seen.w[k], atol=2e-5, rtol=1e-5) & ~state.unsure[k]
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            return f"device {k} has {seen.w[k].tolist()} instead of {w.tolist()}, first at {i}", k
    for k, h in enumerate(state.h):
        if h is None or state.unsure_h[k].all():
            continue
        bad = ~np.isclose(h, seen.h[k], atol=2e-5, rtol=2e-4) & ~state.unsure_h[k]
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            return f"buffer {k} has {seen.h[k].tolist()} instead of {h.tolist()}, first at {i}", -1
    return None


def execute(scn, ctx):
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    import copy
    import pickle
    import numpy as np
    import torch
    from aihwkit.nn import AnalogLinear
    from aihwkit.optim import AnalogSGD
    engine.seed_all(core.derive(scn["seed"], "construct"), engine.MODE_SEEDED)
    cfg = build(scn)
    layer = AnalogLinear(scn["in"], scn["out"], bias=False, rpu_config=cfg)
    tile = next(layer.analog_tiles())
    ref = Reference(scn, cfg)
    adopt(ref, Seen(tile, ref))
    ctx.probe("family-" + scn["family"])
    for i, op in enumerate(scn["ops"]):
        engine.seed_all(core.derive(scn["seed"], "op", i), engine.MODE_STREAM)
        ctx.step()
        kind = op["op"]
        where = f"operation {i} {op} ({scn['family']})"
        if kind in ("update", "stop", "idle", "batch"):
            m = op.get("m", 1)
            if kind == "idle":
                x, d = np.zeros((m, scn["in"]), dtype=np.float32), np.zeros((m, scn["out"]), dtype=np.float32)
            elif kind == "batch":
                gen_ = np.random.default_rng(op["s"])
                x = gen_.uniform(-1, 1, (m, scn["in"])).astype(np.float32)
                d = gen_.uniform(-1, 1, (m, scn["out"])).astype(np.float32)
            else:
                x, d = np.array([op["x"]], dtype=np.float32), np.array([op["d"]], dtype=np.float32)
            opt = AnalogSGD(layer.parameters(), lr=op["lr"])
            layer(torch.tensor(x)).backward(torch.tensor(d))
            opt.step()
        elif kind == "setw":
            gen_ = torch.Generator().manual_seed(op["s"])
            tile.set_weights((torch.rand(scn["out"], scn["in"], generator=gen_) - 0.5) * 2 * op["amp"])
        elif kind == "eval":
            layer.eval()
            layer(torch.ones(2, scn["in"]))
            layer.train()
        else:
            ctx.fault(op["how"])
            if op["how"] == "deepcopy":
                layer = copy.deepcopy(layer)
            elif op["how"] == "pickle":
                layer = pickle.loads(pickle.dumps(layer))
            else:
                state = copy.deepcopy(layer.state_dict())
                layer = AnalogLinear(scn["in"], scn["out"], bias=False, rpu_config=build(scn))
                layer.load_state_dict(state)
            tile = next(layer.analog_tiles())
        ctx.probe("op-" + kind)
        seen = Seen(tile, ref)
        ctx.state([seen.raw.tolist(), [w.tolist() for w in seen.w], [h.tolist() for h in seen.h if h is not None]])
        if any(not np.isfinite(v).all() or np.abs(v).max() > 1e6 for v in seen.w + [h for h in seen.h if h is not None]):
            ctx.require(all(np.isfinite(w).all() for w in seen.w), "not-finite", lambda: f"{where}: {[w.tolist() for w in seen.w]}")
            ctx.probe("diverged")
            return
        if kind == "setw":
            for s in ref.states:
                s.cycle, s.slice = 0, [0] * ref.n
            written(scn, ctx, where, op, ref, seen, torch)
        elif kind in ("update", "idle", "batch"):
            before = copy.copy(ref.states[0])
            try:
                cycles(ctx, where, op, ref, seen, x, d)
            except TooMany:
                ctx.probe("too-many-choices")
                return
            report = [differs(s, seen) for s in ref.states]
            moved = [k for k in range(ref.n) if not np.array_equal(before.w[k], seen.w[k])]
            for k in moved:
                ctx.probe(f"moved-{scn['family']}-{min(k, 2)}")
            if all(report):
                what, k = report[0]
                ctx.require(False, "wrong-buffer" if k < 0 else "wrong-transfer" if k or ref.fam in ("mixed", "onesided") else "wrong-update",
                            lambda: f"{where}: in update cycle {ref.states[0].cycle} {what}; before: {[w.tolist() for w in before.w]}, "
                            f"buffers {[h.tolist() for h in before.h if h is not None]}")
            ref.states = [s for s, r in zip(ref.states, report) if not r]
            ctx.probe("checked", sum(int((~u).sum()) for u in ref.states[0].unsure))
        else:
            report = differs(ref.states[0], seen)
            ctx.require(report is None, "changed", lambda: f"{where}: {report[0]}")
        adopt(ref, seen)


def cycles(ctx, where, op, ref, seen, x, d):
    """The reference makes the update cycles of an operation."""
    import numpy as np
    hidden = getattr(ref.device, "with_reset_prob", 0.0) > 0.0 or ref.fam in ("mixed", "onesided")
    m = len(x)
    for v, e in zip(x, d):
        ref.prepare(v, e, op["lr"], m)
        fast = None
        if m == 1 and not hidden:
            # the fast device is not changed by the transfer
            good, bad = [], None
            want = -np.sign(np.outer(e, v))
            for s in ref.states:
                t = s.copy()
                ref.sgd(t, v, e)
                wrong = ~np.isclose(t.w[0], seen.w[0], atol=2e-5) & ~t.unsure[0]
                if ref.fam != "dynamic":
                    sign = 1
                    if ref.fam == "chopped":
                        sign = ref.signs(s)
                    change = seen.w[0] - s.w[0]
                    wrong |= (np.abs(change) > 2e-6) & (np.sign(change) != sign * want)
                if wrong.any():
                    bad = bad or t
                else:
                    good.append(s)
            ctx.require(good, "wrong-update", lambda: f"{where}: the fast device went from {ref.states[0].w[0].tolist()} to "
                        f"{seen.w[0].tolist()} instead of {bad.w[0].tolist()}")
            ref.states = good
            fast = seen.w[0]
        ref.cycle(v, e, op["lr"], m, fast)


def written(scn, ctx, where, op, ref, seen, torch):
    """What was set is what the last device stands for."""
    import numpy as np
    gen_ = torch.Generator().manual_seed(op["s"])
    want = ((torch.rand(scn["out"], scn["in"], generator=gen_) - 0.5) * 2 * op["amp"]).numpy()
    if ref.fam in ("mixed", "onesided"):
        if ref.fam == "mixed":
            ctx.require(not seen.h[0].any(), "not-reset", lambda: f"{where}: chi is {seen.h[0].tolist()} after weights were set")
        return
    gamma = (list(ref.device.gamma_vec) or [1.0])[-1]
    par = ref.par[-1]
    want = np.clip(want / np.float32(gamma), par["min_bound"], par["max_bound"])
    for k in range(ref.n):
        target = want if k == ref.n - 1 else np.clip(np.zeros_like(want), ref.par[k]["min_bound"], ref.par[k]["max_bound"])
        ctx.require(np.allclose(seen.w[k], target, atol=1e-5), "not-reset", lambda: f"{where}: device {k} is {seen.w[k].tolist()} instead of "
                    f"{target.tolist()} after weights were set")
