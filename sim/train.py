"""A simulated training process: a model of the zoo, its optimizer and the operations of a job on them."""
import io

from sim import core, engine, zoo

OPTIMIZERS = ["sgd", "sgdm", "adam", "wrapped"]


class Job:
    """One process: everything in it is volatile; only checkpoints survive."""

    def __init__(self, scn, construct_seed):
        self.scn = scn
        self.model = None
        self.opt = None
        self.lr = scn["lr"]
        self.build_model(construct_seed)

    def build_model(self, construct_seed):
        engine.seed_all(construct_seed, engine.MODE_SEEDED)
        cfg = zoo.build_config(self.scn["config"])
        self.model = zoo.build_model(self.scn["model"], cfg)

    def build_optimizer(self):
        from torch.optim import RMSprop
        from aihwkit.optim import AnalogSGD, AnalogAdam, AnalogOptimizer
        kind = self.scn["opt"]
        params = self.model.parameters()
        if kind == "sgd":
            self.opt = AnalogSGD(params, lr=self.lr)
        elif kind == "sgdm":
            self.opt = AnalogSGD(params, lr=self.lr, momentum=0.9)
        elif kind == "adam":
            self.opt = AnalogAdam(params, lr=self.lr)
        else:
            self.opt = AnalogOptimizer(RMSprop, params, lr=self.lr)
        if self.scn.get("regroup"):
            self.opt.regroup_param_groups(self.model)

    # -- operations

    def op_seed(self, i):
        engine.seed_all(core.derive(self.scn["seed"], "op", i), engine.MODE_STREAM)

    def data(self):
        import torch
        x = torch.rand(zoo.input_shape(self.scn["model"])) * 2.0 - 0.7
        return x

    def train(self, n, scale=1.0):
        import torch
        self.model.train()
        out = []
        for _ in range(n):
            x = self.data() * scale
            y = zoo.run_model(self.model, self.scn["model"], x)
            target = torch.rand(y.shape) - 0.5
            loss = ((y - target) ** 2).sum()
            loss.backward()
            self.opt.step()
            self.opt.zero_grad()
            out.append(loss.detach())
        return out

    def evaluate(self, stay=False):
        import torch
        self.model.eval()
        with torch.no_grad():
            y = zoo.run_model(self.model, self.scn["model"], self.data())
        if not stay:
            self.model.train()
        return y

    def tiles(self):
        return [(n, t) for n, t in self.model.named_analog_tiles() if ".tile." not in n]

    def apply(self, i, op):
        """Apply operation i of the history; returns what a user sees of it."""
        import torch
        self.op_seed(i)
        kind = op["op"]
        if kind == "train":
            return self.train(op["n"], op.get("scale", 1.0))
        if kind == "lr":
            self.lr = op["v"]
            self.opt.set_learning_rate(op["v"])
            return None
        if kind == "eval":
            return self.evaluate(op.get("stay", False))
        if kind == "setw":
            for _, tile in self.tiles():
                w, b = tile.get_weights()
                tile.set_weights((torch.rand(w.shape) - 0.5) * op["amp"],
                                 None if b is None else (torch.rand(b.shape) - 0.5) * op["amp"])
            return None
        if kind == "tick":
            # what a deployment does to training tiles between mini-batches, where the tile offers it
            for _, tile in self.tiles():
                tile.post_update_step()
            return None
        if kind in ("drift", "decay", "diffuse", "reset"):
            for _, tile in self.tiles():
                if kind == "drift":
                    tile.drift_weights(op["t"])
                elif kind == "decay":
                    tile.decay_weights()
                elif kind == "diffuse":
                    tile.diffuse_weights()
                else:
                    tile.reset(op.get("p", 1.0))
            return None
        if kind == "remap":
            for _, tile in self.tiles():
                tile.remap_weights(weight_scaling_omega=op["omega"])
            return None
        raise ValueError(kind)

    # -- observation and durable state

    def observe(self):
        obs = {}
        for name, tile in self.tiles():
            w, b = tile.get_weights()
            obs[name] = {"w": w, "b": b, "scales": tile.get_scales(),
                         "raw": tile.get_weights(apply_weight_scaling=False),
                   "hidden": dict(tile.get_hidden_parameters())}
            obs[name] = copied(obs[name])
            rng = getattr(tile, "input_range", None)
            if rng is not None:
                obs[name]["input_range"] = rng.detach().clone()
        for name, p in self.model.named_parameters():
            # a quantizer that learns its range counts once more after a restart, without any effect
            if not name.endswith(("analog_ctx", "quant_update_idx")):
                obs["p." + name] = p.detach().clone()
        for name, p in self.model.named_buffers():
            obs["b." + name] = p.detach().clone()
        return obs

    def state(self):
        return {"model": self.model.state_dict(), "opt": self.opt.state_dict(), "lr": self.lr}

    def save(self):
        import torch
        buf = io.BytesIO()
        torch.save(self.state(), buf)
        return buf.getvalue()

    @staticmethod
    def read(blob):
        import torch
        return torch.load(io.BytesIO(blob), weights_only=False)


def copied(value):
    """A snapshot: observations must not alias the state of the system."""
    import torch
    if isinstance(value, torch.Tensor):
        return value.detach().clone()
    if isinstance(value, dict):
        return {k: copied(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [copied(v) for v in value]
    return value


def restore(scn, blob, construct_seed, order, load_rpu_config):
    """A new process after a crash: built from the program, then the checkpoint loaded."""
    job = Job(scn, construct_seed)
    state = Job.read(blob)
    engine.seed_all(construct_seed + 1, engine.MODE_SEEDED)
    if order == "opt-first":
        job.build_optimizer()
        job.model.load_state_dict(state["model"], load_rpu_config=load_rpu_config)
    else:
        job.model.load_state_dict(state["model"], load_rpu_config=load_rpu_config)
        job.build_optimizer()
    job.opt.load_state_dict(state["opt"])
    job.lr = state["lr"]
    return job


def clipped_by_loading(scn, before, after):
    """Whether all that loading changed are weights of reference devices beyond their hard bounds (a known finding):
    pulses keep these weights within the bounds shifted by the reference, loading within the unshifted ones."""
    import json
    if "ReferenceDevice" not in json.dumps(scn["config"]):
        return False
    found = False
    for name, obs in before.items():
        if not isinstance(obs, dict):
            continue
        import torch
        hid, now = dict(obs["hidden"]), dict(after[name]["hidden"])
        if "max_bound" in hid and "persistent_weights" not in hid:
            for d, source in ((hid, obs), (now, after[name])):
                w, b = source["raw"]
                with_bias = b is not None and w.shape[1] + 1 == hid["max_bound"].shape[1]
                d["hidden_weights"] = torch.cat([w, b.view(-1, 1)], 1) if with_bias else w
        for key in list(hid):
            if not key.startswith(("hidden_weights", "persistent_weights")):
                continue
            suffix = key[len("hidden_weights"):] if key.startswith("hidden") else key[len("persistent_weights"):]
            hi, lo = hid.get("max_bound" + suffix), hid.get("min_bound" + suffix)
            if hi is None or lo is None:
                continue
            clipped = hid[key].minimum(hi).maximum(lo)
            if not bool((clipped == hid[key]).all()) and bool((now[key] == clipped).all()):
                found = True
    return found
