"""Local experiments under the simulator: datasets, models, hooks, template downloads and their faults (C16, C17)."""
from sim import cloudsim, core, zoo
from sim.sched import Sched


class Broken(Exception):
    """An injected failure of the user's dataset, model or hook."""


class World:
    """Shared by the datasets and models of one run."""

    def __init__(self, ctx, sched):
        self.ctx, self.sched = ctx, sched


def make_dataset(spec, log, world):
    """A dataset class as an experiment expects it; every access goes to the log (a list) and may fail."""
    import torch

    class SimData(torch.utils.data.Dataset):  # pylint: disable=missing-class-docstring
        def __init__(self, root, transform=None, train=True, download=False):  # pylint: disable=unused-argument
            self.split = "train" if train else "val"
            self.size = spec["train" if train else "val"]
            log.append(("open", self.split, root))

        def __len__(self):
            return self.size

        def __getitem__(self, index):
            if not 0 <= index < self.size:
                raise IndexError(index)
            world.sched.point()
            log.append(("item", self.split, index))
            if spec.get("_fail") is not None:
                spec["_fail"] -= 1
                if spec["_fail"] < 0:
                    spec["_fail"] = None
                    world.ctx.fault("failing-dataset")
                    raise Broken("dataset")
            return sample(spec, self.split, index)
    return SimData


def sample(spec, split, index):
    import torch
    g = torch.Generator().manual_seed(core.derive(spec["id"], split, index) % (1 << 60))
    return torch.rand(spec["features"], generator=g), int(torch.randint(0, spec["classes"], (1,), generator=g))


def make_mode_layer():
    import torch

    class Mode(torch.nn.Module):
        """Tells training from evaluation by its output."""

        def forward(self, x):  # pylint: disable=missing-function-docstring
            return x * (1.0 if self.training else 0.5)
    return Mode()


def gen_data(rng):
    return {"id": rng.getrandbits(30), "train": rng.randrange(1, 14), "val": rng.randrange(1, 14), "features": rng.randrange(1, 5),
            "classes": rng.randrange(2, 5)}


# -- training -------------------------------------------------------------------------------------------------------------------

def gen_training(rng, tier):
    exps = []
    for _ in range(rng.randrange(1, 4)):
        exps.append({"data": gen_data(rng), "hidden": zoo.pick(rng, 0, 2, 3), "digital": rng.random() < 0.4, "bias": rng.random() < 0.6,
                     "batch": rng.randrange(1, 8), "epochs": rng.randrange(1, 4), "lr": rng.randrange(1, 20) / 64,
                     "loss": zoo.pick(rng, "NLLLoss", "CrossEntropyLoss")})
    threads = []
    for _ in range(rng.randrange(1, 3)):
        ops = []
        for _ in range(rng.randrange(1, 7 if tier != "quick" else 4)):
            ops.append({"op": "run", "e": rng.randrange(9), "how": zoo.pick(rng, "direct", "runner", "runner"), "max": zoo.pick(rng, 0, 0, 1, 3),
                        "fail": zoo.pick(rng, None, None, None, "dataset", "model", "hook"), "at": rng.randrange(0, 40),
                        "stdout": rng.random() < 0.3, "set": gen_settings(rng) if rng.random() < 0.4 else {}})
        threads.append({"ops": ops})
    return {"seed": rng.getrandbits(32), "exps": exps, "threads": threads,
            "schedule": [rng.randrange(60) for _ in range(rng.randrange(0, 100))]}


def gen_settings(rng):
    """What the user changes before a run."""
    out = {"lr": rng.randrange(0, 20) / 64, "epochs": rng.randrange(1, 4), "batch": rng.randrange(1, 8),
           "loss": zoo.pick(rng, "NLLLoss", "CrossEntropyLoss")}
    return {k: out[k] for k in rng.sample(sorted(out), rng.randrange(1, 3))}


def build_net(spec):
    """Model of a training experiment (exact analog tiles) and its reference in double precision."""
    import torch
    from aihwkit import nn as an
    from aihwkit.simulator.configs import FloatingPointRPUConfig
    n_in, n_out = spec["data"]["features"], spec["data"]["classes"]
    sizes = [n_in] + ([spec["hidden"]] if spec["hidden"] else []) + [n_out]
    layers, ref = [], []
    for k, (a, b) in enumerate(zip(sizes, sizes[1:])):
        if spec["digital"] and k == 0 and len(sizes) > 2:
            layers.append(torch.nn.Linear(a, b, bias=spec["bias"]))
        else:
            layers.append(an.AnalogLinear(a, b, bias=spec["bias"], rpu_config=FloatingPointRPUConfig()))
        ref.append(torch.nn.Linear(a, b, bias=spec["bias"]).double())
        if k + 2 < len(sizes):
            layers.append(torch.nn.Tanh())
            ref.append(torch.nn.Tanh())
    layers.append(make_mode_layer())
    ref.append(make_mode_layer())
    if spec["loss"] == "NLLLoss":
        layers.append(torch.nn.LogSoftmax(dim=1))
        ref.append(torch.nn.LogSoftmax(dim=1))
    return an.AnalogSequential(*layers), torch.nn.Sequential(*ref)


def weights_of(model):
    import torch
    out = []
    for layer in model.children():
        if hasattr(layer, "analog_tiles"):
            w, b = layer.get_weights()
            out.append((w.double(), None if b is None else b.double()))
        elif isinstance(layer, torch.nn.Linear):
            out.append((layer.weight.detach().double(), None if layer.bias is None else layer.bias.detach().double()))
    return out


def load_reference(ref, weights):
    import torch
    with torch.no_grad():
        for layer, (w, b) in zip([x for x in ref if isinstance(x, torch.nn.Linear)], weights):
            layer.weight.copy_(w)
            if b is not None:
                layer.bias.copy_(b)


def execute_training(scn, ctx):
    # pylint: disable=too-many-locals,too-many-statements
    import copy
    import io
    import sys
    import torch
    from aihwkit.experiments import BasicTraining
    from aihwkit.experiments.runners import LocalRunner
    sched = Sched(scn["schedule"], ctx)
    world = World(ctx, sched)
    owners = {}
    exps = []
    for spec in copy.deepcopy(scn["exps"]):
        log = []
        data = make_dataset(spec["data"], log, world)
        model, ref = build_net(spec)
        exp = BasicTraining(data, model, batch_size=spec["batch"], loss_function=getattr(torch.nn, spec["loss"]), epochs=spec["epochs"],
                            learning_rate=spec["lr"])
        state = {"spec": spec, "exp": exp, "ref": ref, "log": log, "outputs": [], "fail": None}

        def capture(module, args, output, state=state):
            state["outputs"].append((module.training, output.detach().double()))
            if state["fail"] is not None:
                state["fail"] -= 1
                if state["fail"] < 0:
                    state["fail"] = None
                    ctx.fault("failing-model")
                    raise Broken("model")
        model.register_forward_hook(capture)
        load_reference(ref, weights_of(model))
        exps.append(state)
    runner = LocalRunner()

    def thread(n, ops):
        for i, op in enumerate(ops):
            index = op["e"] % len(exps)
            if owners.setdefault(index, n) != n:
                continue    # an experiment belongs to one thread
            ctx.step()
            train_once(ctx, exps[index], runner, op, f"thread {n}, operation {i}, experiment {index}")
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        for n, t in enumerate(scn["threads"]):
            sched.spawn(f"t{n}", lambda n=n, t=t: thread(n, t["ops"]))
        sched.run()
    finally:
        sys.stdout = old


def train_once(ctx, state, runner, op, where):
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    import torch
    from aihwkit.experiments.experiments.base import Signals
    spec, exp, ref, log, outputs = (state[k] for k in ("spec", "exp", "ref", "log", "outputs"))
    data = spec["data"]
    for k, v in op.get("set", {}).items():
        spec[k] = v
        setattr(exp, {"lr": "learning_rate", "batch": "batch_size", "loss": "loss_function"}.get(k, k),
                getattr(torch.nn, v) if k == "loss" else v)
        ctx.probe("settings-changed")
    del log[:], outputs[:]
    limit = min(op["max"], data["train"], data["val"]) if op["max"] else 0
    n_train, n_val = (limit, limit) if limit else (data["train"], data["val"])
    signals = []
    if op["fail"] == "dataset":
        data["_fail"] = op["at"]
    elif op["fail"] == "model":
        state["fail"] = op["at"] // 3
    hook_left = [op["at"] // 2 if op["fail"] == "hook" else None]
    if op["how"] == "direct":
        exp.clear_hooks()
        for s in Signals:
            def hook(*args, s=s):
                if hook_left[0] is not None:
                    hook_left[0] -= 1
                    if hook_left[0] < 0:
                        hook_left[0] = None
                        ctx.fault("failing-hook")
                        raise Broken("hook")
                signals.append((s.name, args))
                return {"seen": len(signals)} if s == Signals.EPOCH_END else None
            exp.add_hook(s, hook)
    error, results = None, None
    try:
        if op["how"] == "direct":
            results = exp.run(limit, "/nowhere")
        else:
            results = runner.run(exp, max_elements_train=limit, dataset_root="/nowhere", stdout=op["stdout"])
    except Broken as exc:
        error = exc
    fired = {"dataset": data.pop("_fail", 0) is None, "model": state["fail"] is None, "hook": hook_left[0] is None}.get(op["fail"], False)
    fired = fired and (op["fail"] != "hook" or op["how"] == "direct")
    state["fail"] = None
    ctx.require((error is not None) == fired, "error-swallowed", f"{where}: injected {fired}, reported {error!r}")
    # What was read: per epoch all training elements once, then all validation elements once.
    items = [(s, i) for k, s, i in log if k == "item"]
    batches, pos, epoch_sets = [], 0, []
    for _ in range(spec["epochs"]):
        for split, n in (("train", n_train), ("val", n_val)):
            got = items[pos:pos + n]
            pos += len(got)
            if not fired or len(got) == n and pos < len(items):
                ctx.require(sorted(got) == [(split, k) for k in range(n)], "elements", f"{where}: {split} elements of an epoch: {got}")
            epoch_sets.append((split, [got[k:k + spec["batch"]] for k in range(0, len(got), spec["batch"])], len(got) == n))
    ctx.require(pos == len(items), "elements", f"{where}: {len(items)} elements read in {spec['epochs']} epochs of {n_train}+{n_val}")
    ctx.require(all(root == "/nowhere" for k, _, root in log if k == "open"), "dataset-root", str(log[:2]))
    # The reference follows the order in which elements were read.
    opt = torch.optim.SGD(ref.parameters(), lr=spec["lr"])
    loss_fn = getattr(torch.nn, spec["loss"])()
    done = len(outputs)
    expected = []
    count = 0
    stop = False
    for split, parts, _ in epoch_sets:
        acc = {"n": 0, "ok": 0, "loss": 0.0}
        for k, part in enumerate(parts):
            if count >= done:
                stop = True
                break
            training, out = outputs[count]
            count += 1
            x = torch.stack([sample(data, s, i)[0] for s, i in part]).double()
            y = torch.tensor([sample(data, s, i)[1] for s, i in part])
            ctx.require(training == (split == "train"), "mode", f"{where}: {split} batch in {'training' if training else 'evaluation'} mode")
            ref.train(split == "train")
            want = ref(x)
            diff = core.first_difference(want.detach(), out, tol=2e-4)
            ctx.require(diff is None, "training-trajectory", lambda: f"{where}: {split} batch {k} of {len(parts)}: {diff}")
            loss = loss_fn(want, y)
            last = count == done and error is not None
            if split == "train" and not (last and str(error) == "model"):
                hooked = last and str(error) == "hook"
                opt.zero_grad()
                loss.backward()
                opt.step()
                if hooked:
                    pass    # the hook of a batch is called after its step
            acc["n"] += len(part)
            acc["ok"] += int((out.argmax(1) == y).sum())
            acc["loss"] += float(loss_fn(out, y)) * len(part)
        expected.append((split, acc))
        if stop:
            break
    diff = core.first_difference([w for w in weights_of(ref)], weights_of(exp.model), tol=5e-4)
    if error is None or str(error) != "hook":
        ctx.require(diff is None, "trained-weights", lambda: f"{where}: reference against weights after the run: {diff}")
    load_reference(ref, weights_of(exp.model))
    ctx.state(weights_of(exp.model))
    ctx.log(where, op["how"], str(error), len(items))
    ctx.sim_time += spec["epochs"]
    if op["how"] == "direct":
        check_signals(ctx, where, signals, expected, spec, error)
    if error is not None:
        ctx.probe("failed-runs")
        return
    ctx.probe("runs")
    ctx.require(len(results) == spec["epochs"] and [r["epoch"] for r in results] == list(range(spec["epochs"])), "epochs",
                f"{where}: {spec['epochs']} epochs, results {results}")
    if op["how"] != "direct":
        for e, r in enumerate(results):
            tr, va = expected[2 * e][1], expected[2 * e + 1][1]
            want = {"accuracy": va["ok"] / va["n"], "train_loss": tr["loss"] / tr["n"], "valid_loss": va["loss"] / va["n"]}
            got = {k: float(r[k]) for k in want}
            diff = core.first_difference(want, got, tol=1e-4)
            for k in want:
                ok = abs(want[k] - got[k]) <= 1e-4 * (1 + abs(want[k]))
                ctx.require(ok, "metrics", f"{where}: {k} of epoch {e} is {got[k]}, of the outputs {want[k]}")
            ctx.require(float(r["time_epoch"]) >= 0.0, "metrics", f"{where}: {r}")
            ctx.probe("epochs-compared")


def check_signals(ctx, where, signals, expected, spec, error):
    names = [s for s, _ in signals]
    want = []
    for e in range(spec["epochs"]):
        want += [("EPOCH_START", (e,)), ("TRAIN_EPOCH_START", (e,))]
        if 2 * e < len(expected):
            want += [("TRAIN_EPOCH_BATCH_END", None)] * -(-expected[2 * e][1]["n"] // spec["batch"])
        want += [("TRAIN_EPOCH_END", ()), ("VALIDATION_EPOCH_START", (e,))]
        if 2 * e + 1 < len(expected):
            want += [("VALIDATION_EPOCH_BATCH_END", None)] * -(-expected[2 * e + 1][1]["n"] // spec["batch"])
        want += [("VALIDATION_EPOCH_END", ()), ("EPOCH_END", ())]
    if error is None:
        ctx.require(names == [n for n, _ in want], "signals", f"{where}: {names}")
    else:
        ctx.require(len(names) <= len(want), "signals", f"{where}: {names}")
    for k, ((name, args), (wname, wargs)) in enumerate(zip(signals, want)):
        if error is not None and name != wname:
            break    # the part in which it failed
        ctx.require(name == wname and (wargs is None or args == wargs), "signals", f"{where}: signal {k} is {name}{args}, not {wname}{wargs}")
    if error is not None:
        return
    n = ok = loss = 0
    for e, (split, acc) in enumerate(expected):
        name = "TRAIN_EPOCH_BATCH_END" if split == "train" else "VALIDATION_EPOCH_BATCH_END"
        mine = []
        marks = [k for k, s in enumerate(names) if s == ("TRAIN_EPOCH_START" if split == "train" else "VALIDATION_EPOCH_START")]
        start = marks[e // 2]
        for s, args in signals[start + 1:]:
            if s != name:
                break
            mine.append(args)
        n, loss = sum(a[0] for a in mine), sum(float(a[-1]) for a in mine)
        ctx.require(n == acc["n"] and abs(loss - acc["loss"]) <= 1e-4 * (1 + abs(loss)), "signals",
                    f"{where}: {name} reports {n} elements and loss {loss}, of the outputs {acc}")
        if split == "val":
            ok = sum(int(a[1]) for a in mine)
            ctx.require(ok == acc["ok"], "signals", f"{where}: {name} reports {ok} correct, of the outputs {acc['ok']}")
    ctx.probe("signals-compared")


# -- inference ------------------------------------------------------------------------------------------------------------------

def gen_inference(rng, tier):
    templates = []
    for k in range(rng.randrange(1, 3)):
        templates.append({"form": zoo.pick(rng, "name", "name", "nested", "url", "file"), "weights": rng.getrandbits(30)})
    data = gen_data(rng)
    net = {"data": data, "hidden": zoo.pick(rng, 0, 0, 3), "bias": rng.random() < 0.6, "mapped": rng.random() < 0.3,
           "cls": zoo.pick(rng, "InferenceRPUConfig", "TorchInferenceRPUConfig"), "comp": rng.random() < 0.3,
           "omega": zoo.pick(rng, 0.0, 0.5, 1.0)}
    threads = []
    for _ in range(rng.randrange(1, 4)):
        ops = []
        for _ in range(rng.randrange(1, 6 if tier != "quick" else 4)):
            ops.append({"op": "run", "template": zoo.pick(rng, None, 0, 0, 0, 1), "how": zoo.pick(rng, "direct", "runner"),
                        "repeats": rng.randrange(1, 4), "time": zoo.pick(rng, 10, 86400, 10**6), "batch": rng.randrange(1, 6),
                        "publish": rng.getrandbits(30) if rng.random() < 0.3 else None,
                        "max": zoo.pick(rng, 0, 0, 2), "fresh": rng.random() < 0.5, "remap": rng.random() < 0.5,
                        "net": zoo.pick(rng, None, None, None, "refused", "404", "500", "torn", "lost-response"),
                        "disk": zoo.pick(rng, None, None, None, None, "full", "crash", "short"), "at": rng.randrange(0, 6000),
                        "fail": zoo.pick(rng, None, None, None, None, "dataset", "noise"), "n": rng.randrange(0, 30)})
        threads.append({"ops": ops})
    return {"seed": rng.getrandbits(32), "templates": templates, "net": net, "threads": threads,
            "schedule": [rng.randrange(60) for _ in range(rng.randrange(0, 100))]}


def law(t):
    return (1.0 + t) ** -0.05


def make_noise(world):
    """A noise model of our own: programming multiplies with a drawn factor, drift follows a power law."""
    from aihwkit.inference.noise.base import BaseNoiseModel

    class SimNoise(BaseNoiseModel):  # pylint: disable=missing-class-docstring
        def apply_programming_noise(self, weights):
            world.sched.point()
            f = 1.0 - 0.25 * world.rng.random()
            world.programs.setdefault(world.who(), []).append((tuple(weights.shape), f))
            fail(world)
            return weights * f, [None]

        def apply_drift_noise(self, weights, drift_noise_parameters, t_inference):
            world.sched.point()
            return weights * law(t_inference)

        def apply_programming_noise_to_conductance(self, g_target):
            raise NotImplementedError

        def generate_drift_coefficients(self, g_target):
            raise NotImplementedError

        def apply_drift_noise_to_conductance(self, g_prog, drift_noise_param, t_inference):
            raise NotImplementedError

        def __deepcopy__(self, memo):
            return self

        def __reduce__(self):
            return the_noise, ()

        def __eq__(self, other):
            return self is other
        __hash__ = None
    CURRENT[:] = [SimNoise()]
    return CURRENT[0]


CURRENT = []


def the_noise():
    """The noise model of this run (what a pickled one becomes again)."""
    return CURRENT[0]


def fail(world):
    who = world.who()
    if world.noise_fail.get(who) is not None:
        world.noise_fail[who] -= 1
        if world.noise_fail[who] < 0:
            world.noise_fail[who] = None
            world.ctx.fault("failing-noise-model")
            raise Broken("noise")


def build_inference(net, world):
    import torch
    from aihwkit import nn as an
    from aihwkit.inference.compensation.drift import GlobalDriftCompensation
    from aihwkit.simulator import configs
    c = getattr(configs, net["cls"])()
    c.forward.is_perfect = True
    c.noise_model = world.noise
    c.drift_compensation = GlobalDriftCompensation() if net["comp"] else None
    c.mapping.digital_bias = True
    c.mapping.weight_scaling_omega = net["omega"]
    c.mapping.learn_out_scaling = False
    n_in, n_out = net["data"]["features"], net["data"]["classes"]
    sizes = [n_in] + ([net["hidden"]] if net["hidden"] else []) + [n_out]
    layers = []
    if net["mapped"]:
        c.mapping.max_input_size, c.mapping.max_output_size = 3, 2
    for k, (a, b) in enumerate(zip(sizes, sizes[1:])):
        cls = an.AnalogLinearMapped if net["mapped"] else an.AnalogLinear
        layers.append(cls(a, b, bias=net["bias"], rpu_config=c))
        if k + 2 < len(sizes):
            layers.append(torch.nn.Tanh())
    layers.append(make_mode_layer())
    layers.append(torch.nn.LogSoftmax(dim=1))
    return an.AnalogSequential(*layers)


class Disk:
    """Writes below a directory, in small pieces, with faults; everything else is the real file system."""

    def __init__(self, world, top):
        self.world, self.top = world, top
        self.plan = {}    # thread -> [kind, bytes left]

    def __enter__(self):
        import builtins
        self.orig = builtins.open
        disk = self

        def opener(file, mode="r", *args, **kwargs):
            f = disk.orig(file, mode, *args, **kwargs)
            if isinstance(file, int) or not any(c in mode for c in "wax+"):
                return f
            import os
            if not os.path.abspath(os.fspath(file)).startswith(disk.top):
                return f
            return Slow(f, disk)
        builtins.open = opener
        return self

    def __exit__(self, *exc):
        import builtins
        builtins.open = self.orig


class Slow:
    """A file that is written piece by piece."""

    def __init__(self, f, disk):
        self._f, self._disk = f, disk

    def write(self, data):
        view = memoryview(data)
        who = self._disk.world.who()
        plan = self._disk.plan.get(who)
        for k in range(0, max(1, len(view)), 700):
            part = view[k:k + 700]
            self._disk.world.sched.point()
            if plan and plan[1] < len(part):
                kind = plan[0]
                self._f.write(part[:plan[1]])
                self._f.flush()
                self._disk.plan.pop(who)
                self._disk.world.ctx.fault("disk-" + kind)
                if kind == "crash":
                    raise core.SimCrash("while writing a file")
                raise OSError(28, "No space left on device")
            self._f.write(part)
            if plan:
                plan[1] -= len(part)
        return len(view)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self._f.close()

    def __getattr__(self, name):
        return getattr(self._f, name)


def make_template(net, world, seed):
    import io
    import torch
    torch.manual_seed(seed)
    model = build_inference(net, world)
    buf = io.BytesIO()
    torch.save(model.state_dict(), buf)
    return model, buf.getvalue()


def execute_inference(scn, ctx):
    # pylint: disable=too-many-locals,too-many-statements
    import glob
    import io
    import os
    import shutil
    import sys
    import tempfile
    import threading
    import torch
    from sim import engine
    sched = Sched(scn["schedule"], ctx)
    world = World(ctx, sched)
    world.rng = core.rng_for(scn["seed"], "noise")
    world.programs, world.noise_fail = {}, {}
    world.who = lambda: threading.current_thread().name
    world.noise = make_noise(world)
    net = scn["net"]
    tag = f"sim-{os.getpid()}-{scn['seed']}"
    scratch = tempfile.mkdtemp(prefix="sim-exp-")
    here = os.getcwd()
    webhost = "templates.sim"
    served = {}
    world.templates = []
    old, sys.stdout = sys.stdout, io.StringIO()

    class Web:    # pylint: disable=missing-class-docstring,too-few-public-methods
        @staticmethod
        def handle(entry):
            key = entry["path"].rsplit("/", 1)[1].split("?")[0]
            world.fetched = getattr(world, "fetched", 0) + 1
            return (200, {}, served[key]) if key in served else (404, {}, b"Not Found")
    try:
        os.chdir(scratch)
        engine.seed_all(core.derive(scn["seed"], "construct"), engine.MODE_SEEDED)
        for k, t in enumerate(scn["templates"]):
            name = f"{tag}-{k}"
            model, served[name + ".pth"] = make_template(net, world, t["weights"])
            ident = {"name": name, "nested": f"{tag}/{name}", "url": f"https://{webhost}/pub/{name}.pth", "file": f"{scratch}/{name}.pth"}[t["form"]]
            if t["form"] == "file":
                with open(ident, "wb") as f:
                    f.write(served[name + ".pth"])
            world.templates.append({"id": ident, "weights": logical(model), "form": t["form"], "scaled": scaled(model)})
        host = Web()
        network = cloudsim.Network(ctx, sched)
        network.hosts.update({webhost: host, "github.com": host, "raw.githubusercontent.com": host})
        world.network = network
        network.actor_of = world.who
        with network, Disk(world, "/tmp/weight_templates") as disk:
            for n, t in enumerate(scn["threads"]):
                model = build_inference(net, world)
                sched.spawn(f"t{n}", lambda n=n, t=t, model=model: inference_thread(ctx, world, disk, net, model, t["ops"], n))
            sched.run()
    finally:
        sys.stdout = old
        os.chdir(here)
        shutil.rmtree(scratch)
        for path in glob.glob(f"/tmp/weight_templates/{tag}/*") + glob.glob(f"/tmp/weight_templates/*{tag}*"):
            os.rmdir(path) if os.path.isdir(path) else os.remove(path)  # pylint: disable=expression-not-assigned


def logical(model):
    return [(w.double(), None if b is None else b.double()) for w, b in (
        layer.get_weights() for layer in model.children() if hasattr(layer, "analog_tiles"))]


def inference_thread(ctx, world, disk, net, model, ops, n):
    # pylint: disable=too-many-locals,too-many-arguments,too-many-branches,too-many-statements
    import copy
    import torch
    from aihwkit.experiments import BasicInferencing
    from aihwkit.experiments.experiments.base import Signals
    from aihwkit.experiments.runners.i_local import InferenceLocalRunner
    from aihwkit.experiments.runners.i_metrics import InferenceLocalMetric
    who = f"t{n}"
    log, spec = [], dict(net["data"])
    data = make_dataset(spec, log, world)
    own = logical(model)    # programmed weights of the experiment's model
    exp = None
    for i, op in enumerate(ops):
        ctx.step()
        where = f"thread {n}, operation {i}"
        if exp is None or op["fresh"]:
            exp = BasicInferencing(data, copy.deepcopy(model), loss_function=torch.nn.NLLLoss)
            current = own
        template = None
        if op["template"] is not None:
            template = world.templates[op["template"] % len(world.templates)]
        if template and template["form"] == "file" and op.get("publish") is not None:
            fresh, content = make_template(net, world, op["publish"])
            with open(template["id"], "wb") as f:
                f.write(content)
            template["weights"], template["scaled"] = logical(fresh), scaled(fresh)
            ctx.probe("templates-replaced")
        exp.weight_template_id = template["id"] if template else ""
        exp.batch_size, exp.inference_repeats, exp.inference_time, exp.remap_weights = op["batch"], op["repeats"], op["time"], op["remap"]
        reference = template["weights"] if template else current
        outputs = []
        capture = exp.model.register_forward_hook(lambda m, a, o: outputs.append((m.training, o.detach().double())))
        limit = min(op["max"], spec["val"])
        n_val = limit or spec["val"]
        # faults of this operation
        net_n = world.network.counts.get(who, 0) + 1
        if op["net"]:
            world.network.faults[(who, net_n)] = op["net"]
        if op["disk"]:
            disk.plan[who] = [op["disk"], op["at"]]
        if op["fail"] == "dataset":
            spec["_fail"] = op["n"]
        elif op["fail"] == "noise":
            world.noise_fail[who] = op["n"] // 3
        del log[:]
        world.programs[who] = []
        injected = dict(ctx.faults)
        world.network.begin(who)
        kept = copy.deepcopy(exp.model)
        error = None
        result = None
        partial = []
        try:
            if op["how"] == "direct":
                exp.clear_hooks()
                metric = InferenceLocalMetric()
                exp.add_hook(Signals.INFERENCE_REPEAT_START, metric.receive_repeat_start)
                exp.add_hook(Signals.INFERENCE_REPEAT_END, metric.receive_repeat_end)
                exp.add_hook(Signals.INFERENCE_REPEAT_END, lambda *a: partial.append(a))
                with torch.no_grad():
                    result = exp.run(limit, "/nowhere", torch.device("cpu"))
            else:
                with torch.no_grad():
                    result = InferenceLocalRunner(device=torch.device("cpu")).run(exp, max_elements=limit, dataset_root="/nowhere")
        except core.SimCrash as exc:
            error = exc
        except Exception as exc:  # pylint: disable=broad-except
            error = exc
        capture.remove()
        data_failed = op["fail"] == "dataset" and spec.get("_fail", 0) is None
        noise_failed = op["fail"] == "noise" and world.noise_fail.get(who, 0) is None
        disk_failed = bool(op["disk"]) and who not in disk.plan
        spec.pop("_fail", None), world.noise_fail.pop(who, None), disk.plan.pop(who, None)
        sent = world.network.last[who]
        net_failed = any(e["fault"] for e in sent)
        world.network.faults.pop((who, net_n), None)
        excuse = data_failed or noise_failed or disk_failed or net_failed
        ctx.log(where, type(error).__name__ if error else "ok", len(log), len(sent), str(error)[:80] if error and not excuse else "")
        if error is not None:
            if not excuse and template is not None and scaled(kept) and not template["scaled"] and "mapping_scales" in str(error):
                ctx.require(False, "template-refused-after-remap", f"{where}: {error}")
            ctx.require(excuse, "failed-without-fault", lambda: f"{where}: {type(error).__name__}: {error} "
                        f"{[str(x) for x in error.args][:1]} after {len(outputs)} batches ({injected} -> {ctx.faults})")
            ctx.require(logical_equal(logical(kept), logical(exp.model)), "model-changed", f"{where}: the failed run changed the model")
            ctx.probe("failed-runs")
            if isinstance(error, core.SimCrash):
                exp = None    # a new process
            continue
        ctx.require(not (data_failed or noise_failed), "error-swallowed", f"{where}: {data_failed} {noise_failed}")
        check_inference(ctx, where, world.programs[who], reference, outputs, log, spec, op, n_val, result, partial, exp)
        if template is not None:
            current = reference
            ctx.probe("template-runs")
        ctx.probe("runs")
        exp.model = strip(exp.model)
        ctx.sim_time += op["time"] * op["repeats"]
        ctx.state([w for w, _ in logical(exp.model)])


def strip(model):
    model._forward_hooks.clear()  # pylint: disable=protected-access
    return model


def scaled(model):
    """Whether any of its tiles has mapping scales."""
    return any(tile.get_mapping_scales() is not None for tile in model.analog_tiles())


def logical_equal(a, b):
    return core.first_difference(a, b) is None


def check_inference(ctx, where, programs, reference, outputs, log, spec, op, n_val, result, partial, exp):
    # pylint: disable=too-many-locals,too-many-arguments
    import math
    import torch
    times = [0.0] + [10 ** (k * math.log10(float(op["time"])) / 8) for k in range(9)]
    n_batches = -(-n_val // op["batch"])
    ctx.require(len(outputs) == op["repeats"] * 10 * n_batches, "passes", f"{where}: {len(outputs)} batches for {op['repeats']} repeats, 10 "
                f"times and {n_batches} batches")
    items = [(s, k) for kind, s, k in log if kind == "item"]
    ctx.require(items == [("val", k) for k in range(n_val)] * (10 * op["repeats"]), "elements", f"{where}: elements read {items[:30]}")
    tiles = list(exp.model.analog_tiles())
    ctx.require(len(programs) == op["repeats"] * len(tiles), "programming", f"{where}: {len(programs)} tiles programmed for {op['repeats']} "
                f"repeats of {len(tiles)} tiles")
    x = torch.stack([sample(spec, "val", k)[0] for k in range(n_val)]).double()
    y = torch.tensor([sample(spec, "val", k)[1] for k in range(n_val)])
    layers = [m for m in exp.model.children() if hasattr(m, "analog_tiles")]
    acc, err, loss = [], [], []
    for r in range(op["repeats"]):
        factors = [f for _, f in programs[r * len(tiles):(r + 1) * len(tiles)]]
        for k, t in enumerate(times):
            got = outputs[(r * 10 + k) * n_batches:(r * 10 + k + 1) * n_batches]
            ctx.require(not any(training for training, _ in got), "mode", f"{where}: inference in training mode")
            got = torch.cat([o for _, o in got])
            z, pos = x, 0
            for li, (layer, (w, b)) in enumerate(zip(layers, reference)):
                n_tiles = len(list(layer.analog_tiles()))
                scale = apply_factors(layer, w, factors[pos:pos + n_tiles])
                pos += n_tiles
                comp = any(tile.rpu_config.drift_compensation is not None for tile in layer.analog_tiles())
                z = z @ (scale * (1.0 if comp else law(t))).T + (0 if b is None else b)
                if li + 1 < len(layers):
                    z = torch.tanh(z)
            want = torch.log_softmax(z * 0.5, 1)
            diff = core.first_difference(want, got, tol=3e-4)
            ctx.require(diff is None, "outputs", lambda: f"{where}: repeat {r}, time {t:.6g}: reference against output: {diff}")
            acc.append(100.0 * float((got.argmax(1) == y).double().mean()))
            err.append(100.0 - acc[-1])
            loss.append(float(torch.nn.functional.nll_loss(got, y)))

    def stats(values, n_rep, fn):
        return [fn([values[r * 10 + k] for r in range(n_rep)]) for k in range(10)]

    def mean(v):
        return sum(v) / len(v)

    def std(v):
        return (sum((a - mean(v)) ** 2 for a in v) / len(v)) ** 0.5
    runs = result["inference_runs"]
    rows = runs["inference_results"]
    ctx.require(runs["inference_repeat"] == op["repeats"] and runs["is_partial"] is False and len(rows) == 10, "results", f"{where}: {runs}")
    want = {"t_inference": times, "avg_accuracy": stats(acc, op["repeats"], mean), "std_accuracy": stats(acc, op["repeats"], std),
            "avg_error": stats(err, op["repeats"], mean), "avg_loss": stats(loss, op["repeats"], mean)}
    for key, values in want.items():
        for k, v in enumerate(values):
            ok = abs(float(rows[k][key]) - v) <= 1e-3 * (1 + abs(v))
            ctx.require(ok, "results", f"{where}: {key} at time {times[k]:.6g} is {rows[k][key]}, of the outputs {v}")
    for n_rep, args in enumerate(partial, 1):
        for key, values in (("avg_accuracy", args[1]), ("avg_loss", args[4])):
            src = acc if key == "avg_accuracy" else loss
            for k, v in enumerate(stats(src, n_rep, mean)):
                ctx.require(abs(float(values[k]) - v) <= 1e-3 * (1 + abs(v)), "results", f"{where}: {key} after {n_rep} repeats")
    if op["how"] == "direct":
        ctx.require(len(partial) == op["repeats"], "results", f"{where}: {len(partial)} reports for {op['repeats']} repeats")
    ctx.probe("results-compared")


def apply_factors(layer, w, factors):
    """Every tile's part of the weights times its programming factor."""
    import torch
    module = getattr(layer, "analog_module", layer)
    if len(factors) == 1:
        return w * factors[0]
    out, k, col = torch.empty_like(w), 0, 0
    for i, n_in in enumerate(module.in_sizes):
        row = 0
        for n_out in module.out_sizes:
            out[row:row + n_out, col:col + n_in] = w[row:row + n_out, col:col + n_in] * factors[k]
            row += n_out
            k += 1
        col += n_in
    return out


def warm():
    """Imports that no forked run should have to repeat."""
    # pylint: disable=unused-import
    import requests
    import torch
    from torch.utils.data import DataLoader
    from torchvision import datasets
    from aihwkit.experiments.runners import LocalRunner
    from aihwkit.experiments.runners.i_local import InferenceLocalRunner
    from aihwkit.simulator import configs
    for _ in DataLoader(torch.utils.data.TensorDataset(torch.rand(3, 1)), batch_size=2, shuffle=True):
        pass
