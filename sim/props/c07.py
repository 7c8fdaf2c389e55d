"""C07: jobs in several threads of one process do not matter to each other (thread scheduling at any line of Python code)."""
from sim import core, engine, zoo
from sim.sched import Sched, lines

PID = "C07"
FAMS = ["single", "vector", "reference", "onesided", "transfer", "buffered", "chopped", "dynamic", "mixed", "float",
        "inference", "inference", "torch", "irdrop", "quant", "custom", "torchtransfer"]
OPTS = ["sgd", "sgdm", "adam", "wrapped"]


def gen_ops(rng, fam, n):
    training = fam in zoo.TRAINING or fam == "float"
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            ops.append({"op": "train", "n": rng.randrange(1, 3), "scale": zoo.pick(rng, 1.0, 3.0)})
        elif r < 0.48:
            ops.append({"op": "eval", "stay": rng.random() < 0.5})
        elif r < 0.54:
            ops.append({"op": "setw", "amp": zoo.pick(rng, 0.3, 1.0)})
        elif r < 0.60:
            ops.append({"op": "lr", "v": zoo.pick(rng, 0.02, 0.1, 0.5)})
        elif r < 0.68 and fam in zoo.INFERENCE:
            ops.append({"op": "program", "t": zoo.pick(rng, 0.0, 100.0), "noise": rng.random() < 0.4, "g": rng.randrange(5, 40)})
        elif r < 0.74 and fam in zoo.INFERENCE and fam != "irdrop":
            ops.append({"op": "remap", "omega": zoo.pick(rng, 0.5, 1.0)})
        elif r < 0.74 and training:
            ops.append({"op": zoo.pick(rng, "drift", "decay", "diffuse", "reset"), "t": 1.0, "p": 1.0})
        elif r < 0.82:
            ops.append({"op": "copy", "how": zoo.pick(rng, "deepcopy", "pickle", "restart")})
        elif r < 0.9:
            ops.append({"op": "convert", "name": zoo.pick(rng, "Net", "Net", "Model"), "f": rng.randrange(1, 5), "back": rng.random() < 0.5,
                        "opt": rng.random() < 0.4})
        elif r < 0.95:
            ops.append({"op": "rebuild", "k": rng.randrange(100)})
        else:
            ops.append({"op": "load"})
    return ops


def gen(rng, tier, index):
    threads = []
    for k in range(zoo.pick(rng, 2, 2, 3)):
        if k and rng.random() < 0.4:
            t = dict(threads[0], share=rng.random() < 0.5)
            fam = t["family"]
        else:
            fam = FAMS[index % len(FAMS)] if k == 0 else zoo.pick(rng, *FAMS)
            t = {"family": fam, "config": zoo.gen_config(rng, fam), "model": zoo.gen_model(rng, fam), "share": False}
        t["ops"] = gen_ops(rng, fam, rng.randrange(1, 5 if tier == "quick" else 9))
        t["opt"], t["lr"], t["regroup"] = zoo.pick(rng, *OPTS), zoo.pick(rng, 0.05, 0.2), rng.random() < 0.3
        t["seed"] = rng.getrandbits(32)
        t["gaps"] = [zoo.pick(rng, rng.randrange(1, 20), rng.randrange(1, 200), rng.randrange(1, 1500)) for _ in range(rng.randrange(0, 30))]
        threads.append(t)
    if threads[0]["model"]["kind"] in ("mapped", "conv2dmapped"):
        for t in threads:
            t["share"] = False    # building such a model adapts its configuration
    return {"seed": rng.getrandbits(32), "threads": threads, "shared_seed": rng.getrandbits(32),
            "schedule": [rng.randrange(6) for _ in range(rng.randrange(10, 120))]}


def warm():
    """No import may be left to the runs: a thread preempted while it imports would hold the lock of the module. What the runs
    import is found out in a child, so that nothing of the library has been used in this process."""
    import importlib
    import json
    import os
    import sys
    import sim.train  # noqa: F401
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            for fam in sorted(set(FAMS)):
                rng = core.rng_for(1, PID, fam)
                for k in range(4):
                    scn = gen(rng, "quick", FAMS.index(fam))
                    scn["threads"] = scn["threads"][:1]
                    scn["threads"][0]["ops"] = [{"op": "convert", "name": "Net", "f": 1, "back": True, "opt": True},
                                                {"op": "train", "n": 1, "scale": 1.0}, {"op": "copy", "how": "restart"},
                                                {"op": "program", "t": 1.0, "noise": True, "g": 20},
                                                {"op": "remap", "omega": 1.0}][:None if fam in zoo.INFERENCE else 3]
                    scn["threads"][0]["opt"] = OPTS[k]
                    program(scn, 0, Shared(scn), [])
            with os.fdopen(wfd, "w") as f:
                json.dump(sorted(sys.modules), f)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd) as f:
        names = json.load(f)
    os.waitpid(pid, 0)
    for name in names:
        if name not in sys.modules and not name.startswith("__"):
            try:
                importlib.import_module(name)
            except Exception:  # pylint: disable=broad-except
                pass


class Streams:
    """The random streams a thread of the simulation has for itself."""

    @staticmethod
    def save():
        import random
        import numpy
        import torch
        return (engine.SEAM.sim_get_state(), engine.SEAM.sim_engine_mode(), torch.get_rng_state(), numpy.random.get_state(), random.getstate())

    @staticmethod
    def restore(state):
        import random
        import numpy
        import torch
        engine.SEAM.sim_set_state(state[0])
        engine.SEAM.sim_set_mode(state[1])
        torch.set_rng_state(state[2])
        numpy.random.set_state(state[3])
        random.setstate(state[4])


def execute(scn, ctx):
    import os
    import pickle
    from sim.build import REPO
    shared = Shared(scn)
    alone = []
    for n in range(len(scn["threads"])):
        # what the thread sees when it has a process for itself
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                out = {}
                sched = Sched([])
                sched.context = Streams
                sched.spawn(f"t{n}", lambda n=n: program(scn, n, shared, out.setdefault(n, [])))
                sched.run()
                with os.fdopen(wfd, "wb") as f:
                    f.write(pickle.dumps(out[n]))
            except BaseException:  # pylint: disable=broad-except
                import traceback
                with os.fdopen(wfd, "wb") as f:
                    f.write(pickle.dumps([("failed", traceback.format_exc())]))
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        ctx.require(data, "killed-alone", f"the process of thread {n} died")
        alone.append(pickle.loads(data))
        if alone[-1] and alone[-1][-1][0] == "failed":
            raise RuntimeError(alone[-1][-1][1])
    together = [[] for _ in scn["threads"]]
    sched = Sched(scn["schedule"], ctx)
    sched.context = Streams

    def thread(n):
        with lines(sched, REPO + "/src/aihwkit/", scn["threads"][n]["gaps"]):
            program(scn, n, shared, together[n])
    for n in range(len(scn["threads"])):
        sched.spawn(f"t{n}", lambda n=n: thread(n))
    sched.run()
    ctx.fault("preemption", sched.switches)
    for n, (a, b) in enumerate(zip(alone, together)):
        ops = [{"op": "build"}] + scn["threads"][n]["ops"]
        for i, (want, got) in enumerate(zip(a, b)):
            ctx.step()
            diff = core.first_difference(want, got, tol=0.0)
            ctx.require(diff is None, "threads-interfere", lambda: f"thread {n} ({scn['threads'][n]['family']}), operation {i - 1} {ops[i]}, "
                        f"alone against with the others: {diff}")
            ctx.state(want)
            ctx.probe("op-" + ops[i]["op"])
        ctx.require(len(a) == len(b), "threads-interfere", f"thread {n} did {len(b)} of {len(a)} operations")


class Shared:
    """What the main thread hands to all: configuration objects and a checkpoint."""

    def __init__(self, scn):
        from sim.train import Job
        first = scn["threads"][0]
        self.config = zoo.build_config(first["config"])
        self.checkpoint = None
        if any(op["op"] == "load" for t in scn["threads"] for op in t["ops"]):
            job = Job(first, scn["shared_seed"])
            self.checkpoint = job.model.state_dict()
        self.spec = (first["config"], first["model"])


def program(scn, n, shared, out):
    from sim.train import Job, copied
    t = scn["threads"][n]
    engine.seed_all(core.derive(t["seed"], "start"))
    job = Job.__new__(Job)
    job.scn, job.lr = t, t["lr"]
    engine.seed_all(core.derive(t["seed"], "construct"), engine.MODE_SEEDED)
    job.model = zoo.build_model(t["model"], shared.config if t["share"] else zoo.build_config(t["config"]))
    job.build_optimizer()
    out.append(("ok", copied(job.observe())))
    for i, op in enumerate(t["ops"]):
        try:
            job, res = act(t, job, i, op, shared)
            error = None
        except Exception as exc:  # pylint: disable=broad-except
            res, error = None, f"{type(exc).__name__}: {str(exc)[:80]}"
        out.append(("ok" if error is None else error, copied([res, job.observe()])))


def act(t, job, i, op, shared):
    # pylint: disable=too-many-branches,too-many-locals
    import copy
    import pickle
    import torch
    from sim.train import Job, restore
    kind = op["op"]
    engine.seed_all(core.derive(t["seed"], "op", i), engine.MODE_STREAM)
    if kind == "copy":
        if op["how"] == "restart":
            return restore(t, job.save(), core.derive(t["seed"], "again", i), "model-first", None), None
        model = copy.deepcopy(job.model) if op["how"] == "deepcopy" else pickle.loads(pickle.dumps(job.model))
        new = Job.__new__(Job)
        new.scn, new.lr, new.model = t, job.lr, model
        new.build_optimizer()
        return new, None
    if kind == "rebuild":
        new = Job(t, core.derive(t["seed"], "rebuild", op["k"]))
        new.build_optimizer()
        return new, None
    if kind == "program":
        job.model.eval()
        model = None
        if op["noise"]:
            from aihwkit.inference import PCMLikeNoiseModel
            model = PCMLikeNoiseModel(g_max=float(op["g"]))
        for _, tile in job.tiles():
            tile.program_weights(noise_model=model)
            tile.drift_weights(op["t"])
        y = job.evaluate(stay=True)
        job.model.train()
        return job, y
    if kind == "load":
        if shared.checkpoint is None or (t["config"], t["model"]) != shared.spec:
            return job, None
        job.model.load_state_dict(shared.checkpoint)
        return job, None
    if kind == "convert":
        return job, convert(t, op, job)
    return job, job.apply(i, op)


def convert(t, op, job):
    """A digital model of a class of the thread's own (threads may have different ones of the same name), converted and used."""
    import torch
    from aihwkit.nn.conversion import convert_to_analog, convert_to_digital
    from aihwkit.optim import AnalogOptimizer
    f = float(op["f"])

    class Net(torch.nn.Module):  # pylint: disable=missing-class-docstring
        def __init__(self):
            super().__init__()
            self.layer = torch.nn.Linear(3, 2)

        def forward(self, x):  # pylint: disable=missing-function-docstring
            return self.layer(x) * f

        def factor(self):  # pylint: disable=missing-function-docstring
            return f
    Net.__name__ = Net.__qualname__ = op["name"]

    class Descent(torch.optim.SGD):  # pylint: disable=missing-class-docstring
        def step(self, closure=None):  # pylint: disable=missing-function-docstring
            for _ in range(int(f)):
                super().step(closure)
    engine.seed_all(core.derive(t["seed"], "convert", op["f"]), engine.MODE_SEEDED)
    model = convert_to_analog(Net(), zoo.build_config(t["config"]))
    engine.seed_all(core.derive(t["seed"], "use", op["f"]), engine.MODE_STREAM)
    x = torch.rand(2, 3)
    if op["opt"]:
        opt = AnalogOptimizer(Descent, model.parameters(), lr=0.1)
        (model(x) ** 2).sum().backward()
        opt.step()
    res = [model(x).detach(), model.factor(), model.layer.get_weights()]
    if op["back"]:
        digital = convert_to_digital(model)
        res += [type(digital) is Net, digital(x).detach()]
    return res
