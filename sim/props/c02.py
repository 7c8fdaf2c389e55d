"""C02: copies of a model (deep copy, pickle) are equivalent and independent, and taking them leaves the original alone."""
from sim import core, zoo
from sim.core import Violation

PID = "C02"
TOL = 0.0
FAMS = ["single", "vector", "reference", "onesided", "transfer", "buffered", "chopped", "dynamic", "mixed", "float",
        "inference", "torch", "irdrop", "quant", "custom", "torchtransfer"]


def gen_ops(rng, fam, n):
    training = fam in zoo.TRAINING or fam == "float"
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            ops.append({"op": "train", "n": rng.randrange(1, 4), "scale": zoo.pick(rng, 1.0, 1.0, 3.0)})
        elif r < 0.58:
            ops.append({"op": "eval", "stay": rng.random() < 0.6})
        elif r < 0.64:
            ops.append({"op": "lr", "v": zoo.pick(rng, 0.02, 0.1, 0.5)})
        elif r < 0.72:
            ops.append({"op": "setw", "amp": zoo.pick(rng, 0.3, 1.0)})
        elif r < 0.78 and fam != "torchtransfer":
            ops.append({"op": "remap", "omega": zoo.pick(rng, 0.5, 1.0)} if fam in zoo.INFERENCE else {"op": "tick"})
        elif r < 0.92 and training:
            kind = zoo.pick(rng, "drift", "decay", "diffuse", "reset")
            ops.append({"op": kind, "t": zoo.pick(rng, 1.0, 10.0), "p": zoo.pick(rng, 0.5, 1.0)})
        else:
            ops.append({"op": "train", "n": 1, "scale": 1.0})
    return ops


def gen(rng, tier, index):
    fam = FAMS[index % len(FAMS)]
    cfg = zoo.gen_config(rng, fam)
    model = zoo.gen_model(rng, fam)
    ops = gen_ops(rng, fam, rng.randrange(3, 8 if tier == "quick" else 14))
    # events of the schedule: step the lineage k by one operation, or take a copy of lineage k
    n_line, events = 1, []
    for _ in range(rng.randrange(5, 14 if tier == "quick" else 26)):
        r = rng.random()
        if r < 0.3 and n_line < 4:
            events.append({"ev": "copy", "of": rng.randrange(n_line), "how": zoo.pick(rng, "deepcopy", "pickle", "torch"),
                           "at": zoo.pick(rng, "between", "between", "mid-step"),
                           "fate": zoo.pick(rng, "twin", "twin", "vandal", "dropped")})
            n_line += 1
        else:
            events.append({"ev": "step", "of": rng.randrange(n_line)})
    vandal = gen_ops(rng, fam, 4)
    return {"seed": rng.getrandbits(32), "family": fam, "config": cfg, "model": model, "ops": ops, "events": events,
            "vandal": vandal, "opt": zoo.pick(rng, "sgd", "sgd", "sgdm", "adam"), "lr": zoo.pick(rng, 0.05, 0.2),
            "regroup": rng.random() < 0.3}


def execute(scn, ctx):
    from sim.train import Job, clipped_by_loading
    ops = scn["ops"]
    start = core.derive(scn["seed"], "construct")
    ref = Job(scn, start)
    ref.build_optimizer()
    expected = [(None, ref.observe())]
    for i, op in enumerate(ops):
        expected.append((act(ref, i, op), ref.observe()))
        ctx.state(expected[-1][1])
    job = Job(scn, start)
    job.build_optimizer()
    lines = [{"job": job, "at": 0, "fate": "twin"}]
    for k, ev in enumerate(scn["events"]):
        if ev["of"] >= len(lines):
            continue
        line = lines[ev["of"]]
        ctx.step()
        if line["fate"] == "dropped":
            lines.append({"job": None, "at": 0, "fate": "dropped"}) if ev["ev"] == "copy" else None
            continue
        if ev["ev"] == "step":
            if line["fate"] == "vandal":
                act(line["job"], 1000 + k, scn["vandal"][k % len(scn["vandal"])])
            elif line["at"] < len(ops):
                i = line["at"]
                res = act(line["job"], i, ops[i])
                line["at"] = i + 1
                diff = core.first_difference(expected[i + 1][0], res, tol=TOL)
                ctx.require(diff is None, "copy-diverged" if ev["of"] else "original-disturbed", lambda: f"event {k}: "
                            f"operation {i} {ops[i]} of lineage {ev['of']}, undisturbed against this one: {diff}")
        else:
            fate = ev["fate"] if line["fate"] != "vandal" else "vandal"
            mid = ev["at"] == "mid-step" and line["fate"] == "twin"
            copy = take(line["job"], ev["how"], mid, k)
            ctx.fault(f"copy-{ev['how']}" + ("-mid-step" if mid else ""))
            if mid:
                # taken between the backward pass and the step: the original must not notice
                fate = "dropped"
                diff = core.first_difference(copy["want"], copy["got"], tol=TOL)
                ctx.require(diff is None, "original-disturbed", lambda: f"event {k}: a copy taken between backward pass "
                            f"and step of lineage {ev['of']}, without against with the copy: {diff}")
                lines.append({"job": None, "at": 0, "fate": "dropped"})
                continue
            lines.append({"job": copy, "at": line["at"], "fate": fate})
            if fate == "twin" and line["fate"] == "twin":
                diff = core.first_difference(expected[line["at"]][1], copy.observe(), tol=TOL)
                if diff is not None and clipped_by_loading(scn, expected[line["at"]][1], copy.observe()):
                    raise Violation("reference-state-clipped", f"the state after {line['at']} operations of a device with "
                                    f"a subtracted reference lies beyond its hard bounds and is clipped in a copy: {diff}")
                ctx.require(diff is None, "copy-differs", lambda: f"event {k}: the {ev['how']} copy taken after "
                            f"{line['at']} operations, original against copy: {diff}")
                ctx.probe("twin-copies")
        # nothing that happened to one lineage shows in another one
        for j, other in enumerate(lines):
            if other["fate"] != "twin":
                continue
            diff = core.first_difference(expected[other["at"]][1], other["job"].observe(), tol=TOL)
            ctx.require(diff is None, "not-independent" if j != ev["of"] else "copy-diverged" if j else
                        "original-disturbed", lambda: f"event {k} {ev}: lineage {j} after {other['at']} operations, "
                        f"expected against actual: {diff}")
    # the fate of every lineage, to the end
    for j, line in enumerate(lines):
        while line["fate"] == "twin" and line["at"] < len(ops):
            i = line["at"]
            res = act(line["job"], i, ops[i])
            line["at"] = i + 1
            ctx.step()
            diff = core.first_difference(expected[i + 1][0], res, tol=TOL) or \
                core.first_difference(expected[i + 1][1], line["job"].observe(), tol=TOL)
            ctx.require(diff is None, "copy-diverged" if j else "original-disturbed", lambda: f"lineage {j}, operation "
                        f"{i} {ops[i]}, undisturbed against this one: {diff}")


def act(job, i, op):
    try:
        return job.apply(i, op)
    except RuntimeError as exc:
        return "rejected: " + str(exc)[:60]


def clone_model(model, how):
    import copy
    import io
    import pickle
    import torch
    if how == "deepcopy":
        return copy.deepcopy(model)
    if how == "pickle":
        return pickle.loads(pickle.dumps(model))
    buf = io.BytesIO()
    torch.save(model, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


def adopt(job, model):
    """A job which trains the copied model with an optimizer in the state of the original's."""
    import copy
    from sim.train import Job
    new = Job.__new__(Job)
    new.scn, new.lr, new.model = job.scn, job.lr, model
    new.build_optimizer()
    new.opt.load_state_dict(copy.deepcopy(job.opt.state_dict()))
    return new


def take(job, how, mid, k):
    from sim import engine
    if not mid:
        engine.seed_all(core.derive(job.scn["seed"], "copy", k), engine.MODE_STREAM)
        return adopt(job, clone_model(job.model, how))
    import torch
    from sim.train import copied
    outs = []
    # two throw-away copies go through the same step, one of them is copied in the middle
    for disturb in (False, True):
        engine.seed_all(core.derive(job.scn["seed"], "copy", k), engine.MODE_STREAM)
        twin = adopt(job, clone_model(job.model, "deepcopy"))
        engine.seed_all(core.derive(job.scn["seed"], "mid", k), engine.MODE_STREAM)
        twin.model.train()
        y = zoo.run_model(twin.model, job.scn["model"], twin.data())
        loss = ((y - torch.rand(y.shape)) ** 2).sum()
        loss.backward()
        if disturb:
            try:
                clone_model(twin.model, how)
            except RuntimeError:
                pass  # not copyable in this moment; the original must be unharmed all the same
        engine.seed_all(core.derive(job.scn["seed"], "step", k), engine.MODE_STREAM)
        twin.opt.step()
        twin.opt.zero_grad()
        outs.append(copied([twin.observe(), y]))
    return {"want": outs[0], "got": outs[1]}
