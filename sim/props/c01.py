"""C01: a training job restored from a checkpoint continues exactly like the job that was never interrupted."""
from sim import core, zoo
from sim.core import Violation

PID = "C01"
TOL = 0.0
FAMS = ["single", "vector", "reference", "onesided", "transfer", "buffered", "chopped", "dynamic", "mixed", "float",
        "inference", "torch", "irdrop", "quant", "custom", "torchtransfer"]


def gen(rng, tier, index):
    fam = FAMS[index % len(FAMS)]
    cfg = zoo.gen_config(rng, fam)
    model = zoo.gen_model(rng, fam)
    training = fam in zoo.TRAINING or fam == "float"
    n = rng.randrange(3, 9 if tier == "quick" else 16)
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            ops.append({"op": "train", "n": rng.randrange(1, 4), "scale": zoo.pick(rng, 1.0, 1.0, 3.0)})
        elif r < 0.55:
            ops.append({"op": "eval", "stay": rng.random() < 0.5})
        elif r < 0.62:
            ops.append({"op": "lr", "v": zoo.pick(rng, 0.02, 0.1, 0.5)})
        elif r < 0.69:
            ops.append({"op": "setw", "amp": zoo.pick(rng, 0.3, 1.0)})
        elif r < 0.74 and fam != "torchtransfer":
            ops.append({"op": "remap", "omega": zoo.pick(rng, 0.5, 1.0)} if fam in zoo.INFERENCE else {"op": "tick"})
        elif r < 0.9 and training:
            kind = zoo.pick(rng, "drift", "decay", "diffuse", "reset")
            ops.append({"op": kind, "t": zoo.pick(rng, 1.0, 10.0), "p": zoo.pick(rng, 0.5, 1.0)})
        else:
            ops.append({"op": "train", "n": 1, "scale": 1.0})
    ops.append({"op": "train", "n": rng.randrange(1, 4), "scale": 1.0})
    saves = sorted(rng.sample(range(len(ops)), rng.randrange(1, min(3, len(ops)) + 1)))
    faults = []
    for _ in range(rng.randrange(1, 3)):
        save = rng.choice(saves)
        crash = rng.randrange(save, len(ops))
        faults.append({"kind": "crash", "save": save, "after": crash, "order": zoo.pick(rng, "opt-first", "load-first"),
                       "rpu": zoo.pick(rng, None, True, False)})
    return {"seed": rng.getrandbits(32), "family": fam, "config": cfg, "model": model, "ops": ops,
            "opt": zoo.pick(rng, "sgd", "sgd", "sgdm", "adam", "wrapped"), "lr": zoo.pick(rng, 0.05, 0.2),
            "regroup": rng.random() < 0.3, "faults": faults}


def execute(scn, ctx):
    from sim.train import Job, clipped_by_loading, restore
    ops = scn["ops"]
    ref = Job(scn, core.derive(scn["seed"], "construct"))
    ref.build_optimizer()
    saves = {f["save"] for f in scn["faults"]}
    blobs, results, observations = {}, [], []
    for i, op in enumerate(ops):
        try:
            results.append(ref.apply(i, op))
        except RuntimeError as exc:
            # an operation this device rejects (such as decay on a floating point tile) must be rejected after a
            # restart as well
            results.append("rejected: " + str(exc)[:60])
        observations.append(ref.observe())
        ctx.step()
        ctx.state(observations[-1])
        if i in saves:
            blobs[i] = ref.save()
            ctx.log("save", i)
    for k, fault in enumerate(scn["faults"]):
        if fault["save"] >= len(ops):
            continue
        ctx.fault("crash-restart")
        ctx.probe(f"restore-{fault['order']}")
        # the crash loses everything after the checkpoint; what was done between checkpoint and crash is done again
        job = restore(scn, blobs[fault["save"]], core.derive(scn["seed"], "construct", k + 1), fault["order"],
                      fault["rpu"])
        diff = core.first_difference(observations[fault["save"]], job.observe(), tol=TOL)
        if diff is not None and clipped_by_loading(scn, observations[fault["save"]], job.observe()):
            raise Violation("reference-state-clipped", f"the state of step {fault['save']} of a device with a "
                            f"subtracted reference lies beyond its hard bounds and is clipped on loading: {diff}")
        ctx.require(diff is None, "state-lost", lambda: f"right after loading the checkpoint of step {fault['save']} "
                    f"({fault['order']}), saved against restored: {diff}")
        saved, again = Job.read(blobs[fault["save"]]), Job.read(job.save())
        diff = core.first_difference(comparable(saved), comparable(again), tol=TOL)
        ctx.require(diff is None, "checkpoint-not-fixpoint", lambda: "a checkpoint written right after loading differs "
                    f"from the one loaded: {diff}")
        for i in range(fault["save"] + 1, len(ops)):
            try:
                res = job.apply(i, ops[i])
            except RuntimeError as exc:
                res = "rejected: " + str(exc)[:60]
            ctx.step()
            diff = core.first_difference(results[i], res, tol=TOL) or \
                core.first_difference(observations[i], job.observe(), tol=TOL)
            ctx.require(diff is None, "diverged", lambda: f"operation {i} {ops[i]} after restoring the checkpoint of step "
                        f"{fault['save']} ({fault['order']}), uninterrupted against restored: {diff}")
        ctx.probe("continued-steps", len(ops) - 1 - fault["save"])


def comparable(state):
    """The numbers of a checkpoint (configuration objects aside)."""
    import torch

    def walk(v):
        if isinstance(v, torch.Tensor):
            return v
        if isinstance(v, dict):
            return {str(k): walk(x) for k, x in v.items() if not str(k).endswith(("rpu_config", "analog_ctx", "analog_lr", "learning_rate", "quant_update_idx"))}
        if isinstance(v, (list, tuple)):
            return [walk(x) for x in v]
        if isinstance(v, (int, float, str, bool)) or v is None:
            return v
        return type(v).__name__
    return walk(state)
