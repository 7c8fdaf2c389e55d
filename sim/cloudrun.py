"""Clients of the simulated cloud: seeded schedules of submissions, queries and logins, with the checks of C13, C14 and C15."""
# pylint: disable=too-many-lines
from sim import cloudsim, core, zoo
from sim.sched import Killed, Sched

TRAIN_PRESETS = ["ReRamESPreset", "CapacitorPreset", "EcRamPreset", "IdealizedPreset", "PCMPreset", "MixedPrecisionEcRamPreset",
                 "TikiTakaReRamSBPreset", "TikiTakaIdealizedPreset"]
INFER_PRESETS = ["InferenceRPUConfig", "WebComposerInferenceRPUConfig", "OldWebComposerInferenceRPUConfig"]
ERRORS = ["refused", "refused", "lost-response", "lost-response", "reset", "500", "503", "429", "torn", "garbage", "not-a-dict"]
ALL = ("C13", "C14", "C15")


# -- generation -----------------------------------------------------------------------------------------------------------------

def gen_model(rng, infer):
    presets = INFER_PRESETS if infer else TRAIN_PRESETS
    preset = zoo.pick(rng, *presets)
    layers = []
    digital = rng.random() < 0.15
    for _ in range(rng.randrange(1, 5)):
        r = rng.random()
        bias = rng.random() < 0.6
        if r < 0.45 and not digital:
            layers.append({"t": "AnalogLinearMapped" if preset == "InferenceRPUConfig" and rng.random() < 0.4 else "AnalogLinear",
                           "a": [rng.randrange(1, 5), rng.randrange(1, 5)], "bias": bias, "omega": zoo.pick(rng, 0.0, 0.25, 0.5)})
        elif r < 0.6 and not digital:
            layers.append({"t": "AnalogConv2dMapped" if preset == "InferenceRPUConfig" and rng.random() < 0.4 else "AnalogConv2d",
                           "a": [rng.randrange(1, 3), rng.randrange(1, 3), zoo.pick(rng, 2, [1, 3])], "bias": bias,
                           "k": {"stride": zoo.pick(rng, 1, 2), "padding": zoo.pick(rng, 0, 1)}, "omega": zoo.pick(rng, 0.0, 0.25)})
        elif r < 0.7:
            layers.append({"t": "Linear", "a": [rng.randrange(1, 5), rng.randrange(1, 5)], "bias": bias})
        elif r < 0.8:
            layers.append({"t": "Conv2d", "a": [1, 2, zoo.pick(rng, 2, [1, 3])], "bias": bias, "k": {"dilation": zoo.pick(rng, 1, 2)}})
        else:
            layers.append(zoo.pick(rng, {"t": "Flatten", "a": []}, {"t": "ReLU", "a": []}, {"t": "Tanh", "a": []},
                                   {"t": "LeakyReLU", "a": [0.25]}, {"t": "LogSoftmax", "a": [], "k": {"dim": 1}},
                                   {"t": "BatchNorm2d", "a": [3]}, {"t": "MaxPool2d", "a": [2], "k": {"stride": 2}}))
    return {"preset": preset, "layers": layers}


def gen_experiment(rng, infer):
    out = {"infer": infer, "model": gen_model(rng, infer), "dataset": zoo.pick(rng, "FashionMNIST", "SVHN"),
           "batch": rng.randrange(1, 200), "loss": zoo.pick(rng, "NLLLoss", "CrossEntropyLoss", "MSELoss"), "epochs": rng.randrange(1, 90),
           "lr": rng.randrange(1, 64) / 64}
    if infer:
        out.update(repeats=rng.randrange(1, 9), time=rng.randrange(1, 10**6), template=zoo.pick(rng, "", "hwa-lenet5", "noise/vgg"),
                   analog={"output_noise_strength": rng.randrange(8) / 8, "adc": rng.randrange(4, 10), "dac": rng.randrange(4, 10)},
                   noise={"device_id": zoo.pick(rng, "pcm", "generic"), "programming_noise_scale": rng.randrange(8) / 8,
                          "read_noise_scale": rng.randrange(8) / 8, "drift_scale": rng.randrange(8) / 8,
                          "drift_compensation": rng.random() < 0.5, "poly_first_order_coef": rng.randrange(8) / 8,
                          "poly_second_order_coef": rng.randrange(8) / 8, "poly_constant_coef": rng.randrange(8) / 8,
                          "drift_mean": rng.randrange(8) / 64, "drift_std": rng.randrange(8) / 64})
    return out


def gen_result(rng, infer):
    if infer:
        return {"runs": [[rng.randrange(9999), rng.randrange(64) / 64, rng.randrange(64) / 64, rng.randrange(64) / 64,
                          rng.randrange(64) / 8] for _ in range(rng.randrange(0, 5))]}
    names = ["accuracy", "train_loss", "valid_loss", "time"]
    return {"epochs": [[e, {n: rng.randrange(512) / 64 for n in names[:rng.randrange(0, 5)]}] for e in range(rng.randrange(0, 5))]}


def gen(rng, tier, focus):
    """Scenario of one world; focus is the property it is drawn for."""
    long = tier != "quick"
    services = [{"accounts": rng.randrange(1, 4)} for _ in range(zoo.pick(rng, 1, 1, 2))]
    clients = []
    for c in range(rng.randrange(1, 4)):
        infer = rng.random() < 0.4
        service = rng.randrange(len(services))
        ops = []
        for _ in range(rng.randrange(3, 16 if long else 9)):
            r = rng.random()
            if r < (0.45 if focus == "C13" else 0.2):
                ops.append({"op": "submit", "e": gen_experiment(rng, infer), "name": zoo.pick(rng, "", f"mine {rng.randrange(99)}", "ü/?&=\n"),
                            "device": zoo.pick(rng, None, "gpu", "cpu"), "again": gen_again(rng, infer)})
            elif r < (0.53 if focus == "C13" else 0.23):
                ops.append({"op": "unsupported", "how": zoo.pick(rng, "model", "layer", "dataset", "preset", "loss")})
            elif r < (0.65 if focus == "C15" else 0.55):
                ops.append({"op": zoo.pick(rng, "list", "get"), "k": rng.randrange(9)})
            elif r < (0.90 if focus == "C14" else 0.75):
                ops.append({"op": zoo.pick(rng, "status", "status", "result", "input"), "h": rng.randrange(9)})
            elif r < 0.95 or focus == "C15":
                ops.append({"op": "relogin", "outage": zoo.pick(rng, None, None, None, "plain", "json", "empty", "401", "500")})
            else:
                ops.append({"op": "status", "h": rng.randrange(9)})
        if not any(o["op"] in ("submit", "list", "get") for o in ops):
            ops.insert(0, {"op": "list", "k": 0})
        clients.append({"infer": infer, "service": service, "account": rng.randrange(9), "verify": zoo.pick(rng, None, None, True, False),
                        "share": c - 1 if c and rng.random() < 0.25 else None, "ops": ops,
                        "bad_token": rng.random() < 0.05, "config": gen_config(rng) if rng.random() < (0.5 if focus == "C15" else 0.1)
                        else None})
    cloud = []
    for _ in range(rng.randrange(2, 20 if long else 12)):
        r = rng.random()
        if r < 0.6:
            cloud.append({"op": "advance", "j": rng.randrange(9), "to": zoo.pick(rng, None, None, "failed", "cancelled", "completed"),
                          "out": zoo.pick(rng, "with", "with", "with", "late", "early"), "r": gen_result(rng, False),
                          "ri": gen_result(rng, True)})
        elif r < 0.75:
            infer = rng.random() < 0.5
            cloud.append({"op": "web", "s": rng.randrange(9), "a": rng.randrange(9), "e": gen_experiment(rng, infer),
                          "stage": zoo.pick(rng, "bare", "input", "job", "job"), "cat": zoo.pick(rng, "web", "web", "api")})
        elif r < 0.8:
            cloud.append({"op": "novelty", "j": rng.randrange(9)})
        elif r < 0.9:
            cloud.append({"op": "expire", "s": rng.randrange(9), "a": rng.randrange(9)})
        elif r < 0.95:
            cloud.append({"op": "redirects", "s": rng.randrange(9), "on": rng.random() < 0.6})
        else:
            cloud.append({"op": "idle"})
    faults = []
    if rng.random() < 0.7:
        for _ in range(rng.randrange(1, 5)):
            faults.append({"client": rng.randrange(len(clients)), "n": rng.randrange(1, 26), "kind": zoo.pick(rng, *ERRORS, "duplicate")})
    return {"seed": rng.getrandbits(32), "services": services, "clients": clients, "cloud": cloud, "faults": faults,
            "schedule": [rng.randrange(60) for _ in range(rng.randrange(0, 120))]}


def gen_again(rng, infer):
    """What to change of the client's last experiment, which is then submitted again, or None for a new one."""
    if rng.random() < 0.6:
        return None
    keys = ["dataset", "batch", "model"] + (["repeats", "time", "template", "analog", "noise"] if infer else ["loss", "epochs", "lr"])
    return rng.sample(keys, rng.randrange(0, 4))


def gen_config(rng):
    return {"env": zoo.pick(rng, "none", "none", "right", "right"), "where": zoo.pick(rng, "none", "cwd", "xdg", "xdg", "home"),
            "token": zoo.pick(rng, "none", "right", "right", "other"), "url": zoo.pick(rng, "none", "right"),
            "torn": zoo.pick(rng, None, None, None, "section", "value", "binary"),
            "args": zoo.pick(rng, "none", "none", "url", "token")}


# -- the experiments ------------------------------------------------------------------------------------------------------------

def build_model(spec):
    from aihwkit import nn as an
    from aihwkit.simulator import presets
    from aihwkit.simulator.configs import InferenceRPUConfig
    from aihwkit.simulator.presets import web
    from torch import nn
    layers = []
    for s in spec["layers"]:
        kw = dict(s.get("k", {}))
        args = [tuple(a) if isinstance(a, list) else a for a in s["a"]]
        if "bias" in s:
            kw["bias"] = s["bias"]
        if s["t"].startswith("Analog"):
            cls = getattr(presets, spec["preset"], None) or getattr(web, spec["preset"], None) or InferenceRPUConfig
            kw["rpu_config"] = cls()
            if spec["preset"] in TRAIN_PRESETS:
                kw["rpu_config"].mapping.weight_scaling_omega = s["omega"]
            layers.append(getattr(an, s["t"])(*args, **kw))
        else:
            layers.append(getattr(nn, s["t"])(*args, **kw))
    return an.AnalogSequential(*layers)


def build_experiment(spec):
    from aihwkit.experiments import BasicInferencing, BasicTraining
    from torch import nn
    from torchvision import datasets
    model = build_model(spec["model"])
    loss = getattr(nn, spec["loss"])
    data = getattr(datasets, spec["dataset"])
    if spec["infer"]:
        return BasicInferencing(data, model, batch_size=spec["batch"], loss_function=nn.NLLLoss, weight_template_id=spec["template"],
                                inference_repeats=spec["repeats"], inference_time=spec["time"])
    return BasicTraining(data, model, batch_size=spec["batch"], loss_function=loss, epochs=spec["epochs"], learning_rate=spec["lr"])


def describe(exp):
    """What a user sees of an experiment."""
    model = []
    for layer in exp.model.children():
        name = type(layer).__name__
        d = {"t": name}
        for a in ("in_features", "out_features", "in_channels", "out_channels", "negative_slope", "dim", "num_features"):
            if hasattr(layer, a):
                d[a] = getattr(layer, a)
        for a in ("kernel_size", "stride", "padding", "dilation"):
            if hasattr(layer, a):
                v = getattr(layer, a)
                d[a] = [int(x) for x in v] if isinstance(v, (tuple, list)) else ([int(v)] * 2 if "Conv" in name else int(v))
        if "Linear" in name or "Conv" in name:
            d["bias"] = bool(layer.bias is not None and layer.bias is not False)
        if hasattr(layer, "analog_tiles"):
            cfg = next(layer.analog_tiles()).rpu_config
            d["rpu"] = type(cfg).__name__
            if d["rpu"] in TRAIN_PRESETS:
                d["omega"] = cfg.mapping.weight_scaling_omega
        model.append(d)
    out = {"class": type(exp).__name__, "dataset": exp.dataset.__name__, "batch": exp.batch_size, "model": model,
           "loss": exp.loss_function.__name__}
    if out["class"] == "BasicTraining":
        out.update(epochs=exp.epochs, lr=exp.learning_rate)
    else:
        out.update(repeats=exp.inference_repeats, time=exp.inference_time, template=exp.weight_template_id)
    return out


def config_wanted(spec):
    a, n = spec["analog"], spec["noise"]
    out = {"out_noise": a["output_noise_strength"], "out_res": 1.0 / (2 ** a["adc"] - 2), "inp_res": 1.0 / (2 ** a["dac"] - 2),
           "noise": "PCMLikeNoiseModel" if n["device_id"] == "pcm" else "StateIndependentNoiseModel",
           "coeff": [n["poly_constant_coef"], n["poly_first_order_coef"], n["poly_second_order_coef"]],
           "prog": n["programming_noise_scale"], "read": n["read_noise_scale"], "drift": n["drift_scale"],
           "comp": n["drift_compensation"], "nu": None}
    if n["device_id"] != "pcm":
        out["nu"] = [n["drift_mean"], n["drift_std"]]
    return out


def config_seen(cfg):
    n = cfg.noise_model
    out = {"out_noise": cfg.forward.out_noise, "out_res": cfg.forward.out_res, "inp_res": cfg.forward.inp_res,
           "noise": type(n).__name__, "coeff": [float(x) for x in n.prog_coeff], "prog": n.prog_noise_scale, "read": n.read_noise_scale,
           "drift": n.drift_scale, "comp": cfg.drift_compensation is not None, "nu": None}
    if out["noise"] == "StateIndependentNoiseModel":
        out["nu"] = [n.drift_nu_mean, n.drift_nu_std]
    return out


def input_bytes(spec, exp):
    from aihwkit.cloud.converter.v1.inferencing import BasicInferencingConverter
    from aihwkit.cloud.converter.v1.training import BasicTrainingConverter
    if spec["infer"]:
        return BasicInferencingConverter().to_proto(exp, spec["analog"], spec["noise"]).SerializeToString()
    return BasicTrainingConverter().to_proto(exp).SerializeToString()


def check_input(spec, data):
    """The uploaded data against the experiment, field by field and without the converters; None or what is wrong."""
    from aihwkit.cloud.converter.definitions.i_input_file_pb2 import InferenceInput
    from aihwkit.cloud.converter.definitions.input_file_pb2 import TrainingInput
    p = (InferenceInput if spec["infer"] else TrainingInput)()
    try:
        p.ParseFromString(data)
    except Exception as exc:  # pylint: disable=broad-except
        return f"the input cannot be read: {exc}"
    want = {"dataset": {"FashionMNIST": "fashion_mnist", "SVHN": "svhn"}[spec["dataset"]], "batch": spec["batch"]}
    got = {"dataset": p.dataset.dataset_id, "batch": p.dataset.batch_size}
    if spec["infer"]:
        i = p.inferencing
        want.update(repeats=spec["repeats"], time=spec["time"], template=spec["template"])
        got.update(repeats=i.inference_repeats, time=i.inference_time, template=p.network.weight_template_id)
        for k, v in spec["analog"].items():
            want[k], got[k] = v, getattr(i.analog_info, k)
        which = i.noise_model_info.WhichOneof("item")
        want["noise"], got["noise"] = spec["noise"]["device_id"], which
        for k, v in spec["noise"].items():
            if which == "pcm" and k in ("drift_mean", "drift_std"):
                continue
            want[k], got[k] = v, getattr(getattr(i.noise_model_info, which), k)
    else:
        want.update(epochs=spec["epochs"], loss=spec["loss"], lr=spec["lr"])
        got.update(epochs=p.training.epochs, loss=p.training.loss_function.id, lr=p.training.optimizer.arguments[0].f)
    want["layers"] = [s["t"] for s in spec["model"]["layers"]]
    got["layers"] = [getattr(x, x.WhichOneof("item")).id for x in p.network.layers]
    for k, s in enumerate(spec["model"]["layers"]):
        if k < len(p.network.layers):
            item = p.network.layers[k]
            args = {a.name: a for a in getattr(item, item.WhichOneof("item")).arguments}
            if "bias" in s:
                want[f"bias {k}"], got[f"bias {k}"] = s["bias"], args["bias"].b if "bias" in args else None
            if "Linear" in s["t"]:
                want[f"size {k}"] = s["a"]
                got[f"size {k}"] = [args[n].i if n in args else None for n in ("in_features", "out_features")]
            if "omega" in s and not spec["infer"]:
                want[f"omega {k}"] = s["omega"]
                got[f"omega {k}"] = args["weight_scaling_omega"].f if "weight_scaling_omega" in args else None
    return core.first_difference(want, got)


def output_bytes(spec):
    if "runs" in spec:
        from aihwkit.cloud.converter.definitions.i_output_file_pb2 import InferenceResultsProto, InferenceRunsProto, InferencingOutput
        from aihwkit.cloud.converter.definitions.i_common_pb2 import Version
        runs = InferenceRunsProto(inference_repeat=1, is_partial=False, time_elapsed=1.0)
        for t, a, s, e, l in spec["runs"]:
            runs.inference_results.append(InferenceResultsProto(t_inference=t, avg_accuracy=a, std_accuracy=s, avg_error=e, avg_loss=l))
        return InferencingOutput(version=Version(schema=1, opset=1), inference_runs=runs).SerializeToString()
    from aihwkit.cloud.converter.definitions.common_pb2 import Network, Version
    from aihwkit.cloud.converter.definitions.onnx_common_pb2 import AttributeProto
    from aihwkit.cloud.converter.definitions.output_file_pb2 import EpochInformation, TrainingOutput
    out = TrainingOutput(version=Version(schema=1, opset=1), network=Network())
    for number, metrics in spec["epochs"]:
        info = EpochInformation(epoch=number)
        for name, value in metrics.items():
            info.metrics.append(AttributeProto(name=name, type=AttributeProto.AttributeType.FLOAT, f=value))
        out.epochs.append(info)
    return out.SerializeToString()


def expected_result(spec):
    if "runs" in spec:
        return [dict(zip(("t_inference", "avg_accuracy", "std_accuracy", "avg_error", "avg_loss"), r)) for r in spec["runs"]]
    return [{"epoch": n, "metrics": m} for n, m in spec["epochs"]]


# -- the world ------------------------------------------------------------------------------------------------------------------

class World:
    """Services, clients and what is known of them; checks of other properties than pid are left out."""

    def __init__(self, scn, ctx, pid):
        self.scn, self.ctx, self.pid = scn, ctx, pid
        self.sched = Sched(scn["schedule"], ctx)
        self.net = cloudsim.Network(ctx, self.sched)
        self.services = []
        self.tokens = []
        for s, spec in enumerate(scn["services"]):
            host = "api-aihw-composer.draco.res.ibm.com" if s == 0 else f"api{s}.sim"
            svc = cloudsim.Service(host, f"cos{s}.sim")
            for a in range(spec["accounts"]):
                svc.accounts[f"tok-secret-{s}-{a}"] = f"user{s}{a}"
                self.tokens.append(f"tok-secret-{s}-{a}")
            self.net.hosts[host] = self.net.hosts[svc.storage_host] = svc
            self.services.append(svc)
        for f in scn["faults"]:
            self.net.faults[(f"client{f['client']}", f["n"])] = f["kind"]
        self.specs = {}      # experiment id -> spec it was made from
        self.results = {}    # output id -> result spec
        self.runners = {}    # client number -> runner
        self.last = {}       # client number -> last experiment submitted
        self.busy = {}       # client number -> logins in progress (shared runners)
        self.jwt = {}        # runner owner -> set of session tokens that may be in use
        self.owner = {}      # client -> owner of the runner it uses
        self.net.watch = self.watch

    def require(self, pid, cond, kind, msg=""):
        if pid == self.pid:
            self.ctx.require(cond, kind, msg)

    def run(self):
        with self.net:
            for c, client in enumerate(self.scn["clients"]):
                self.sched.spawn(f"client{c}", lambda c=c, client=client: self.client(c, client))
            self.sched.spawn("cloud", self.cloud)
            self.sched.run()
            self.network_checks()

    # What the clients do.

    def client(self, c, client):
        # pylint: disable=too-many-branches,too-many-statements,too-many-locals
        ctx, svc = self.ctx, self.services[client["service"] % len(self.services)]
        actor = f"client{c}"
        share = client["share"]
        if share is not None:
            other = self.scn["clients"][share] if share < len(self.scn["clients"]) else None
            if other is None or other["service"] != client["service"] or other["infer"] != client["infer"] or other["share"] is not None:
                share = None
        owner = self.owner[c] = c if share is None else share
        account = list(svc.accounts)[self.scn["clients"][owner]["account"] % len(svc.accounts)]
        user = svc.accounts[account]
        handles = []
        for i, op in enumerate(client["ops"]):
            ctx.step()
            self.sched.point()
            runner = self.runners.get(owner)
            if runner is None:
                if share is not None:
                    continue
                runner = self.login(c, client, svc, account, i)
                if runner is None:
                    continue
            kind = op["op"]
            where = f"client {c}, operation {i} {kind}"
            start = svc.now
            self.net.begin(actor)
            out, error = None, None
            entry = {"op": op, "spec": None}
            if kind == "submit":
                entry.update(self.prepare(c, op))
            try:
                if kind == "submit":
                    out = self.submit(runner, client, op, entry)
                elif kind == "unsupported":
                    out = self.unsupported(runner, client, op, entry)
                elif kind == "list":
                    out = runner.list_cloud_experiments()
                elif kind == "get":
                    ids = [e for e, x in svc.experiments.items() if x["user"] == user]
                    entry["id"] = ids[op["k"] % len(ids)] if ids and op["k"] < 8 else "exp-nobody-0000"
                    out = runner.get_cloud_experiment(entry["id"])
                elif kind == "relogin":
                    out = self.relogin(runner, op, svc)
                elif handles:
                    h = handles[op["h"] % len(handles)]
                    entry["h"] = h
                    if kind == "status":
                        out = h["x"].status()
                    elif kind == "result":
                        out = h["x"].get_result()
                    elif kind == "input":
                        out = h["x"].get_experiment()
                else:
                    continue
            except Killed:
                raise
            except core.Violation:
                raise
            except Exception as exc:  # pylint: disable=broad-except
                error = exc
            sent = self.net.last[actor]
            bad = [e for e in sent if self.broken(e)]
            ctx.log(actor, i, kind, type(error).__name__ if error else "ok", [(e["method"], e["path"], e["status"]) for e in sent])
            self.secrets(where, error)
            self.judge(where, client, svc, user, start, entry, out, error, sent, bad, handles)
            ctx.state([kind, type(error).__name__, [x["known"] and str(x["known"][0]) for x in handles],
                       sorted(j["status"] for j in svc.jobs.values())])

    @staticmethod
    def broken(e):
        """Whether the client must have noticed that this request went wrong."""
        if e["status"] is None or e["status"] >= 400 or e["fault"] in ("refused", "lost-response", "reset", "500", "503", "429"):
            return True
        if e["fault"] == "torn":
            return bool(e["reply"])
        return e["fault"] in ("garbage", "not-a-dict") and "cos" not in e["host"] and e["status"] < 300

    def prepare(self, c, op):
        """The experiment to submit: a new one, or the last one of this client with some things changed."""
        from torch import nn
        from torchvision import datasets
        spec = op["e"]
        if op.get("again") is not None and c in self.last:
            last, exp = self.last[c]
            spec = {**last, **{k: spec[k] for k in op["again"]}}
            for k in op["again"]:
                name, value = {"dataset": ("dataset", lambda: getattr(datasets, spec["dataset"])), "batch": ("batch_size", None),
                               "model": ("model", lambda: build_model(spec["model"])), "repeats": ("inference_repeats", None),
                               "time": ("inference_time", None), "template": ("weight_template_id", None), "epochs": ("epochs", None),
                               "loss": ("loss_function", lambda: getattr(nn, spec["loss"])), "lr": ("learning_rate", None)
                               }.get(k, (None, None))
                if name:
                    setattr(exp, name, value() if value else spec[k])
            self.ctx.probe("experiments-resubmitted")
        else:
            exp = build_experiment(spec)
        self.last[c] = (spec, exp)
        return {"spec": spec, "exp": exp, "before": input_bytes(spec, exp)}

    def submit(self, runner, client, op, entry):
        spec, exp = entry["spec"], entry["exp"]
        kw = {"name": op["name"]}
        if op["device"]:
            kw["device"] = op["device"]
        if client["infer"]:
            entry["infos"] = (dict(spec["analog"]), dict(spec["noise"]))
            return runner.run(exp, entry["infos"][0], entry["infos"][1], **kw)
        return runner.run(exp, **kw)

    def unsupported(self, runner, client, op, entry):
        from aihwkit import nn as an
        from aihwkit.simulator.configs import InferenceRPUConfig, SingleRPUConfig
        from aihwkit.simulator.configs.devices import ConstantStepDevice
        from torch import nn
        from torchvision.datasets import MNIST
        spec = {"infer": client["infer"], "model": {"preset": "InferenceRPUConfig" if client["infer"] else "EcRamPreset",
                                                    "layers": [{"t": "Linear", "a": [2, 2], "bias": True}]},
                "dataset": "SVHN", "batch": 1, "loss": "MSELoss", "epochs": 1, "lr": 0.5, "repeats": 1, "time": 1, "template": ""}
        exp = build_experiment(spec)
        how = op["how"]
        if how == "model":
            exp.model = nn.Sequential(nn.Linear(2, 2))
        elif how == "layer":
            exp.model = an.AnalogSequential(nn.Linear(2, 2), nn.GELU())
        elif how == "dataset":
            exp.dataset = MNIST
        elif how == "loss" and not client["infer"]:
            exp.loss_function = nn.SmoothL1Loss
        else:
            cfg = SingleRPUConfig(device=ConstantStepDevice()) if client["infer"] else InferenceRPUConfig()
            exp.model = an.AnalogSequential(an.AnalogLinear(2, 2, rpu_config=cfg))
        entry["unsupported"] = True
        if client["infer"]:
            return runner.run(exp, {"output_noise_strength": 0.5, "adc": 8, "dac": 8},
                              gen_experiment(core.rng_for(1), True)["noise"], name="no")
        return runner.run(exp, name="no")

    # Logging in.

    def runner_class(self, client):
        from aihwkit.experiments.runners.cloud import CloudRunner
        from aihwkit.experiments.runners.i_cloud import InferenceCloudRunner
        return InferenceCloudRunner if client["infer"] else CloudRunner

    def login(self, c, client, svc, account, i):
        # pylint: disable=too-many-locals,too-many-branches,too-many-arguments
        actor, where = f"client{c}", f"client {c}, login before operation {i}"
        cls = self.runner_class(client)
        token = "tok-secret-nobody" if client["bad_token"] and i == 0 else account
        url = f"https://{svc.host}/api"
        kw = {} if client["verify"] is None else {"verify": client["verify"]}
        args, expect = {"api_url": url, "api_token": token}, "ok"
        cfg = client["config"]
        self.net.begin(actor)
        runner, error = None, None
        if cfg and client["service"] % len(self.services) == 0:
            args, token, url, expect = self.configure(cfg, url, token)
        try:
            runner = cls(**args, **kw)
        except Killed:
            raise
        except Exception as exc:  # pylint: disable=broad-except
            error = exc
        finally:
            if cfg:
                self.unconfigure()
        sent = self.net.last[actor]
        self.ctx.log(actor, "login", type(error).__name__ if error else "ok", len(sent))
        self.secrets(where, error)
        name = type(error).__name__ if error else "no error"
        if expect == "none":
            self.require("C15", name == "CredentialsError", "missing-credentials", f"{where}: no token configured, but {name}")
            self.require("C15", not sent, "missing-credentials", f"{where}: requests without credentials: {len(sent)}")
            client["config"] = None
            return None
        if expect == "torn":
            if error is not None and not sent:
                client["config"] = None
                self.ctx.probe("torn-config-refused")
                return None
        for e in sent:
            self.require("C15", e["host"] == svc.host or e["host"] == url.split("/")[2], "wrong-host",
                         f"{where}: credentials of {url} went to {e['host']}{e['path']}")
        bad = [e for e in sent if self.broken(e)]
        if token not in svc.accounts or url.split("/")[2] != svc.host or not url.endswith("/api"):
            self.require("C15", error is not None, "login-accepted", f"{where}: login with {token} at {url} was accepted")
            if sent and sent[-1]["status"] == 400 and not self.net_error(sent[-1]):
                self.require("C15", name == "CredentialsError" and "invalid token for you" in str(error), "login-error",
                             f"{where}: a refused login gives {name}: {error}")
            client["config"] = None
            return None
        if bad:
            self.require("C15", error is not None, "login-error-swallowed", f"{where}: {[(e['status'], e['fault']) for e in bad]}")
        else:
            self.require("C15", error is None, "login-failed", f"{where}: {name}: {error} without any fault")
        if runner is None or bad:
            return None
        self.runners[c] = runner
        self.jwt[c] = {self.reply_jwt(sent)}
        self.ctx.probe("logins")
        return runner

    @staticmethod
    def net_error(e):
        return e["fault"] in ("refused", "lost-response", "reset", "torn")

    @staticmethod
    def reply_jwt(sent):
        import json
        for e in reversed(sent):
            if e["path"].endswith("/token/login") and e["status"] == 200:
                return json.loads(e["reply"])["jwt"]
        return None

    def configure(self, cfg, url, token):
        """A configuration file and environment; returns constructor arguments, effective token and url, and the expectation."""
        # pylint: disable=too-many-branches
        import os
        import tempfile
        self.dir = tempfile.mkdtemp(prefix="sim-conf-")
        self.saved = {k: os.environ.get(k) for k in ("AIHW_API_TOKEN", "XDG_CONFIG_HOME", "HOME")}
        self.cwd = os.getcwd()
        for d in ("cwd", "xdg/aihwkit", "home/.config/aihwkit"):
            os.makedirs(f"{self.dir}/{d}")
        os.chdir(f"{self.dir}/cwd")
        for k in self.saved:
            os.environ.pop(k, None)
        os.environ["HOME"] = f"{self.dir}/home"
        if cfg["where"] == "xdg":
            os.environ["XDG_CONFIG_HOME"] = f"{self.dir}/xdg"
        if cfg["env"] == "right":
            os.environ["AIHW_API_TOKEN"] = token
        text = "[cloud]\n"
        other = "tok-secret-other"
        if cfg["token"] != "none":
            text += f"api_token = {token if cfg['token'] == 'right' else other}\n"
        if cfg["url"] == "right":
            text += f"api_url = {url}\n"
        file_torn = False
        if cfg["torn"] and cfg["where"] != "none":
            self.ctx.fault("torn-config")
            file_torn = True
            text = {"section": text[:4], "value": text.split("=")[0][:-2], "binary": "\0\1\2" + text}[cfg["torn"]]
        path = {"cwd": "cwd/aihwkit.conf", "xdg": "xdg/aihwkit/aihwkit.conf", "home": "home/.config/aihwkit/aihwkit.conf"}.get(cfg["where"])
        if path:
            with open(f"{self.dir}/{path}", "w", encoding="utf8") as f:
                f.write(text)
        in_file = bool(path) and not file_torn
        args = {}
        eff_url = url if in_file and cfg["url"] == "right" else "https://api-aihw-composer.draco.res.ibm.com"
        eff_token = token if cfg["env"] == "right" else (
            (token if cfg["token"] == "right" else other) if in_file and cfg["token"] != "none" else None)
        if cfg["args"] == "url":
            args["api_url"] = eff_url = url
        if cfg["args"] == "token":
            args["api_token"] = eff_token = token
        expect = "torn" if file_torn else "none" if eff_token is None else "ok"
        if file_torn and eff_token is None:
            eff_token = "tok-secret-none"
        return args, eff_token, eff_url, expect

    def unconfigure(self):
        import os
        import shutil
        if not getattr(self, "dir", None):
            return
        os.chdir(self.cwd)
        for k, v in self.saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(self.dir)
        self.dir = None

    def relogin(self, runner, op, svc):
        actor = self.net.actor
        if op["outage"]:
            svc.login_reply[self.net.actor] = {"plain": (400, "no such luck"), "json": (400, {"message": "token revoked"}), "empty": (400, {}),
                               "401": (401, {"message": "no"}), "500": (500, "oops")}[op["outage"]]
        try:
            runner.api_client.login()
        finally:
            svc.login_reply.pop(actor, None)
        return None

    # What is expected.

    def secrets(self, where, error):
        seen, depth = error, 0
        while seen is not None and depth < 5:
            text = str(seen) + repr(seen)
            for t in self.tokens + ["tok-secret", "jwt-user"]:
                self.require("C15", t not in text, "secret-in-error", f"{where}: the error shows {t}: {text[:200]}")
            seen, depth = seen.__cause__, depth + 1

    def judge(self, where, client, svc, user, start, entry, out, error, sent, bad, handles):
        # pylint: disable=too-many-arguments,too-many-locals,too-many-branches,too-many-statements
        kind, name = entry["op"]["op"], type(error).__name__ if error else "ok"
        detail = f"{name}: {error}; requests {[(e['method'], e['path'].split('?')[0], e['status'], e['fault']) for e in sent]}"
        c = int(where.split()[1].rstrip(","))
        owner = self.owner[c]
        if kind == "relogin":
            new = self.reply_jwt(sent)
            if bad:
                self.require("C15", error is not None, "login-error-swallowed", f"{where}: {detail}")
                last = sent[-1]
                if last["status"] == 400 and not last["fault"]:
                    message = {"plain": "unknown", "json": "token revoked", "empty": "unknown"}.get(entry["op"]["outage"])
                    self.require("C15", name == "CredentialsError" and (message is None or message in str(error)), "login-error",
                                 f"{where}: a refused login gives {name}: {error}")
                elif last["status"] and last["status"] >= 400 and not last["fault"]:
                    self.require("C15", name == "ApiResponseError", "login-error", f"{where}: {detail}")
            else:
                self.require("C15", error is None, "login-failed", f"{where}: {detail}")
            if new and not bad:
                self.jwt[owner] = {new}
            self.ctx.probe("relogins")
            return
        pid = "C13" if kind in ("submit", "unsupported") else "C14"
        if kind == "unsupported":
            self.require(pid, name == "ConversionError", "unsupported-accepted", f"{where} {entry['op']['how']}: {detail}")
            self.require(pid, not sent, "unsupported-sent", f"{where}: {detail}")
            return
        if bad:
            self.require(pid, error is not None, "error-swallowed", f"{where}: {detail}")
            self.ctx.probe("errors-reported")
        for e in sent:
            if e["status"] in (400, 403, 404) and not (kind == "get" and entry["id"] == "exp-nobody-0000"):
                late = False
                if kind == "result":    # the job had no output at some moment of this operation
                    told = svc.history[svc.experiments[entry["h"]["id"]]["job"]]
                    late = any(not x[2] for x in [x for x in told if x[0] <= start][-1:] + [x for x in told if x[0] > start])
                self.require(pid, late, "wrong-request", f"{where}: the client asks for what is not there: {detail}")
        if kind == "submit":
            self.judge_submit(where, client, svc, user, entry, out, error, sent, bad, handles, detail)
        elif kind == "list":
            if error is not None:
                weird = any(s not in svc.STATES for h in svc.history.values() for _, s, _ in h)
                self.require(pid, bad or (name == "InvalidResponseFieldError" and weird), "failed-without-fault", f"{where}: {detail}")
                return
            ids = [x.id_ for x in out]
            before = [e for e, x in svc.experiments.items() if x["user"] == user and x["born"] <= start]
            now = [e for e, x in svc.experiments.items() if x["user"] == user]
            self.require(pid, len(set(ids)) == len(ids) and set(ids) <= set(now), "list", f"{where}: {ids}, there are {now}")
            self.require(pid, set(before) <= set(ids), "list", f"{where}: {ids}, there were {before}")
            for x in out:
                self.judge_handle(pid, where, svc, x)
                self.remember(handles, svc, x)
            self.ctx.probe("lists")
        elif kind == "get":
            if error is not None:
                x = svc.experiments.get(entry["id"])
                weird = x and x["job"] and any(t not in svc.STATES for _, t, _ in svc.history[x["job"]])
                self.require(pid, bad or (name == "InvalidResponseFieldError" and weird), "failed-without-fault", f"{where}: {detail}")
                return
            self.require(pid, out.id_ == entry["id"], "wrong-experiment", f"{where}: asked for {entry['id']}, got {out.id_}")
            self.judge_handle(pid, where, svc, out)
            self.remember(handles, svc, out)
        else:
            self.judge_query(where, svc, start, entry, out, error, sent, bad, detail)

    def judge_handle(self, pid, where, svc, x):
        from aihwkit.cloud.client.entities import CloudExperimentCategory as Cat
        rec = svc.experiments[x.id_]
        cat = {"train": Cat.BASIC_TRAINING, "trainweb": Cat.BASIC_TRAINING, "inference": Cat.BASIC_INFERENCE,
               "inferenceweb": Cat.BASIC_INFERENCE}.get(rec["category"])
        self.require(pid, x.name == rec["name"] and x.category == cat, "wrong-experiment", f"{where}: {x} for {rec}")
        got = x.created_at
        stamp = got.strftime("%Y-%m-%dT%H:%M:%S.%fZ")
        self.require(pid, stamp == rec["createdAt"] and got.utcoffset() is not None and got.utcoffset().total_seconds() == 0,
                     "wrong-date", f"{where}: {got} for {rec['createdAt']}")

    def remember(self, handles, svc, x):
        if len(handles) < 40:
            handles.append({"x": x, "svc": svc, "id": x.id_, "known": None})

    def judge_submit(self, where, client, svc, user, entry, out, error, sent, bad, handles, detail):
        # pylint: disable=too-many-arguments,too-many-locals
        import json
        pid, op, spec = "C13", entry["op"], entry["spec"]
        dup = any(e["fault"] == "duplicate" for e in sent)
        applied = [e for e in sent if e["status"] is not None and e["status"] < 300 and e["fault"] not in ("500", "503", "429")]

        def made(path):
            return [json.loads(e["reply"])["id"] for e in applied if e["method"] == "POST" and e["path"] == path]
        exps, inputs, jobs = made("/api/experiments"), made("/api/inputs"), made("/api/jobs")
        for e in exps:
            self.specs[e] = spec
            self.ctx.probe("experiments-created")
        self.require(pid, error is not None or not bad, "error-swallowed", f"{where}: {detail}")
        self.require(pid, error is None or bad, "failed-without-fault", f"{where}: {detail}")
        self.require(pid, len(exps) <= 1 and len(inputs) <= 1 and len(jobs) <= 1, "submitted-twice",
                     f"{where}: created {exps} {inputs} {jobs}: {detail}")
        device = op["device"] or "gpu"
        for j in jobs:
            job = svc.jobs[j]
            self.require(pid, job["input_then"] is not None, "job-without-input", f"{where}: the job was queued before its input: {detail}")
            wrong = check_input(spec, job["input_then"])
            self.require(pid, wrong is None, "wrong-input", lambda: f"{where}: the uploaded input is not the experiment: {wrong}")
            self.require(pid, job["device"] == device, "wrong-device", f"{where}: {job['device']} instead of {device}")
            self.ctx.probe("jobs-created")
        for n in inputs:
            self.require(pid, svc.inputs[n]["device"] == device and (not exps or svc.inputs[n]["experiment"] == exps[0] or dup),
                         "wrong-device", f"{where}: input {svc.inputs[n]} of {exps}, device {device}")
        for e in exps:
            rec = svc.experiments[e]
            want = "inference" if spec["infer"] else "train"
            self.require(pid, rec["category"] == want and rec["user"] == user, "wrong-category", f"{where}: {rec}")
            if op["name"]:
                self.require(pid, rec["name"] == op["name"], "wrong-name", f"{where}: {rec['name']!r} instead of {op['name']!r}")
            else:
                self.require(pid, spec["dataset"] in rec["name"] and str(len(spec["model"]["layers"])) in rec["name"], "wrong-name",
                             f"{where}: generated name {rec['name']!r}")
        after = input_bytes(spec, entry["exp"])
        self.require(pid, after == entry["before"] and entry.get("infos", (spec.get("analog"), spec.get("noise"))) ==
                     (spec.get("analog"), spec.get("noise")), "experiment-changed", f"{where}: submitting changed the experiment")
        if error is None:
            self.require(pid, bool(exps and inputs and jobs), "not-submitted", f"{where}: {detail}")
            self.require(pid, out.id_ == exps[0] and out.job is not None and out.job.id_ == jobs[0], "wrong-handle",
                         f"{where}: {out}, created {exps} {jobs}")
            self.judge_handle(pid, where, svc, out)
            self.remember(handles, svc, out)
            self.ctx.probe("submitted")
        else:
            self.ctx.probe("submissions-failed")

    def judge_query(self, where, svc, start, entry, out, error, sent, bad, detail):
        # pylint: disable=too-many-arguments,too-many-locals,too-many-branches
        from aihwkit.cloud.client.entities import CloudJobStatus as St
        pid, kind, h = "C14", entry["op"]["op"], entry["h"]
        name = type(error).__name__ if error else "ok"
        rec = svc.experiments[h["id"]]
        jid = rec["job"]
        history = svc.history.get(jid, []) if jid else []
        held = [x for x in history if x[0] <= start][-1:] + [x for x in history if x[0] > start]
        nothing = not history or history[0][0] > start
        names = {"waiting": St.WAITING, "validating": St.WAITING, "validated": St.WAITING, "running": St.RUNNING, "failed": St.FAILED,
                 "cancelled": St.FAILED, "completed": St.COMPLETED}
        possible = {names.get(s) for _, s, _ in held} | ({St.UNKNOWN} if nothing else set())
        ended = h["known"]
        if ended and kind == "status":
            self.require(pid, not sent and error is None and out == ended[0], "end-state-left",
                         f"{where}: {h['id']} was {ended[0]}, now {out}; {detail}")
            self.ctx.probe("end-states-kept")
            return
        if kind == "status":
            if error is not None:
                self.require(pid, bad or (name == "InvalidResponseFieldError" and None in possible), "failed-without-fault",
                             f"{where}: {detail}")
                return
            self.require(pid, out in possible and out is not None, "wrong-status", f"{where}: {h['id']} is said to be {out}, was "
                         f"{[(s, o) for _, s, o in held]} meanwhile{' (or had no job yet)' if nothing else ''}; {detail}")
            self.ctx.probe("statuses")
            if out == St.FAILED or (out == St.COMPLETED and h["x"].job.output_id):
                h["known"] = (out,)
            return
        if kind == "result":
            done = {(s, o) for _, s, o in held}
            if error is not None:
                ok = bad or (name == "InvalidResponseFieldError" and None in possible)
                ok = ok or (name == "ExperimentStatusError" and possible - {St.COMPLETED})
                self.require(pid, ok, "failed-without-fault", f"{where}: {h['id']} {done}: {detail}")
                if possible and not bad and St.COMPLETED not in possible and None not in possible:
                    self.require(pid, name == "ExperimentStatusError", "result-error", f"{where}: {h['id']} {done}: {detail}")
                return
            outputs = [o for s, o in done if o]
            self.require(pid, St.COMPLETED in possible and outputs, "result-too-early", f"{where}: {h['id']} {done} gives {out}")
            want = expected_result(self.results[outputs[-1]])
            diff = core.first_difference(want, out)
            self.require(pid, diff is None, "wrong-result", lambda: f"{where}: {h['id']}: {diff}")
            self.ctx.probe("results")
            return
        # the experiment itself
        if error is not None:
            ok = bad or (name == "InvalidResponseFieldError" and None in possible) or (name == "ExperimentStatusError" and nothing)
            self.require(pid, ok, "failed-without-fault", f"{where}: {h['id']}: {detail}")
            return
        self.require(pid, possible != {St.UNKNOWN}, "input-too-early", f"{where}: {h['id']} has no job: {detail}")
        spec = self.specs.get(h["id"])
        if spec is not None:
            want, got = describe(build_experiment(spec)), describe(out)
            if spec["infer"]:
                want.pop("loss"), got.pop("loss")
            diff = core.first_difference(want, got, tol=1e-6)
            self.require(pid, diff is None, "wrong-experiment", lambda: f"{where}: {h['id']}: {diff}")
            for tile in out.model.analog_tiles() if spec["infer"] else ():
                diff = core.first_difference(config_wanted(spec), config_seen(tile.rpu_config), tol=1e-6)
                self.require(pid, diff is None, "wrong-configuration", lambda: f"{where}: {h['id']}: {diff}")
                self.ctx.probe("configurations")
            self.ctx.probe("inputs")

    # The cloud by itself.

    def cloud(self):
        # pylint: disable=too-many-branches,too-many-locals
        for op in self.scn["cloud"]:
            self.sched.point()
            svc = self.services[op.get("s", 0) % len(self.services)]
            kind = op["op"]
            if kind == "advance":
                jobs = [(s, j) for s in self.services for j in s.jobs]
                if not jobs:
                    continue
                svc, jid = jobs[op["j"] % len(jobs)]
                self.advance(svc, jid, op)
            elif kind == "web":
                token = list(svc.accounts)[op["a"] % len(svc.accounts)]
                self.web(svc, svc.accounts[token], op)
            elif kind == "novelty":
                jobs = [(s, j) for s in self.services for j, x in s.jobs.items() if x["status"] not in ("completed", "failed", "cancelled")]
                if jobs:
                    svc, jid = jobs[op["j"] % len(jobs)]
                    svc.advance(jid, "paused")
                    self.ctx.fault("unknown-status")
            elif kind == "expire":
                users = list(svc.accounts.values())
                svc.expire(users[op["a"] % len(users)])
                self.ctx.fault("token-expired")
            elif kind == "redirects":
                svc.redirects = op["on"]
                if op["on"]:
                    self.ctx.fault("redirect")
            self.ctx.log("cloud", kind)

    def advance(self, svc, jid, op):
        job = svc.jobs[jid]
        now = job["status"]
        spec = self.specs.get(job["experiment"])
        infer = svc.experiments[job["experiment"]]["category"].startswith("inference")
        result = op["ri"] if infer else op["r"]
        path = ["waiting", "validating", "validated", "running", "completed"]
        if spec is None:
            return

        def publish(status):
            svc.advance(jid, status, output_bytes(result))
            self.results[job["output"]] = result
        if now == "completed":
            if not job["output"]:
                publish(None)
            return
        if now in ("failed", "cancelled"):
            return
        to = op["to"] or (path[path.index(now) + 1] if now in path else "running")
        if to != "completed":
            svc.advance(jid, to)
        elif op["out"] == "with" or job["output"]:
            if job["output"]:
                svc.advance(jid, to)
            else:
                publish(to)
        elif op["out"] == "late":
            svc.advance(jid, to)
            self.ctx.fault("late-output")
        else:
            publish(None)
            svc.advance(jid, "completed")
        self.ctx.sim_time += 60.0

    def web(self, svc, user, op):
        spec = op["e"]
        kind = "inference" if spec["infer"] else "train"
        exp = build_experiment(spec)
        name = f"web {svc.now}"
        category = kind + ("web" if op["cat"] == "web" else "")
        svc.now += 1
        _, _, body = svc.api(user, "POST", ["experiments"], {"name": name, "category": category})
        import json
        eid = json.loads(body)["id"]
        self.specs[eid] = spec
        if op["stage"] == "bare":
            return
        _, _, body = svc.api(user, "POST", ["inputs"], {"experiment": eid, "device": "gpu"})
        svc.objects[svc.inputs[json.loads(body)["id"]]["path"]] = input_bytes(spec, exp)
        if op["stage"] == "job":
            svc.now += 1
            svc.api(user, "POST", ["jobs"], {"experiment": eid, "device": "gpu"})

    # What must hold of all requests.

    def watch(self, e):
        """Called when a request leaves a client."""
        c = int(e["actor"][6:])
        owner = self.owner[c]
        client = self.scn["clients"][owner]
        storage = e["host"].startswith("cos")
        if storage or client["verify"] is not None:
            want = True if storage else client["verify"]
            self.require("C15", bool(e["verify"]) == want, "verification",
                         f"client {c} (verify={client['verify']}) sends to {e['host']} with verify={e['verify']}")
        if storage or e["path"].endswith("/token/login"):
            return
        got = e["headers"].get("Authorization")
        shared = sum(o == owner for o in self.owner.values()) > 1
        if shared:
            svc = self.services[client["service"] % len(self.services)]
            user = svc.accounts[list(svc.accounts)[client["account"] % len(svc.accounts)]]
            allowed = {f"Bearer {j}" for u, j in svc.issued if u == user}
        else:
            allowed = {f"Bearer {j}" for j in self.jwt[owner]}
        self.require("C15", got in allowed, "wrong-session-token", f"client {c}: {e['method']} {e['path']} with {got}, not {allowed}")
        self.ctx.probe("authorized-requests")

    def network_checks(self):
        from aihwkit.version import __version__
        for e in self.net.log:
            c = int(e["actor"][6:])
            client = self.scn["clients"][c]
            body = e["body"] if isinstance(e["body"], bytes) else str(e["body"] or "").encode()
            is_login = e["path"].endswith("/token/login")
            storage = e["host"].startswith("cos")
            head = str({k: v for k, v in e["headers"].items() if k != "Authorization"}) + e["path"]
            self.require("C15", "tok-secret" not in head + e["headers"].get("Authorization", "") and (is_login or b"tok-secret" not in body),
                         "token-sent", f"the API token of client {c} went out with {e['method']} {e['host']}{e['path']}")
            self.require("C15", "jwt-user" not in head and b"jwt-user" not in body, "session-token-sent",
                         f"the session token of client {c} went out with {e['method']} {e['host']}{e['path']}")
            self.require("C15", e["scheme"] == "https", "plain-text", f"{e['scheme']}://{e['host']}{e['path']}")
            if storage:
                self.require("C15", "Authorization" not in e["headers"] and "Cookie" not in e["headers"], "credentials-to-storage",
                             f"client {c} sent credentials to the object storage {e['host']}{e['path']}")
            else:
                self.require("C15", e["headers"].get("User-Agent") == f"aihwkit/{__version__}", "user-agent", str(e["headers"]))
        self.ctx.probe("requests", len(self.net.log))


def execute(scn, ctx, pid):
    import io
    import sys
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        World(scn, ctx, pid).run()
    finally:
        sys.stdout = old


def warm():
    """Imports that no forked run should have to repeat."""
    # pylint: disable=unused-import
    import requests
    import urllib3
    from torchvision import datasets
    from aihwkit.cloud.client.v1 import api_client, i_api_client
    from aihwkit.experiments.runners import cloud, i_cloud
    from aihwkit.simulator import presets
