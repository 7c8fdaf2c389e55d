"""Configurations and models as plain data: generated from a seed, written in replay files, built on demand.

A configuration node is {"cls": name, "f": {field: value}}; a node without "cls" overrides fields of the default
object.  Strings of the form "PulseType.STOCHASTIC" are enum members.  Nothing here imports torch until a build.
"""

SIMPLE_DEVICES = ["ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "SoftBoundsReferenceDevice",
                  "ExpStepDevice", "PowStepDevice", "PowStepReferenceDevice", "PiecewiseStepDevice", "IdealDevice",
                  "SoftBoundsPmaxDevice"]
WRITE_NOISE = {"LinearStepDevice", "SoftBoundsDevice", "ExpStepDevice", "PowStepDevice", "PiecewiseStepDevice",
               "SoftBoundsReferenceDevice"}


def pick(rng, *items):
    return items[rng.randrange(len(items))]


def maybe(rng, p):
    return rng.random() < p


def gen_drift(rng, full=True):
    f = {"nu": pick(rng, 0.05, 0.1)}
    if full:
        f["nu_dtod"] = pick(rng, 0.0, 0.3)
        f["nu_std"] = pick(rng, 0.0, 0.1)
        if maybe(rng, 0.3):
            f["w_noise_std"] = 0.01
    return {"cls": "DriftParameter" if full else "SimpleDriftParameter", "f": f}


def gen_device(rng, name=None, rich=True, plain=False):
    """A pulsed device with parameters that make a few steps visible."""
    name = name or pick(rng, *SIMPLE_DEVICES)
    f = {}
    if name == "IdealDevice":
        if rich and maybe(rng, 0.4):
            f["lifetime"] = pick(rng, 20.0, 100.0)
        if rich and maybe(rng, 0.4):
            f["diffusion"] = 0.01
        return {"cls": name, "f": f}
    if name == "SoftBoundsPmaxDevice":
        f["p_max"] = pick(rng, 50, 200)
        f["alpha"] = pick(rng, 0.005, 0.01)
    elif name == "ExpStepDevice":
        # within the range where its fitted exponentials stay sensible
        f["dw_min"] = pick(rng, 0.005, 0.01)
        f["gamma_up"] = pick(rng, 1.0, 3.0)
        f["gamma_down"] = pick(rng, 1.0, 3.0)
    else:
        f["dw_min"] = pick(rng, 0.005, 0.01, 0.02)
    if plain:
        f.update({"dw_min_dtod": 0.0, "dw_min_std": 0.0, "w_max_dtod": 0.0, "w_min_dtod": 0.0, "up_down_dtod": 0.0})
    else:
        f["dw_min_dtod"] = pick(rng, 0.0, 0.3)
        f["dw_min_std"] = pick(rng, 0.0, 0.3)
        f["w_max_dtod"] = pick(rng, 0.0, 0.2)
        f["w_min_dtod"] = pick(rng, 0.0, 0.2)
        f["up_down_dtod"] = pick(rng, 0.0, 0.05)
    if name != "SoftBoundsPmaxDevice":
        bound = pick(rng, 0.5, 0.8, 1.0)
        f["w_max"], f["w_min"] = bound, -bound
    if name == "LinearStepDevice":
        f["gamma_up"] = pick(rng, 0.0, 0.3)
        f["gamma_down"] = pick(rng, 0.0, 0.3)
    if name == "PiecewiseStepDevice":
        f["piecewise_up"] = [1.0, 0.8, 0.5]
        f["piecewise_down"] = [0.5, 0.9, 1.0]
    if name == "SoftBoundsReferenceDevice":
        f["reference_std"] = pick(rng, 0.0, 0.05)
        f["subtract_symmetry_point"] = pick(rng, False, True)
    if name == "PowStepReferenceDevice":
        f["subtract_symmetry_point"] = pick(rng, False, True)
        f["n_estimation_steps"] = 20
    if rich:
        if name in WRITE_NOISE and maybe(rng, 0.3):
            f["write_noise_std"] = pick(rng, 0.5, 2.0)
            if maybe(rng, 0.3):
                f["apply_write_noise_on_set"] = False
        if maybe(rng, 0.25):
            f["lifetime"] = pick(rng, 20.0, 100.0)
            f["lifetime_dtod"] = pick(rng, 0.0, 0.3)
        if maybe(rng, 0.25):
            f["diffusion"] = pick(rng, 0.005, 0.02)
            f["diffusion_dtod"] = pick(rng, 0.0, 0.3)
        if maybe(rng, 0.25):
            f["reset"] = pick(rng, 0.0, 0.05)
            f["reset_dtod"] = pick(rng, 0.0, 0.05)
        if maybe(rng, 0.25):
            f["drift"] = gen_drift(rng)
        if maybe(rng, 0.1):
            f["corrupt_devices_prob"] = 0.2
        if maybe(rng, 0.15):
            f["count_pulses"] = True
    return {"cls": name, "f": f}


def gen_io(rng, perfect=None):
    if perfect is True or (perfect is None and maybe(rng, 0.35)):
        return {"f": {"is_perfect": True}}
    f = {"out_noise": pick(rng, 0.0, 0.06), "w_noise": pick(rng, 0.0, 0.02)}
    if f["w_noise"]:
        f["w_noise_type"] = "WeightNoiseType.ADDITIVE_CONSTANT"
    if maybe(rng, 0.3):
        f["bound_management"] = pick(rng, "BoundManagementType.NONE", "BoundManagementType.ITERATIVE_WORST_CASE",
                                     "BoundManagementType.ITERATIVE")
    if maybe(rng, 0.3):
        f["noise_management"] = pick(rng, "NoiseManagementType.NONE", "NoiseManagementType.MAX",
                                     "NoiseManagementType.CONSTANT", "NoiseManagementType.AVERAGE_ABS_MAX")
    if maybe(rng, 0.2):
        f["inp_noise"] = 0.02
    if maybe(rng, 0.2):
        f["out_noise_std"] = 0.3
    if maybe(rng, 0.15):
        f["out_nonlinearity"] = 0.1
        f["out_nonlinearity_std"] = 0.3
    if maybe(rng, 0.15):
        f["v_offset_std"] = 0.05
    if maybe(rng, 0.15):
        f["w_read_asymmetry_dtod"] = 0.1
    return {"f": f}


def gen_update(rng):
    f = {}
    if maybe(rng, 0.6):
        f["pulse_type"] = pick(rng, "PulseType.STOCHASTIC_COMPRESSED", "PulseType.STOCHASTIC", "PulseType.MEAN_COUNT",
                               "PulseType.NONE_WITH_DEVICE", "PulseType.DETERMINISTIC_IMPLICIT")
    if maybe(rng, 0.4):
        f["desired_bl"] = pick(rng, 7, 31, 63)
    if maybe(rng, 0.3):
        f["update_bl_management"] = False
    if maybe(rng, 0.3):
        f["update_management"] = False
    return {"f": f}


def gen_mapping(rng, inference=False):
    f = {}
    if maybe(rng, 0.5):
        f["weight_scaling_omega"] = pick(rng, 0.3, 0.6, 1.0)
        if maybe(rng, 0.5):
            f["weight_scaling_columnwise"] = True
    if maybe(rng, 0.3):
        f["learn_out_scaling"] = True
        if maybe(rng, 0.5):
            f["out_scaling_columnwise"] = True
    if maybe(rng, 0.3):
        f["digital_bias"] = False
    if not inference and maybe(rng, 0.15):
        f["weight_scaling_lr_compensation"] = True
    return {"f": f}


def gen_pre_post(rng, p=0.4):
    if not maybe(rng, p):
        return None
    f = {"enable": True, "init_from_data": pick(rng, 0, 2, 5), "decay": pick(rng, 0.001, 0.05),
         "learn_input_range": pick(rng, True, True, False), "init_value": pick(rng, 1.0, 3.0)}
    return {"f": {"input_range": {"f": f}}}


def gen_compound(rng, kind=None, dev=None):
    """A compound of several devices per cross point."""
    kind = kind or pick(rng, "VectorUnitCell", "ReferenceUnitCell", "OneSidedUnitCell", "TransferCompound",
                        "BufferedTransferCompound", "ChoppedTransferCompound", "DynamicTransferCompound")
    dev = dev or pick(rng, "ConstantStepDevice", "SoftBoundsDevice", "LinearStepDevice", "PowStepDevice",
                      "SoftBoundsReferenceDevice", "ExpStepDevice")
    f = {}
    if kind == "VectorUnitCell":
        n = pick(rng, 2, 3)
        f["unit_cell_devices"] = [gen_device(rng, None if maybe(rng, 0.3) else dev) for _ in range(n)]
        f["unit_cell_devices"] = [d if d["cls"] != "IdealDevice" else gen_device(rng, "ConstantStepDevice")
                                  for d in f["unit_cell_devices"]]
        f["update_policy"] = pick(rng, "VectorUnitCellUpdatePolicy.ALL", "VectorUnitCellUpdatePolicy.SINGLE_FIXED",
                                  "VectorUnitCellUpdatePolicy.SINGLE_SEQUENTIAL",
                                  "VectorUnitCellUpdatePolicy.SINGLE_RANDOM")
        if maybe(rng, 0.5):
            f["gamma_vec"] = [1.0, 0.5, 0.25][:n]
    elif kind == "ReferenceUnitCell":
        f["unit_cell_devices"] = [gen_device(rng, dev), gen_device(rng, dev)]
    elif kind == "OneSidedUnitCell":
        f["unit_cell_devices"] = [gen_device(rng, pick(rng, "SoftBoundsDevice", "ConstantStepDevice",
                                                       "LinearStepDevice"), rich=maybe(rng, 0.5))]
        f["unit_cell_devices"][0]["f"].pop("corrupt_devices_prob", None)
        if maybe(rng, 0.6):
            f["refresh_every"] = pick(rng, 1, 2, 3)
            f["refresh_upper_thres"] = 0.5
            f["units_in_mbatch"] = pick(rng, True, False)
        if maybe(rng, 0.3):
            f["copy_inverted"] = True
        if "refresh_every" in f:
            f["unit_cell_devices"][0]["f"].pop("write_noise_std", None)
    else:
        n = 3 if kind == "TransferCompound" and maybe(rng, 0.3) else 2
        f["unit_cell_devices"] = [gen_device(rng, dev) for _ in range(n)]
        f["transfer_every"] = pick(rng, 1, 2, 3)
        f["units_in_mbatch"] = pick(rng, True, False)
        f["transfer_columns"] = pick(rng, True, True, False)
        if maybe(rng, 0.5):
            f["fast_lr"] = pick(rng, 0.1, 0.5)
        if maybe(rng, 0.3):
            f["transfer_lr"] = 0.5
        if maybe(rng, 0.4):
            f["transfer_forward"] = {"f": {"is_perfect": True}}
        if kind in ("TransferCompound", "BufferedTransferCompound"):
            f["gamma"] = pick(rng, 0.0, 0.1)
            if maybe(rng, 0.3):
                f["random_selection"] = True
            if maybe(rng, 0.3):
                f["n_reads_per_transfer"] = 2
            if maybe(rng, 0.3) and kind == "TransferCompound" and f["transfer_columns"]:
                f["with_reset_prob"] = 0.5
        else:
            f["in_chop_prob"] = pick(rng, 0.0, 0.2, 0.5)
            f["in_chop_random"] = pick(rng, True, False)
            if maybe(rng, 0.3):
                f["auto_scale"] = True
            if maybe(rng, 0.3):
                f["out_chop_prob"] = 0.2
            if maybe(rng, 0.3):
                f["auto_granularity"] = 10.0
            if maybe(rng, 0.3):
                f["correct_gradient_magnitudes"] = True
            f["forget_buffer"] = pick(rng, True, False)
            f["momentum"] = pick(rng, 0.0, 0.1)
    return {"cls": kind, "f": f}


def gen_mixed(rng):
    f = {"device": gen_device(rng, pick(rng, "SoftBoundsDevice", "ConstantStepDevice", "LinearStepDevice")),
         "transfer_every": pick(rng, 1, 2, 3)}
    if maybe(rng, 0.3):
        f["device"] = gen_compound(rng, pick(rng, "VectorUnitCell", "ReferenceUnitCell", "OneSidedUnitCell"))
    if maybe(rng, 0.4):
        f["n_rows_per_transfer"] = pick(rng, 1, 2)
        f["random_row"] = pick(rng, True, False)
    if maybe(rng, 0.4):
        f["n_x_bins"], f["n_d_bins"] = 5, 5
    if maybe(rng, 0.3):
        f["granularity"] = 0.01
    return {"cls": "MixedPrecisionCompound", "f": f}


def gen_noise_model(rng):
    name = pick(rng, "PCMLikeNoiseModel", "ReRamCMONoiseModel", "ReRamWan2022NoiseModel")
    if name == "PCMLikeNoiseModel":
        return {"cls": name, "f": {"g_max": 25.0, "prog_noise_scale": pick(rng, 0.0, 1.0),
                                   "read_noise_scale": pick(rng, 0.0, 1.0), "drift_scale": 1.0}}
    return {"cls": name, "f": {}}


def gen_modifier(rng):
    typ = pick(rng, "DISCRETIZE", "MULT_NORMAL", "ADD_NORMAL", "DISCRETIZE_ADD_NORMAL", "DOREFA", "POLY", "COPY",
               "DROP_CONNECT", "PROG_NOISE")
    f = {"type": f"WeightModifierType.{typ}", "std_dev": 0.1, "res": 0.1}
    if typ in ("COPY", "DROP_CONNECT"):
        f["pdrop"] = 0.3
    if typ == "POLY":
        f["coeffs"] = [0.1, 0.05]
    if maybe(rng, 0.2):
        f["pdrop"] = 0.2
    return {"f": f}


def gen_inference(rng, cls=None, rich=True):
    cls = cls or pick(rng, "InferenceRPUConfig", "TorchInferenceRPUConfig", "TorchInferenceRPUConfigIRDropT",
                      "QuantizedTorchInferenceRPUConfig")
    torchy = cls != "InferenceRPUConfig"
    f = {"mapping": gen_mapping(rng, True)}
    if torchy:
        f["mapping"]["f"].pop("digital_bias", None)
    io = {"out_noise": pick(rng, 0.0, 0.04)}
    if maybe(rng, 0.3):
        io["is_perfect"] = True
    if cls == "TorchInferenceRPUConfigIRDropT":
        io.pop("is_perfect", None)
        io["ir_drop_segments"] = 2
    f["forward"] = {"f": io}
    if cls in ("InferenceRPUConfig", "TorchInferenceRPUConfig") and maybe(rng, 0.5):
        f["noise_model"] = gen_noise_model(rng)
    else:
        f["noise_model"] = {"cls": "PCMLikeNoiseModel", "f": {"g_max": 25.0}}
    if maybe(rng, 0.3):
        f["drift_compensation"] = None
    if rich:
        if maybe(rng, 0.5):
            f["modifier"] = gen_modifier(rng)
            if torchy:
                good = ("DISCRETIZE", "MULT_NORMAL", "ADD_NORMAL")
                if f["modifier"]["f"]["type"].split(".")[1] not in good:
                    f["modifier"] = {"f": {"type": "WeightModifierType.ADD_NORMAL", "std_dev": 0.1}}
                f["modifier"]["f"].pop("pdrop", None)
        if maybe(rng, 0.5):
            f["clip"] = {"f": {"type": pick(rng, "WeightClipType.FIXED_VALUE", "WeightClipType.LAYER_GAUSSIAN"),
                               "fixed_value": 0.4, "sigma": 1.5}}
        if not torchy and maybe(rng, 0.3):
            f["remap"] = {"f": {"type": pick(rng, "WeightRemapType.LAYERWISE_SYMMETRIC",
                                             "WeightRemapType.CHANNELWISE_SYMMETRIC")}}
    pp = gen_pre_post(rng)
    if pp and cls != "QuantizedTorchInferenceRPUConfig":
        f["pre_post"] = pp
    if cls == "QuantizedTorchInferenceRPUConfig":
        q = {"f": {"n_bits": pick(rng, 0, 8), "learn_quant_params": maybe(rng, 0.4),
                   "init_learning_after": pick(rng, 1, 3), "symmetric": maybe(rng, 0.5)}}
        f["pre_post"] = {"f": {"periph_quant": q}}
        if pp:
            f["pre_post"]["f"]["input_range"] = pp["f"]["input_range"]
    return {"cls": cls, "f": f}


FAMILIES = ["single", "vector", "reference", "onesided", "transfer", "buffered", "chopped", "dynamic", "mixed",
            "float", "inference", "torch", "irdrop", "quant", "custom", "torchtransfer"]
TRAINING = ["single", "vector", "reference", "onesided", "transfer", "buffered", "chopped", "dynamic", "mixed"]
INFERENCE = ["inference", "torch", "irdrop", "quant"]


def gen_config(rng, family):
    """A configuration of the given family."""
    compounds = {"vector": "VectorUnitCell", "reference": "ReferenceUnitCell", "onesided": "OneSidedUnitCell",
                 "transfer": "TransferCompound", "buffered": "BufferedTransferCompound",
                 "chopped": "ChoppedTransferCompound", "dynamic": "DynamicTransferCompound"}
    if family == "float":
        f = {"device": {"f": {}}, "mapping": gen_mapping(rng)}
        if maybe(rng, 0.4):
            f["device"]["f"]["lifetime"] = 50.0
        if maybe(rng, 0.4):
            f["device"]["f"]["diffusion"] = 0.01
        if maybe(rng, 0.4):
            f["device"]["f"]["drift"] = gen_drift(rng, False)
        return {"cls": "FloatingPointRPUConfig", "f": f}
    if family in INFERENCE:
        cls = {"inference": "InferenceRPUConfig", "torch": "TorchInferenceRPUConfig",
               "irdrop": "TorchInferenceRPUConfigIRDropT", "quant": "QuantizedTorchInferenceRPUConfig"}[family]
        return gen_inference(rng, cls)
    if family == "custom":
        f = {"mapping": gen_mapping(rng)}
        f["mapping"]["f"].pop("digital_bias", None)
        return {"cls": "CustomRPUConfig", "f": f}
    if family == "torchtransfer":
        dev = gen_compound(rng, pick(rng, "ChoppedTransferCompound", "DynamicTransferCompound"), "SoftBoundsDevice")
        for key in ("out_chop_prob", "n_reads_per_transfer"):
            dev["f"].pop(key, None)
        dev["f"]["units_in_mbatch"] = True
        dev["f"]["transfer_columns"] = True
        return {"cls": "UnitCellRPUConfig", "f": {"device": dev, "tile_class": "TorchTransferTile"}}
    f = {"forward": gen_io(rng), "backward": gen_io(rng), "update": gen_update(rng), "mapping": gen_mapping(rng)}
    pp = gen_pre_post(rng, 0.25)
    if pp:
        f["pre_post"] = pp
    if family == "single":
        f["device"] = gen_device(rng)
        return {"cls": "SingleRPUConfig", "f": f}
    if family == "mixed":
        f["device"] = gen_mixed(rng)
        return {"cls": "DigitalRankUpdateRPUConfig", "f": f}
    f["device"] = gen_compound(rng, compounds[family])
    return {"cls": "UnitCellRPUConfig", "f": f}


# ---------------------------------------------------------------------------------------------------------------------

_NAMES = {}


def _names():
    if _NAMES:
        return _NAMES
    import aihwkit.inference as inf
    import aihwkit.simulator.configs as cfg
    import aihwkit.simulator.parameters.enums as enums
    from aihwkit.inference.noise.reram import ReRamCMONoiseModel, ReRamWan2022NoiseModel
    from aihwkit.simulator.tiles.custom import CustomRPUConfig
    from aihwkit.simulator.tiles.transfer import TorchTransferTile
    for mod in (enums, cfg, inf):
        for key in dir(mod):
            if isinstance(getattr(mod, key), type):
                _NAMES[key] = getattr(mod, key)
    _NAMES.update(CustomRPUConfig=CustomRPUConfig, TorchTransferTile=TorchTransferTile,
                  ReRamCMONoiseModel=ReRamCMONoiseModel, ReRamWan2022NoiseModel=ReRamWan2022NoiseModel)
    return _NAMES


def _value(val, default=None):
    names = _names()
    if isinstance(val, str):
        if val in names:
            return names[val]
        head, _, tail = val.partition(".")
        if tail and head in names and hasattr(names[head], tail):
            return getattr(names[head], tail)
        return val
    if isinstance(val, list):
        return [_value(v) for v in val]
    if isinstance(val, dict):
        if "cls" in val:
            return build_config(val)
        for key, sub in val["f"].items():
            setattr(default, key, _value(sub, getattr(default, key, None)))
        return default
    return val


def build_config(node):
    cls = _names()[node["cls"]]
    f = node["f"]
    direct = {}
    later = {}
    for key, val in f.items():
        if (isinstance(val, dict) and "cls" not in val) or key in ("tile_class",):
            later[key] = val
        else:
            direct[key] = val
    obj = cls(**{k: _value(v) for k, v in direct.items()})
    for key, val in later.items():
        setattr(obj, key, _value(val, getattr(obj, key, None)))
    return obj


# ---------------------------------------------------------------------------------------------------------------------
# models

LAYERS = ["linear", "linear2", "mapped", "conv1d", "conv2d", "conv2dmapped", "lstm", "gru", "rnn", "mixed"]


def gen_model(rng, family, kinds=None):
    kinds = kinds or LAYERS
    kind = pick(rng, *kinds)
    if family in ("custom", "torchtransfer", "quant") and kind not in ("linear", "linear2", "mapped", "mixed"):
        kind = pick(rng, "linear", "linear2")
    if family == "torchtransfer":
        kind = "linear"
    if family == "irdrop":
        return {"kind": pick(rng, "linear", "linear2"), "in": pick(rng, 2, 4, 6), "out": pick(rng, 4, 6),
                "bias": maybe(rng, 0.6), "batch": pick(rng, 1, 2, 3), "hidden": 4}
    if family == "torch" and kind == "conv1d":
        kind = "conv2d"
    return {"kind": kind, "in": pick(rng, 2, 3, 4, 5), "out": pick(rng, 2, 3, 4), "bias": maybe(rng, 0.6),
            "batch": pick(rng, 1, 2, 3), "hidden": pick(rng, 2, 3)}


def build_model(spec, cfg):
    """The model of the spec on the (built) configuration; every analog layer gets its own copy of it."""
    from torch.nn import Tanh, Linear, Flatten
    from aihwkit import nn as an
    kind, bias = spec["kind"], spec["bias"]
    i, o, h = spec["in"], spec["out"], spec["hidden"]
    if kind == "linear":
        return an.AnalogSequential(an.AnalogLinear(i, o, bias=bias, rpu_config=cfg))
    if kind == "linear2":
        return an.AnalogSequential(an.AnalogLinear(i, h, bias=bias, rpu_config=cfg), Tanh(),
                                   an.AnalogLinear(h, o, bias=not bias, rpu_config=cfg))
    if kind == "mixed":
        return an.AnalogSequential(Linear(i, h), Tanh(), an.AnalogLinear(h, o, bias=bias, rpu_config=cfg))
    if kind == "mapped":
        cfg.mapping.digital_bias = True
        cfg.mapping.max_input_size = 3
        cfg.mapping.max_output_size = 2
        return an.AnalogSequential(an.AnalogLinearMapped(i + 2, o, bias=bias, rpu_config=cfg))
    if kind == "conv1d":
        return an.AnalogSequential(an.AnalogConv1d(1, h, 2, bias=bias, rpu_config=cfg), Tanh(), Flatten())
    if kind == "conv2d":
        return an.AnalogSequential(an.AnalogConv2d(1, h, 2, bias=bias, rpu_config=cfg), Tanh(), Flatten())
    if kind == "conv2dmapped":
        cfg.mapping.max_input_size = 5
        cfg.mapping.max_output_size = 2
        cfg.mapping.digital_bias = True
        return an.AnalogSequential(an.AnalogConv2dMapped(2, h, 2, bias=bias, rpu_config=cfg), Tanh(), Flatten())
    if kind in ("lstm", "gru", "rnn"):
        cell = {"lstm": an.AnalogLSTMCell, "gru": an.AnalogGRUCell, "rnn": an.AnalogVanillaRNNCell}[kind]
        return an.AnalogRNN(cell, i, h, bias=bias, rpu_config=cfg, num_layers=1, xavier=False)
    raise ValueError(kind)


def input_shape(spec):
    b = spec["batch"]
    kind = spec["kind"]
    if kind == "mapped":
        return (b, spec["in"] + 2)
    if kind == "conv1d":
        return (b, 1, 4)
    if kind == "conv2d":
        return (b, 1, 3, 3)
    if kind == "conv2dmapped":
        return (b, 2, 3, 3)
    if kind in ("lstm", "gru", "rnn"):
        return (2, b, spec["in"])
    return (b, spec["in"])


def run_model(model, spec, x):
    out = model(x)
    if spec["kind"] in ("lstm", "gru", "rnn"):
        out = out[0]
    return out
