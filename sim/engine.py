"""Loads aihwkit from /repo's working tree with the simulator's build of its C++ engine, inside this process."""
import ctypes
import importlib.machinery
import importlib.util
import os
import random
import sys

from sim import build as builder

SEAM = None
MODE_SEEDED = 0
MODE_STREAM = 2


def environment():
    """The environment every simulated process gets."""
    env = {k: v for k, v in os.environ.items() if k in ("HOME", "TMPDIR", "VERIF_SEED", "VERIF_TIER", "SIM_REPO")}
    env.update({
        "HOME": env.get("HOME", "/root"), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"),
        "PYTHONPATH": f"{builder.VERIF}:{builder.REPO}/src", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg", "HF_HUB_OFFLINE": "1", "HF_DATASETS_OFFLINE": "1",
        "TRANSFORMERS_OFFLINE": "1", "LD_PRELOAD": builder.align_lib(), "CUDA_VISIBLE_DEVICES": "",
    })
    return env


def load(lib):
    """Import torch and aihwkit with the given build of the engine."""
    global SEAM
    sys.path.insert(0, builder.REPO + "/src")
    import torch

    torch.set_num_threads(1)
    name = "aihwkit.simulator.rpu_base"
    loader = importlib.machinery.ExtensionFileLoader(name, lib)
    spec = importlib.util.spec_from_file_location(name, lib, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    import aihwkit  # noqa: F401
    sys.modules[name] = mod
    import aihwkit.simulator
    aihwkit.simulator.rpu_base = mod
    import aihwkit.nn  # noqa: F401
    import aihwkit.optim  # noqa: F401
    from aihwkit.simulator import rpu_base
    if rpu_base is not mod:
        raise RuntimeError("the simulator's build of the engine is not the one in use")
    if not os.path.realpath(aihwkit.__file__).startswith(os.path.realpath(builder.REPO)):
        raise RuntimeError(f"aihwkit comes from {aihwkit.__file__}")
    lib_c = ctypes.CDLL(lib)
    lib_c.sim_seed.argtypes = [ctypes.c_ulonglong]
    lib_c.sim_set_mode.argtypes = [ctypes.c_int]
    lib_c.sim_honour_srand.argtypes = [ctypes.c_int]
    lib_c.sim_set_clock.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
    lib_c.sim_get_state.restype = ctypes.c_ulonglong
    lib_c.sim_set_state.argtypes = [ctypes.c_ulonglong]
    lib_c.sim_counter.restype = ctypes.c_ulonglong
    SEAM = lib_c
    return mod


def seed_all(seed, mode=MODE_STREAM):
    """Put every random stream of the process (engine, torch, numpy, Python) at a position given by the seed."""
    import numpy
    import torch

    SEAM.sim_set_mode(mode)
    SEAM.sim_seed(seed & 0xFFFFFFFFFFFFFFFF)
    torch.manual_seed(seed & 0x7FFFFFFF)
    numpy.random.seed(seed & 0x7FFFFFFF)
    random.seed(seed)


def set_clock(ns, step=0):
    SEAM.sim_set_clock(int(ns), int(step))
