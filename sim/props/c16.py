"""C16: see properties.jsonl; local experiments of sim/expsim.py."""
from sim import expsim

PID = "C16"


def gen(rng, tier, index):  # pylint: disable=unused-argument
    return expsim.gen_training(rng, tier)


def execute(scn, ctx):
    expsim.execute_training(scn, ctx)


def warm():
    expsim.warm()
