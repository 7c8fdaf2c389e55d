"""C17: see properties.jsonl; local experiments of sim/expsim.py."""
from sim import expsim

PID = "C17"


def gen(rng, tier, index):  # pylint: disable=unused-argument
    return expsim.gen_inference(rng, tier)


def execute(scn, ctx):
    expsim.execute_inference(scn, ctx)


def warm():
    expsim.warm()
