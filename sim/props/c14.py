"""C14: see properties.jsonl; the world is the simulated cloud of sim/cloudrun.py."""
from sim import cloudrun

PID = "C14"


def gen(rng, tier, index):  # pylint: disable=unused-argument
    return cloudrun.gen(rng, tier, PID)


def execute(scn, ctx):
    cloudrun.execute(scn, ctx, PID)


def warm():
    cloudrun.warm()
