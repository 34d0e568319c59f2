# encoding: utf-8
"""A temperature gradient is safe, ordered and additive."""
from .semantic import ASSUMPTIONS, MEASURE, REAL, RULE, STUB, finish, run_and_judge, setup
from .semantic import shrink as base_shrink
from .. import gen, oracles

ID = "P17"
RUNS = {"quick": 20000, "thorough": 3000000}
CATS = ("temperature", "verbatim", "lost")


def generate(rng, tier):
    layers = rng.choice([2, 3, 5, 8, 12, 20, 30])
    prog = gen.layered_program(rng, layers=layers, height=rng.choice([0.1, 0.2, 0.25, 0.3, 0.5, 1.0]),
                               per_layer=rng.choice([1, 2, 3, 6]))
    inches = rng.random() < 0.08
    if inches or "G91" in prog:
        prog = gen.to_inches(prog)
    a = rng.choice([200, 180, 230, 150, 250, 210, rng.randint(150, 250)])
    b = rng.choice([230, 190, 250, 150, 211, rng.randint(150, 250), rng.choice([140, 260, 300])])
    if rng.random() < 0.05:
        b = a
    z = rng.choice([0.1, 0.1, 0.0, 0.35, 0.5, 1.0, 3.0])
    if inches or "G91" in prog:
        z += 0.037                   # not a height but for rounding
    steps = rng.choice([1, 2, 3, 5, 7, 10, 10, 20])
    cont = rng.random() < 0.4
    g = {"start": a, "end": b, "min_z": z, "steps": steps, "continuous": cont}
    if rng.random() < 0.2:
        g["continuous"] = False
        j = {"tool": "tempcal_plugin", "args": [], "extra": {"start_temp": float(a), "end_temp": float(b),
                                                             "min_z_change": z, "steps": float(steps)}}
    else:
        j = {"tool": "gcode_tempcal", "args": ["-q", "-z", repr(z)] + (["-c"] if cont else ["-s", str(steps)]),
             "positional": [str(a), str(b)], "extra": {}}
    j["gradient"] = g
    j["program"] = prog
    return finish(rng, j)


def run(sc):
    g = sc["gradient"]
    o = run_and_judge(sc, lambda a, b: oracles.check_tempcal(
        a, b, g["start"], g["end"], g["min_z"], g["steps"], g["continuous"]), CATS,
        lambda a: oracles.too_low(a, g["min_z"]))
    return o


def valid(sc):
    return True


def shrink(sc):
    for c in base_shrink(sc):
        if c.get("args") == sc.get("args"):
            yield c
