# encoding: utf-8
"""A pause is inserted once, right where its layer starts."""
from .semantic import ASSUMPTIONS, MEASURE, REAL, RULE, STUB, finish, run_and_judge, setup, shrink
from .. import gen, oracles

ID = "P12"
RUNS = {"quick": 25000, "thorough": 3000000}
CATS = ("pause", "verbatim", "lost")


def generate(rng, tier):
    prog = gen.layered_program(rng) if rng.random() < 0.85 else gen.slicer_program(rng)["lines"]
    n = len(oracles.printed_heights(oracles.heights(oracles.clean(prog))))
    k = rng.randint(0, max(n, 1)) if rng.random() < 0.9 else rng.choice([-1, n, n + 3, 1000])
    if rng.random() < 0.05:
        # pauses which are in the program already
        prog = list(prog)
        for _ in range(rng.choice([1, 2])):
            prog.insert(rng.randint(0, len(prog)), rng.choice(["M226", "M0", "M226 ; look"]))
    if rng.random() < 0.08:
        prog = gen.to_inches(prog)
    j = {"tool": "gcode_mod", "args": ["-q", "-p", str(k)], "program": prog, "extra": {}}
    if rng.random() < 0.1:
        # a program of a user, pausing at several layers
        layers = [rng.randint(0, n + 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        j.update(tool="pause_host", args=[], extra={"layers": layers})
    return finish(rng, j)


def run(sc):
    pause = sc["extra"]["layers"] if sc["tool"] == "pause_host" else oracles.options(sc)["pause"]
    return run_and_judge(sc, lambda a, b: oracles.check_mod(a, b, pause=pause), CATS)


def valid(sc):
    return "-p" in sc["args"] or sc["tool"] == "pause_host"
