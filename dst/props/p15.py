# encoding: utf-8
"""Arc replacement stays on the path and loses nothing."""
from .semantic import ASSUMPTIONS, MEASURE, REAL, RULE, STUB, finish, run_and_judge, setup, shrink
from .. import gen, oracles

ID = "P15"
RUNS = {"quick": 20000, "thorough": 3000000}
CATS = ("arc", "verbatim", "lost")


def generate(rng, tier):
    r = rng.random()
    if r < 0.9:
        prog = gen.arc_program(rng)
    else:
        prog = gen.any_program(rng)
    if rng.random() < 0.08:
        prog = gen.to_inches(prog)
    return finish(rng, {"tool": "gcode_optimize_arcs", "args": ["-q", "-q"], "program": prog, "extra": {}}, 0.15)


def run(sc):
    seen = []

    def judge(a, b):
        bad, n = oracles.check_arcs(a, b)
        seen.append(n)
        return bad
    o = run_and_judge(sc, judge, CATS)
    if seen and seen[0]:
        o.probe("arcs checked", seen[0])
    return o


def valid(sc):
    return True
