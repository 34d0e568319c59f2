# encoding: utf-8
"""Stretching only nudges loop points, by a bounded amount."""
from .semantic import ASSUMPTIONS, MEASURE, REAL, RULE, STUB, finish, run_and_judge, setup
from .semantic import shrink as base_shrink
from .. import gen, oracles

ID = "P16"
RUNS = {"quick": 12000, "thorough": 3000000}
OPTIONS = {"loop": "loop_stretch_over_edge_width", "inner": "edge_inside_stretch_over_edge_width",
           "outer": "edge_outside_stretch_over_edge_width"}
CATS = ("stretch", "mode", "verbatim", "rewrite", "lost")


def generate(rng, tier):
    s = gen.slicer_program(rng) if rng.random() < 0.75 else gen.skeinforge_program(rng)
    if rng.random() < 0.08 and s["kind"] != "skeinforge":
        s = dict(s, lines=gen.to_inches(s["lines"]), rings=[])
    tool = "stretch_plugin" if s["kind"] == "cura" and rng.random() < 0.3 else "gcode_stretch"
    if s["kind"] == "skeinforge":
        tool = "skeinforge_host"
    j = {"tool": tool, "args": [], "program": s["lines"], "extra": {}, "kind": s["kind"], "edge": s["edge"],
         "rings": s["rings"], "strength": 1.0, "ratios": {}}
    if rng.random() < 0.5:
        j["strength"] = rng.choice([0.5, 2.0, 0.0, 1.5, 3.0, 10.0])
    if tool == "stretch_plugin":
        j["extra"] = {"stretch_strength": j["strength"]}
    else:
        for name in OPTIONS:
            if rng.random() < 0.15:
                j["ratios"][name] = rng.choice([0.05, 0.2, 0.5])
    if tool == "skeinforge_host":
        j["extra"] = dict([("stretch_strength", j["strength"])] + [(OPTIONS[n], v) for n, v in sorted(j["ratios"].items())])
    elif tool == "gcode_stretch":
        j["args"] = ["-q", "-q", "--stretch_strength", repr(j["strength"])]
        for name in sorted(j["ratios"]):
            j["args"] += ["--" + OPTIONS[name], repr(j["ratios"][name])]
    return finish(rng, j, 0.15)


def run(sc):
    return run_and_judge(sc, lambda a, b: oracles.check_stretch(
        a, b, sc["kind"], sc["edge"], sc["strength"], sc["ratios"], sc["rings"]), CATS)


def valid(sc):
    return True


def shrink(sc):
    for c in base_shrink(sc):
        if c["program"] != sc["program"]:
            if sc["kind"] == "skeinforge" and not any("<edgeWidth>" in l for l in c["program"]):
                continue
            # rings are line ranges of the complete program
            c = dict(c, rings=[])
            if "CURA_PROFILE_STRING" not in "".join(c["program"]) and "extrusion width" not in "".join(c["program"]) and \
                    sc["kind"] != "skeinforge":
                c = dict(c, edge=0.4)
            if sc["kind"] == "cura" and not any("CURA_PROFILE_STRING" in l for l in c["program"]) and \
                    c["tool"] == "gcode_stretch":
                continue
        yield c
