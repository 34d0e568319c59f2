# encoding: utf-8
"""Moves along a circle are delivered as arcs."""
import math

from .semantic import ASSUMPTIONS, MEASURE, REAL, STUB, finish, run_and_judge, setup
from . import procs
from .. import gen, oracles, shrink as shr

ID = "P24"
RUNS = {"quick": 8000, "thorough": 3000000}
RULE = ("a seeded program of runs of moves along circles between other commands goes through the tool under a seeded "
        "transport and, in a part of the runs, faults; whenever success is reported the moves left over are counted "
        "against the runs; non-trivial: the tool reported success and changed the program")
CATS = ("kept",)


def circle(rng, absolute_e, chained=None):
    """A run of moves which an arc has to replace.

    chained: the run before, where this one begins, without a move of its own to get there, bending the other way.
    """
    n = rng.choice([12, 16, 24, 32, 64] if chained else [10, 11, 12, 16, 24, 32, 64])
    r = rng.choice([rng.uniform(1, 5), rng.uniform(5, 30), rng.uniform(30, 150)])
    closed = rng.random() < 0.3
    step = 360.0 / n if closed else rng.uniform(max(3.0, 60.0 / n), min(40.0, 350.0 / n))
    ccw = -chained["ccw"] if chained else rng.choice([1, -1])
    phase = rng.uniform(0, 360)
    jitter = rng.choice([0.0, 0.0, 0.04])
    far = rng.choice([1, 1, 1, 1, 20])
    cx, cy = far * rng.uniform(-50, 150), far * rng.uniform(-50, 150)
    if chained:
        cx = chained["end"][0] - r * math.cos(math.radians(phase))
        cy = chained["end"][1] - r * math.sin(math.radians(phase))
    pts = []
    for k in range(n + 1):
        a = math.radians(phase + ccw * step * (k + (rng.uniform(-jitter, jitter) if 0 < k < n else 0.0)))
        pts.append((round(cx + r * math.cos(a), 3), round(cy + r * math.sin(a), 3)))
    if closed:
        pts[-1] = pts[0]
    extruding = rng.random() < 0.8
    uneven = rng.choice([0.0, 0.0, 0.04])
    e, lines = chained["e"] if chained else 0.0, []
    if absolute_e and not chained:
        e = round(rng.choice([0.0, rng.uniform(0, 100)]), 5)
        lines.append("G92 E%.5f" % e if e or rng.random() < 0.5 else "G92 E0")
    start = "G%d X%.3f Y%.3f" % (rng.randint(0, 1), pts[0][0], pts[0][1])
    feed = rng.choice([600, 1200, 1800, 3000])
    how = rng.choice(["first", "before", "start", "all"])
    if chained:
        feed, how = chained["feed"], rng.choice(["none", "all"])
        extruding = chained["extruding"]
    elif how == "before":
        lines += [start, "G1 F%d" % feed] if rng.random() < 0.5 else ["G1 F%d" % feed, start]
    else:
        lines.append(start + (" F%d" % (feed if how == "start" else 9000)))
    for k in range(1, n + 1):
        line = "G1 X%.3f Y%.3f" % pts[k]
        if extruding:
            de = math.hypot(pts[k][0] - pts[k - 1][0], pts[k][1] - pts[k - 1][1]) * 0.05 * (1 + rng.uniform(-uneven, uneven))
            e = e + de
            line += " E%.5f" % (e if absolute_e else de)
        if how == "all" or how == "first" and k == 1:
            line += " F%d" % feed
        lines.append(line)
    return {"kind": "circle", "n": n, "lines": lines, "end": pts[-1], "ccw": ccw, "e": e, "feed": feed,
            "extruding": extruding, "chained": chained and chained["end"]}


def other(rng):
    r = rng.random()
    if r < 0.5:
        return {"kind": "other", "lines": [gen.noise(rng) for _ in range(rng.choice([1, 1, 2, 5]))]}
    if r < 0.7:
        return {"kind": "other", "lines": ["G1 Z%.2f" % rng.uniform(0.2, 20)]}
    if r < 0.85:
        return {"kind": "other", "lines": ["G0 X%.3f Y%.3f" % (rng.uniform(0, 100), rng.uniform(0, 100))
                                           for _ in range(rng.choice([1, 2, 9, 12]))]}
    return {"kind": "other", "lines": ["; comment", "M104 S%d" % rng.randint(180, 220)]}


def assemble(parts):
    return [line for p in parts for line in p["lines"]]


def generate(rng, tier):
    absolute_e = rng.random() < 0.5
    parts = [{"kind": "head", "lines": ["G21"][:rng.randint(0, 1)] + ["G90", "M82" if absolute_e else "M83"] + [
        "G1 Z0.2"][:rng.randint(0, 1)]}]
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        if rng.random() < 0.5:
            parts.append(other(rng))
        parts.append(circle(rng, absolute_e))
        while rng.random() < 0.2:
            parts.append(circle(rng, absolute_e, parts[-1]))
    if rng.random() < 0.5:
        parts.append(other(rng))
    if rng.random() < 0.08:
        inches = gen.to_inches(assemble(parts))
        done = 1
        for p in parts:
            p["lines"] = inches[done:done + len(p["lines"])]
            done += len(p["lines"])
        parts[0]["lines"].insert(0, inches[0])
    return finish(rng, {"tool": "gcode_optimize_arcs", "args": ["-q"], "program": assemble(parts), "parts": parts,
                        "extra": {}}, 0.15)


def moves(lines):
    return sum(1 for line in lines if oracles.Cmd(line).name in ("G0", "G1"))


def judge(parts, orig, out):
    circles = [p["n"] for p in parts if p["kind"] == "circle"]
    arcs = sum(1 for line in out if oracles.Cmd(line).name in ("G2", "G3"))
    if arcs < len(circles):
        return [("kept", "%d arcs for %d runs of moves along a circle" % (arcs, len(circles)))]
    left = moves(out) - (moves(orig) - sum(circles))
    # the end of a run may turn out only with the first move of the next one
    if left > sum(1 for p in parts if p.get("chained")):
        return [("kept", "%d moves of %d runs along a circle (%s moves) are kept" % (left, len(circles), circles))]
    return []


def run(sc):
    o = run_and_judge(sc, lambda a, b: judge(sc["parts"], a, b), CATS)
    o.probe("circles", sum(1 for p in sc["parts"] if p["kind"] == "circle"))
    return o


def valid(sc):
    return True


def shrink(sc):
    for c in procs.shrink_job(sc):
        if c["program"] == sc["program"]:
            yield c
    for parts in shr.drop_chunks(sc["parts"][1:]):
        parts = sc["parts"][:1] + parts
        if any(p.get("chained") and p["chained"] != q.get("end") for q, p in zip(parts, parts[1:])):
            continue
        yield dict(sc, parts=parts, program=assemble(parts))
    for i, p in enumerate(sc["parts"]):
        if p["kind"] == "other":
            for lines in shr.drop_chunks(p["lines"]):
                parts = sc["parts"][:i] + [dict(p, lines=lines)] + sc["parts"][i + 1:]
                yield dict(sc, parts=parts, program=assemble(parts))
