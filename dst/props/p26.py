# encoding: utf-8
"""Equal loops are stretched alike wherever they are printed."""
import math
import random

from .semantic import ASSUMPTIONS, MEASURE, REAL, STUB, finish, run_and_judge, setup
from . import procs
from .p16 import OPTIONS
from .. import gen, oracles, shrink as shr
from ..printer import Cmd, Printer

ID = "P26"
RUNS = {"quick": 5000, "thorough": 3000000}
RULE = ("a seeded loop is printed several times in one program (moved, turned, mirrored, at other heights, as other kinds "
        "of loop, between other commands), which goes through the tool under a seeded transport and, in a part of the "
        "runs, faults; whenever success is reported the displacements of corresponding points are compared; non-trivial: "
        "the tool reported success and changed the program")
CATS = ("alike",)


TILTS = ((1, 0, 1), (3, 4, 5), (5, 12, 13), (63, 16, 65))


def loop(rng, edge):
    """Points of a closed loop in micrometres around the origin."""
    n = rng.choice([12, 16, 24, 40])
    r = rng.uniform(2.5, 8)
    how = rng.choice(["wave", "wave", "rough", "walk"])
    a, k, p = rng.uniform(0, 0.5), rng.randint(2, 5), rng.uniform(0, 7)
    pts = []
    for i in range(n):
        t = 2 * math.pi * i / n
        q = r * (1 + a * math.cos(k * t + p)) if how == "wave" else r * rng.uniform(0.6, 1.2) if how == "rough" else r
        x, y = q * math.cos(t), q * math.sin(t)
        if how == "walk":
            x, y = x + rng.uniform(-0.4, 0.4), y + rng.uniform(-0.4, 0.4)
        # (multiples of 65 are turned by the angles of TILTS exactly)
        pts.append([65 * int(round(1000 * x / 65)), 65 * int(round(1000 * y / 65))])
    return pts + pts[:1]


def place(pts, part):
    res = []
    for x, y in pts:
        if part["mirror"]:
            x = -x
        for _ in range(part["turn"]):
            x, y = -y, x
        c, s, r = TILTS[part["tilt"]]
        x, y = (c * x - s * y) // r, (s * x + c * y) // r
        res.append((x + part["at"][0], y + part["at"][1]))
    return res


def back(dx, dy, part):
    c, s, r = TILTS[part["tilt"]]
    dx, dy = (c * dx + s * dy) / r, (c * dy - s * dx) / r
    for _ in range(part["turn"]):
        dx, dy = dy, -dx
    return (-dx if part["mirror"] else dx), dy


def assemble(sc):
    """The lines, and the index of the line of each point of each copy."""
    kind, edge, emode = sc["kind"], sc["edge"], sc["emode"]
    lines, where = [], []
    e = [0.0]

    def ev(d):
        if emode == "none":
            return ""
        e[0] = e[0] + d if emode == "abs" else d
        return " E%.5f" % e[0]

    def mm(v):
        return ("%.4f" if kind == "skeinforge" else "%.3f") % (v / 1000.0)
    if kind == "slic3r":
        lines.append("; external perimeters extrusion width = %.2fmm" % edge)
    elif kind == "cura":
        lines.append(";CURA_PROFILE_STRING:" + gen.cura_profile(random.Random(len(sc["parts"])), repr(edge)))
    lines += ["G21", "G90"] + {"abs": ["M82"], "rel": ["M83"], "none": []}[emode]
    if kind == "skeinforge":
        lines += ["(<extruderInitialization>)", "(<edgeWidth> %s </edgeWidth>)" % edge, "(</extruderInitialization>)"]
    lines.append("G1 F3000")
    z = 0.2
    if kind != "skeinforge":
        lines.append("G1 Z%.3f F7800" % z)
    for part in sc["parts"]:
        along = ""                    # a new height is reached on the way
        if part["up"]:
            z += 0.2
            if kind == "skeinforge":
                lines += ["(</layer>)", "(<layer> %.1f )" % z]
            else:
                lines += [";LAYER"] * (kind == "cura")
                if part["up"] == 2:
                    along = " Z%.3f" % z
                else:
                    lines.append("G1 Z%.3f F7800" % z)
        lines += part["before"]
        pts = place(sc["loop"], part)
        zs = " Z%.1f" % z if kind == "skeinforge" else ""
        start = "X%s Y%s%s" % (mm(pts[0][0]), mm(pts[0][1]), zs)
        suffix = ""
        if kind != "skeinforge":
            start += along
        if kind == "cura":
            lines += ["G0 F9000 " + start,
                      {"outer": ";TYPE:WALL-OUTER", "inner": ";TYPE:WALL-INNER", "loop": ";TYPE:SKIN"}[part["type"]]]
        elif kind == "slic3r":
            lines.append("G1 %s F7800 ; move to first perimeter point" % start)
            suffix = " ; perimeter" if part["type"] == "loop" else " ; perimeter external"
        else:
            lines += [{"outer": "(<edge> outer )", "inner": "(<edge> inner )", "loop": "(<loop> inner )"}[part["type"]],
                      "G1 %s F960.0" % start, "M101"]
        mine = [None]
        for k in range(1, len(pts)):
            d = math.hypot(pts[k][0] - pts[k - 1][0], pts[k][1] - pts[k - 1][1]) / 1000 * 0.05
            mine.append(len(lines))
            lines.append("G1 X%s Y%s%s%s%s%s" % (mm(pts[k][0]), mm(pts[k][1]), zs, ev(d),
                                                 " F%d" % part["feed"] if k == 1 else "", suffix))
        where.append(mine)
        if kind == "skeinforge":
            lines += ["M103", "(</loop>)" if part["type"] == "loop" else "(</edge>)"]
        elif part["end"]:
            lines += {"cura": [";TYPE:FILL", "G0 X1 Y1", "G1 X5 Y5" + ev(0.3)],
                      "slic3r": ["G1 X1 Y1 F7800 ; move to first infill point", "G1 X5 Y5%s ; infill" % ev(0.3)]}[kind]
    return lines, where


def generate(rng, tier):
    kind = rng.choice(["cura", "cura", "slic3r", "slic3r", "skeinforge"])
    edge = rng.choice([0.35, 0.4, 0.5, 0.6, 0.72])
    sc = {"kind": kind, "edge": edge, "emode": rng.choice(["abs", "rel", "none"] if kind == "skeinforge" else ["abs", "rel"]),
          "loop": loop(rng, edge), "parts": [], "strength": 1.0, "ratios": {}}
    for k in range(rng.choice([2, 2, 3, 5])):
        r = rng.random()
        at = [rng.randint(-20000, 90000), rng.randint(-20000, 90000)]
        part = {"at": at, "turn": rng.choice([0, 0, 1, 2, 3]), "tilt": rng.choice([0, 0, 0, 1, 2, 3]),
                "mirror": rng.random() < 0.3, "up": rng.choice([0, 0, 0, 1, 2]),
                "type": rng.choice(["outer", "inner", "loop"]), "feed": rng.choice([900, 1200, 2400]),
                "end": rng.random() < 0.5, "before": []}
        if r < 0.2:
            # one of the points lies on an axis
            p = place(sc["loop"], dict(part, at=[0, 0]))[rng.randint(0, len(sc["loop"]) - 1)]
            axis = rng.randint(0, 1)
            at[axis] = -p[axis]
        if rng.random() < 0.3:
            part["before"] = [rng.choice(["M106 S127", "; note", "M104 S200", "G4 P1"]) for _ in range(rng.randint(1, 3))]
        sc["parts"].append(part)
    if rng.random() < 0.5:
        sc["strength"] = rng.choice([0.5, 2.0, 3.0])
    for name in OPTIONS:
        if rng.random() < 0.15:
            sc["ratios"][name] = rng.choice([0.05, 0.2, 0.5])
    tool = "stretch_plugin" if kind == "cura" and rng.random() < 0.3 else "gcode_stretch"
    if kind == "skeinforge":
        tool = "skeinforge_host"
    extra, args = {"stretch_strength": sc["strength"]}, []
    if tool == "stretch_plugin":
        sc["ratios"] = {}
    elif tool == "skeinforge_host":
        extra.update((OPTIONS[n], v) for n, v in sorted(sc["ratios"].items()))
    else:
        extra = {}
        args = ["-q", "-q", "--stretch_strength", repr(sc["strength"])]
        for name in sorted(sc["ratios"]):
            args += ["--" + OPTIONS[name], repr(sc["ratios"][name])]
    sc.update(tool=tool, args=args, extra=extra, program=assemble(sc)[0])
    return finish(rng, sc, 0.15)


def points(lines):
    """(place, filament pushed) after every line."""
    p = Printer()
    res = []
    for s in lines:
        mv = p.execute(Cmd(s))
        res.append((p.x, p.y, mv["de"] if mv and mv["has_e"] else None))
    return res


def judge(sc, orig, out, counts=None):
    if len(orig) != len(out):
        # the selection of relative extrusion is added
        out = [s for i, s in enumerate(out) if s != "M83" or s in orig]
    if len(orig) != len(out):
        return []                     # P16 tells
    lines, where = assemble(sc)
    if lines != orig:
        return []
    zs = [(z, changed and i > 0, e) for i, (z, changed, e) in enumerate(oracles.heights(orig))]
    regions = oracles.REGIONS[sc["kind"]](orig, zs)
    ratios = dict(oracles.RATIOS, **sc["ratios"])
    a, b = points(orig), points(out)
    pts = sc["loop"]
    steps = [math.hypot(p[0] - q[0], p[1] - q[1]) / 1000 for p, q in zip(pts, pts[1:])]
    margin = 2 * sc["edge"] + max(steps) + 0.01
    seen = {}
    counts = {} if counts is None else counts
    for n, part in enumerate(sc["parts"]):
        for k in range(1, len(pts)):
            if not margin < sum(steps[:k]) < sum(steps) - margin:
                continue
            i = where[n][k]
            if not regions[i]:
                return []
            bound = sc["edge"] * ratios[regions[i]] * sc["strength"]
            dx, dy = back(b[i][0] - a[i][0], b[i][1] - a[i][1], part)
            shrink = 1 - b[i][2] / a[i][2] if a[i][2] else None
            if k not in seen:
                seen[k] = (n, i, dx, dy, bound, shrink)
                continue
            m, j, ex, ey, other, before = seen[k]
            counts["points compared"] = counts.get("points compared", 0) + 1
            # (outputs are rounded to micrometres)
            if math.hypot(dx / bound - ex / other, dy / bound - ey / other) > 0.00075 * (1 / bound + 1 / other):
                return [("alike", "point %d of the loop moves by (%.3f, %.3f), bound %.3f (line %d), but by (%.3f, %.3f), "
                         "bound %.3f, in another copy (line %d)" % (k, dx, dy, bound, i, ex, ey, other, j))]
            # (no loop loses more than all of its filament)
            if shrink is not None and before is not None and max(shrink, before) < 0.99 and abs(shrink / bound - before / other) > (
                    1.2e-5 / a[i][2] / bound + 1.2e-5 / a[j][2] / other):
                return [("alike", "the filament of point %d of the loop shrinks by %.5f, bound %.3f (line %d), but by %.5f, "
                         "bound %.3f, in another copy (line %d)" % (k, shrink, bound, i, before, other, j))]
    return []


def run(sc):
    counts = {}
    o = run_and_judge(sc, lambda a, b: judge(sc, a, b, counts), CATS)
    o.probe("copies", len(sc["parts"]))
    o.probe("compared" if counts else "nothing to compare")
    for name, n in counts.items():
        o.probe(name, n)
    return o


def valid(sc):
    return True


def shrink(sc):
    for c in procs.shrink_job(sc):
        if c["program"] == sc["program"]:
            yield c
    for parts in shr.drop_chunks(sc["parts"]):
        if len(parts) > 1:
            c = dict(sc, parts=parts)
            yield dict(c, program=assemble(c)[0])
    for i, p in enumerate(sc["parts"]):
        for change in ({"before": []}, {"turn": 0}, {"mirror": False}, {"tilt": 0}, {"up": 0}, {"end": False}):
            if any(p[k] != v for k, v in change.items()):
                c = dict(sc, parts=sc["parts"][:i] + [dict(p, **change)] + sc["parts"][i + 1:])
                yield dict(c, program=assemble(c)[0])
