# encoding: utf-8
"""Seeded generators of G-code programs."""
import base64
import math
import re
import zlib

NOISE = [
    "; a comment", ";LAYER:7", "(inline remark)", "M104 S200", "M109 S210.5", "M106 S255", "M107", "M117 Hello e5 x3",
    "G4 P100", "T0", "M84", "; caf\u00e9 \u2014 10\u00b5m", "M204 S1000 ; accel", "G21 ; metric", "M400", "M73 P12 R3",
    ";TIME:123", "; G1 X5 Y5 E9", "(G1 X1)", "@pause", "M140 S60 (bed)", "M0", "M600",
]
TAILS = ["", "", "", "", " ; tail", " ;tail \u00e9", " (r) ; t", " ; G1 X9", " (r) (r)", " (a) (b) (a) ;(a)"]
UNKNOWN = ["", "", "", "", "", "", " S100", " P2", " S0.5", " H3", " A1.5 B-2", " P.5 S-.25", " P+3 D1.",
           " W2 L1 V.5", " S1 P2 S1", " R0 Q-1 U3", " O1 C2 K-.5"]


def num(rng, v, digits=3):
    """A value with at most `digits` decimals in one of the spellings slicers use."""
    s = "%.*f" % (rng.choice([0, 1, 2, digits, digits]) if rng.random() < 0.5 else digits, v)
    r = rng.random()
    if r < 0.25 and "." in s:
        s = s.rstrip("0").rstrip(".") or "0"
    if r > 0.97 and s.startswith("0.") and len(s) > 2:
        s = s[1:]
    if r > 0.985 and not s.startswith("-"):
        s = "+" + s
    if s in ("-0", "-"):
        s = "0"
    return s


def noise(rng):
    return rng.choice(NOISE)


def coord(rng, lo=-20, hi=120):
    v = rng.choice([rng.uniform(lo, hi), float(rng.randint(int(lo), int(hi)))])
    if lo < -10 and rng.random() < 0.02:
        # large printers, and far away tool changers
        v = rng.choice([rng.uniform(200, 400), rng.uniform(-900, 3000), rng.uniform(-0.01, 0.01)])
    return v


def tail(rng, p=0.3):
    if rng.random() > p:
        return ""
    return rng.choice(UNKNOWN) + rng.choice(TAILS)


def respell(rng, line):
    """The same command, with other blanks between its words."""
    m = re.search(r"[;(]", line)
    head, rest = (line, "") if m is None else (line[:m.start()], line[m.start():])
    ws = head.split()
    if len(ws) < 2 or ws[0].upper() not in ("G0", "G1", "G2", "G3", "G92"):
        return line
    k = rng.randint(0, 4)
    if k == 4:
        # a decimal point without decimals
        ws = [w + "." if re.match(r"[A-Za-z][-+]?[0-9]+$", w) and i else w for i, w in enumerate(ws)]
    return ("", "\t", "  ", " \t ", " ")[k].join(ws) + (" " if rest and k else "") + rest


def free_program(rng, n=None, modes=True, g92=True, g28=True, arcs=True, emode=True, e=True, z=True, header=None,
                 noise_rate=0.12, start_mode=None, imperial=False, linenos=False, lower=False):
    """A random walk through the command set, not a printable object."""
    n = n if n is not None else rng.choice([3, 6, 12, 25, 45])
    lines = []
    if start_mode is None:
        start_mode = rng.random() < 0.75
    if start_mode:
        lines += rng.choice([["G90"], ["G21", "G90", "M82"], ["G28", "G90"], ["M83", "G90", "M83"], ["G91"],
                             ["G90 ; absolute"]])
    elog = 0.0                       # guess of the logical position, only to keep values plausible
    rel = rel_e = False
    for _ in range(n):
        r = rng.random()
        if r < noise_rate:
            lines.append(noise(rng))
            continue
        r = rng.random()
        if modes and r < 0.07:
            rel = rng.random() < 0.5
            rel_e = rel
            lines.append(("G91" if rel else "G90") + rng.choice(["", "", " ; mode"]))
            continue
        if emode and r < 0.12:
            rel_e = rng.random() < 0.5
            lines.append(("M83" if rel_e else "M82") + rng.choice(["", "", "", " ; mode"]))
            continue
        if g92 and r < 0.20:
            k = rng.random()
            if k < 0.35:
                v = rng.choice([0, 0, 0, 5, 1.5, -2])
                lines.append("G92 E%s" % num(rng, v))
                elog = v
            elif k < 0.5:
                lines.append("G92")
                elog = 0.0
            else:
                parts = [a + num(rng, coord(rng)) for a in "XYZ" if rng.random() < 0.5]
                if rng.random() < 0.25:
                    elog = rng.choice([0.0, 3.0])
                    parts.append("E" + num(rng, elog))
                if not parts:
                    elog = 0.0
                lines.append(" ".join(["G92"] + parts) + tail(rng, 0.1))
            continue
        if g28 and r < 0.24:
            lines.append(rng.choice(["G28", "G28 X0", "G28 X", "G28 Y", "G28 X0 Y0", "G28 Z0", "G28 Z", "G28 X Y",
                                     "G28 ; home", "G28 X0 ; h", "G28 X0 Y0 Z0", "G28 Y Z", "G28 ; home all axes", "G28 X ; only x, neither y nor z",
                                     "G28 (xy)", "G28 Y0 (x z)", "G28 Y0 X0"]))
            continue
        if imperial and r < 0.27:
            lines.append(rng.choice(["G20", "G21"]))
            continue
        if r < 0.28:
            lines.append("T%d" % rng.choice([0, 0, 1, 1, 2, 2, 2, 10, 13]))
            continue
        cmd = rng.choice(["G0", "G1", "G1", "G1", "G1"] + (["G2", "G3"] if arcs else []))
        parts = []
        s = 10.0 if rel else 1.0
        for a in "XY":
            if rng.random() < 0.65:
                parts.append(a + num(rng, coord(rng) / s))
        if z and rng.random() < 0.12:
            parts.append("Z" + num(rng, rng.uniform(-1, 2) if rel else rng.uniform(0, 30)))
        if cmd in ("G2", "G3"):
            parts.append("I" + num(rng, coord(rng, -5, 5)))
            parts.append("J" + num(rng, coord(rng, -5, 5)))
        if e and rng.random() < 0.5:
            if rel_e:
                v = rng.choice([rng.uniform(0, 2), -1.0, 0.5, rng.uniform(-1, 1)])
            else:
                elog += rng.choice([rng.uniform(0, 2), rng.uniform(0, 0.1), -1.0, 1.0, 0.0])
                v = elog
            parts.append("E" + num(rng, v, 5))
        if rng.random() < 0.2:
            parts.append("F" + num(rng, rng.choice([1200, 3000, 7800, rng.uniform(100, 9000)]), 3))
        if not parts:
            parts.append("F1500")
        if rng.random() < 0.2:
            rng.shuffle(parts)
        line = " ".join([cmd] + parts) + tail(rng)
        if linenos and rng.random() < 0.3:
            line = "N%d %s" % (rng.randint(1, 999), line)
        if lower and rng.random() < 0.1:
            line = line.lower()
        if rng.random() < 0.03:
            line = "  " + line + " "
        lines.append(line)
    if rng.random() < 0.05:
        lines.insert(rng.randint(0, len(lines)), "")
    if rng.random() < 0.1:
        lines = [respell(rng, s) if rng.random() < 0.3 else s for s in lines]
    if linenos and rng.random() < 0.3:
        # checksums, as hosts send them
        lines = [s + "*%d" % rng.randint(0, 99) if s[:1] == "N" and ";" not in s and "(" not in s else s for s in lines]
    return lines


def layered_program(rng, layers=None, hops=None, relz=None, absolute_e=None, repeats=True, per_layer=None,
                    noise_rate=0.06, height=None, prologue=True):
    """A printable object: every printed height is reached by a Z move."""
    layers = layers if layers is not None else rng.choice([1, 2, 3, 4, 5, 7])
    hops = rng.random() < 0.4 if hops is None else hops
    relz = rng.random() < 0.2 if relz is None else relz
    absolute_e = rng.random() < 0.6 if absolute_e is None else absolute_e
    h = height or rng.choice([0.1, 0.2, 0.25, 0.3, 0.4, 0.125])
    first = rng.choice([h, h, 0.3, 0.35, 0.5, 0.375])
    if rng.random() < 0.04:
        first = 0.0                   # the bed is leveled so that the nozzle starts there
    lines = []
    if prologue:
        lines += rng.choice([[], ["G21", "G28"], ["M104 S200", "G28 ; home", "G1 Z15 F9000"], ["; generated by slicer"],
                             ["G21", "G28", "G1 Z5.0 F3000"]])
    lines.append("G90")
    lines.append("M82" if absolute_e else "M83")
    lines.append("G92 E0")
    if rng.random() < 0.5:
        lines.append("G1 F1800")
    spiral = rng.random() < 0.06
    identical = repeats and rng.random() < 0.3
    body = None
    e = 0.0
    if rng.random() < 0.12:
        # priming the nozzle, often before any height is chosen
        for _ in range(rng.choice([1, 1, 2])):
            d = rng.choice([3.0, 0.5, 8.0])
            e += d if absolute_e else 0.0
            lines.append(rng.choice(["G1 E%.5f F200" % (e if absolute_e else d),
                                     "G1 X%.3f Y%.3f E%.5f" % (coord(rng), coord(rng), e if absolute_e else d)]))
        if absolute_e and rng.random() < 0.5:
            lines.append("G92 E0")
            e = 0.0

    def emit_e(d):
        if absolute_e:
            return "E%.5f" % (e + d)
        return "E%.5f" % d
    for k in range(layers):
        z = first + k * h
        began = False
        if rng.random() < 0.5:
            lines.append(";LAYER:%d" % k)
        if relz and k > 0 and not identical:
            lines.append("G91")
            lines.append("G1 Z%.3f F3000" % h)
            lines.append("G90")
            if not absolute_e:
                lines.append("M83")
        else:
            r = rng.random()
            if spiral and rng.random() < 0.7:
                began = True
                # like spirals: the first move of the layer reaches its height
                d = rng.uniform(0.01, 0.8)
                lines.append("G1 X%.3f Y%.3f Z%.3f %s" % (coord(rng), coord(rng), z, emit_e(d)) + rng.choice(["", " F1200", " ; up"]))
                if absolute_e:
                    e += d
            elif r < 0.6:
                lines.append("G1 Z%.3f F7800.000" % z)
            elif r < 0.8:
                lines.append("G0 X%.3f Y%.3f Z%.3f F9000" % (coord(rng), coord(rng), z))
            else:
                lines.append("G1 Z%.3f F7800.000 ; move to next layer (%d)" % (z, k))
        m = per_layer or rng.choice([1, 2, 3, 5, 8])
        if spiral and began and not identical and rng.random() < 0.4:
            m = 0
        if identical and body is None:
            body = [(coord(rng), coord(rng), rng.uniform(0.01, 0.8)) for _ in range(m)]
        pts = body if identical else [(coord(rng), coord(rng), rng.uniform(0.01, 0.8)) for _ in range(m)]
        for q, (x, y, d) in enumerate(pts):
            if rng.random() < noise_rate:
                lines.append(noise(rng))
            if hops and rng.random() < 0.3:
                lines.append("G1 %s F2400 ; retract" % emit_e(-1.0))
                if absolute_e:
                    e -= 1.0
                lines.append("G1 Z%.3f" % (z + rng.choice([1.0, 1.5, 2.0, 2 * h])))
                lines.append("G0 X%.3f Y%.3f" % (coord(rng), coord(rng)))
                lines.append("G1 Z%.3f" % z)
                lines.append("G1 %s F2400 ; unretract" % emit_e(1.0))
                if absolute_e:
                    e += 1.0
            elif rng.random() < 0.2:
                lines.append("G0 X%.3f Y%.3f" % (coord(rng), coord(rng)))
            lines.append("G1 X%.3f Y%.3f %s" % (x, y, emit_e(d)) + (rng.choice(TAILS) if rng.random() < 0.2 else ""))
            if absolute_e:
                e += d
        if absolute_e and rng.random() < 0.2:
            lines.append("G92 E0")
            e = 0.0
    if rng.random() < 0.5:
        lines += rng.choice([["M104 S0"], ["G1 Z%.3f" % (first + layers * h + 5), "M84"], ["; end"], ["M107", "M84"]])
    if rng.random() < 0.08:
        # no feed rate anywhere: durations are unknown
        lines = [re.sub(r" F[0-9.]+", "", s) for s in lines if not re.match(r"G1 F[0-9]+$", s)]
    return lines


def ring(rng, n, cx, cy, r, phase=None, ccw=None, jitter=0.0, frac=1.0):
    """Vertices of a regular polygon (or the part `frac` of one)."""
    phase = rng.uniform(0, 2 * math.pi) if phase is None else phase
    ccw = rng.random() < 0.5 if ccw is None else ccw
    pts = []
    for k in range(n + 1):
        a = phase + (1 if ccw else -1) * 2 * math.pi * frac * k / n
        rr = r + (rng.uniform(-jitter, jitter) if jitter else 0.0)
        pts.append((cx + rr * math.cos(a), cy + rr * math.sin(a)))
    return pts


def arc_program(rng):
    lines = []
    absolute_e = rng.random() < 0.5
    if rng.random() < 0.3:
        lines += ["; comment first", "G28"][:rng.randint(1, 2)]
    lines.append("G90")
    lines.append("M82" if absolute_e else "M83")
    if rng.random() < 0.7:
        lines.append("G1 F%d" % rng.choice([1200, 1800, 3000]))
    e = 0.0
    z = 0.2
    if rng.random() < 0.8:
        lines.append("G1 Z0.2")
    x0 = y0 = 0.0
    offs = [0.0, 0.0]
    relative = False
    prev = (0.0, 0.0)
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        kind = rng.choice(["ring", "ring", "arc", "arc", "line", "noise", "zigzag", "spiral", "multi", "same", "curl"])
        if rng.random() < 0.12:
            rel = rng.random() < 0.5
            if rel != relative:
                lines.append("G91" if rel else "G90")
                relative = rel
                if not rel:
                    lines.append("M82" if absolute_e else "M83")
                elif rng.random() < 0.5:
                    lines.append("M82" if absolute_e else "M83")
        rel_e = None
        if rng.random() < 0.12:
            lines.append("G92 X%.3f Y%.3f" % (rng.randint(-50, 50), rng.randint(-50, 50)))
        if absolute_e and rng.random() < 0.1:
            lines.append("G92 E0")
            e = 0.0
        cx, cy = rng.uniform(20, 100), rng.uniform(20, 100)
        r = rng.choice([rng.uniform(1, 10), rng.uniform(10, 60), rng.uniform(0.2, 1), rng.uniform(60, 190),
                        rng.uniform(190, 260)])
        n = rng.choice([8, 9, 10, 12, 16, 24, 32, 40])
        if kind == "ring":
            pts = ring(rng, n, cx, cy, r)
        elif kind == "arc":
            pts = ring(rng, n, cx, cy, r, frac=rng.choice([rng.uniform(0.05, 0.99), rng.uniform(0.9999, 1.0001),
                                                           1 + rng.uniform(-1, 1) * 0.01 / r]))
        elif kind == "multi":
            pts = ring(rng, n, cx, cy, r, frac=rng.choice([1.01, 1.5, 2.0, 3.0, 1.1]))
        elif kind == "curl":
            p1 = ring(rng, n, cx, cy, r, frac=rng.uniform(0.2, 0.7), ccw=True)
            pts = p1 + list(reversed(p1))[1:]
        elif kind == "line":
            dx, dy = rng.choice([(1, 0), (0, 1), (1, 1), (1, 2), (-1, 3), (rng.uniform(-3, 3), rng.uniform(-3, 3))])
            pts = [(cx + dx * k, cy + dy * k) for k in range(n + 1)]
        elif kind == "same":
            pts = [(cx, cy)] * (n + 1)
        elif kind == "zigzag":
            pts = [(cx + k, cy + (k % 2) * 3) for k in range(n + 1)]
        elif kind == "spiral":
            pts = [(cx + (r + 0.05 * k) * math.cos(2 * math.pi * k / n), cy + (r + 0.05 * k) * math.sin(2 * math.pi * k / n))
                   for k in range(n + 1)]
        else:
            pts = [(rng.uniform(0, 100), rng.uniform(0, 100)) for _ in range(rng.randint(1, 12))]
        extruding = rng.random() < 0.75
        factor = -0.05 if rng.random() < 0.04 else 0.05     # retraction on the way
        defect = rng.choice([None, None, None, None, "z", "f", "comment", "e", "wipe", "arc", "uneven", "startz",
                             "blip", "bump", "late", "long", "helix"])
        rise = rng.choice([0.001, 0.002, 0.01, 0.0004])
        if defect == "startz":
            z += 0.2
            zs = " Z%.3f" % z
        else:
            zs = ""
        dp = rng.choice([3, 3, 3, 2, 4, 5])
        uneven = rng.choice([(0.7, 1.3), (0.86, 1.14), (0.8, 1.2)])

        at = rng.randint(1, max(1, min(len(pts) - 1, rng.choice([8, 100]))))
        if defect == "bump" and at < len(pts):
            # a single point off the circle
            b = rng.choice([0.03, 0.06, 0.1, 0.3])
            pts[at] = (pts[at][0] + rng.uniform(-b, b), pts[at][1] + rng.uniform(-b, b))

        if defect == "long" and len(pts) > at + 1:
            # a single step much longer than the others
            del pts[at:at + rng.choice([1, 1, 2, 4])]
            at = min(at, len(pts) - 1)

        def xy(p):
            if relative:
                return "X%.*f Y%.*f" % (dp, p[0] - prev[0], dp, p[1] - prev[1])
            return "X%.*f Y%.*f" % (dp, p[0], dp, p[1])
        lines.append("G%d %s%s" % (rng.randint(0, 1), xy(pts[0]), "") + rng.choice(["", " F9000", ""]))
        prev = (round(pts[0][0], dp), round(pts[0][1], dp))
        if extruding and rng.random() < 0.5 or defect == "blip":
            lines.append("G1 F1500")
        for k in range(1, len(pts)):
            d = math.hypot(pts[k][0] - pts[k - 1][0], pts[k][1] - pts[k - 1][1])
            s = xy(pts[k])
            prev = (round(pts[k][0], dp), round(pts[k][1], dp))
            line = "G1 " + s
            de = d * factor
            if defect == "uneven":
                de *= rng.uniform(*uneven)
            if defect == "e" and k == at:
                de = -1.0
            if k == 1:
                line += zs
            if extruding and not (defect == "wipe" and k >= at) and not (defect == "late" and k <= at):
                if absolute_e and not (relative):
                    e += de
                    line += " E%.5f" % e
                else:
                    line += " E%.5f" % de
            if defect == "z" and k == at:
                z += rng.choice([0.2, 0.0])
                line += " Z%.3f" % (0.0 if relative else z)
            if defect == "helix" and not relative:
                # a spiral vase rises a little with every move
                z += rise
                line += " Z%.4f" % z
            if defect == "f" and k >= at:
                line += " F%d" % (1000 + at)
            if defect == "blip" and k in (at, at + 1):
                # a single segment at another feed rate
                line += " F%d" % (700 if k == at else 1500)
            if defect == "arc" and k == at:
                line = line.replace("G1", "G2") + " I1.000 J0.500"
            if k == at and defect == "comment":
                lines.append(rng.choice(["; in between", "M106 S100", "(note)"]))
            lines.append(line + (rng.choice(TAILS) if rng.random() < 0.03 else ""))
        if rng.random() < 0.4:
            lines.append(noise(rng))
        if rng.random() < 0.2 and not relative:
            z += 0.2
            lines.append("G1 Z%.3f" % z)
    if rng.random() < 0.4:
        lines += [noise(rng)]
    return lines


def cura_profile(rng, width):
    options = ["layer_height=0.2", "wall_thickness=0.8", "filament_diameter=2.85", "retraction_hop=0.75", "support=None",
               "object_sink=", "bottom_thickness=0.3", "nozzle_size_other=0.7", "min_nozzle_size=0.2", "skirt_gap=3.0"]
    options = rng.sample(options, rng.randint(0, len(options)))
    options.insert(rng.randint(0, len(options)), "nozzle_size=%s" % width)
    body = "\b".join(options) + "\f" + rng.choice(["", "x=2", "infill=1\bx=2\f", "start.gcode=G28\tnozzle_size=3\bnozzle_size=2"])
    return base64.b64encode(zlib.compress(body.encode())).decode()


def closing(rng, absolute_e, at):
    """What slicers do at the end of a print."""
    up = ["G91", "G1 E%.5f F300" % -1.0, "G1 Z+0.5 E-5 X-20 Y-20 F9000"]
    return rng.choice([["M104 S0", "M84"], up, up + ["G28 X0 Y0", "M84", "G90"], ["G92 E0", "G1 E-1 F300", "M84"], ["M83", "G1 E-2"],
                       ["G91", "G28 X0"], ["M83"], ["G1 E%.5f" % ((at if absolute_e else 0.0) - 1.0)]])


def slicer_program(rng, kind=None, simple=False):
    """A program in one of the formats the stretcher understands."""
    kind = kind or rng.choice(["cura", "slic3r"])
    edge = rng.choice([0.35, 0.4, 0.5, 0.6])
    with_edge = rng.random() < 0.8
    absolute_e = rng.random() < 0.7
    lines = []
    rings = []
    e = [0.0]

    def ev(d):
        if absolute_e:
            e[0] += d
            return "E%.5f" % e[0]
        return "E%.5f" % d
    if kind == "slic3r":
        lines.append("; generated by Slic3r")
        if with_edge:
            widths = ["; external perimeters extrusion width = %.2fmm" % edge + rng.choice(["", " (1.76mm^3/s)"])]
            for other in ("perimeters", "infill", "solid infill", "first layer"):
                if rng.random() < 0.3:
                    widths.insert(rng.randint(0, len(widths)), "; %s extrusion width = 0.77mm" % other)
            lines += widths
    else:
        lines.append(";FLAVOR:RepRap")
    lines += ["G21", "G90", "M82" if absolute_e else "M83", "G1 F3000"]
    if kind == "cura" and not with_edge:
        marker = "; CURA_PROFILE_STRING missing"   # still recognised as Cura by its marker word
        lines.append(marker)
    layers = rng.choice([1, 1, 2, 3])
    for k in range(layers):
        z = 0.2 + 0.2 * k
        if kind == "cura":
            lines.append(";LAYER:%d" % k)
            lines.append("G0 F9000 X%.3f Y%.3f Z%.3f" % (rng.uniform(0, 50), rng.uniform(0, 50), z))
        else:
            lines.append("G1 Z%.3f F7800.000" % z)
        if rng.random() < 0.15:
            lines.append(noise(rng))
        for _ in range(rng.choice([1, 1, 2, 3])):
            cx, cy = rng.uniform(20, 80), rng.uniform(20, 80)
            shape = rng.choice(["ring", "ring", "ring", "square", "random", "tiny", "point"])
            n = rng.choice([12, 16, 24, 32])
            r = rng.uniform(2, 8)
            ccw = rng.random() < 0.5
            if shape == "ring":
                pts = ring(rng, n, cx, cy, r, ccw=ccw)
            elif shape == "square":
                pts = [(cx, cy), (cx + r, cy), (cx + r, cy + r), (cx, cy + r), (cx, cy)]
            elif shape == "tiny":
                pts = ring(rng, 8, cx, cy, 0.1)
            elif shape == "point":
                pts = [(cx, cy)] * rng.randint(2, 4)
            else:
                pts = [(cx + rng.uniform(-5, 5), cy + rng.uniform(-5, 5)) for _ in range(rng.randint(2, 9))]
            ltype = rng.choice(["outer", "inner", "skin"]) if kind == "cura" else rng.choice(["external", "perimeter"])
            dropx = rng.random() < 0.05
            if kind == "cura":
                lines.append("G0 F9000 X%.3f Y%.3f" % pts[0])
                lines.append({"outer": ";TYPE:WALL-OUTER", "inner": ";TYPE:WALL-INNER", "skin": ";TYPE:SKIN"}[ltype])
                suffix = ""
            else:
                lines.append("G1 X%.3f Y%.3f F7800.000 ; move to first perimeter point" % pts[0])
                if rng.random() < 0.3:
                    lines.append("G1 %s F2400.000 ; unretract" % ev(1.0))
                suffix = " ; perimeter external" if ltype == "external" else " ; perimeter"
            start = len(lines)
            # commands in the middle of a loop
            inner = [q for q in range(1, len(pts)) if rng.random() < 0.15] if not simple and rng.random() < 0.12 else []
            for q in range(1, len(pts)):
                if q in inner:
                    c = rng.choice(["mode", "mode", "abs", "abs", "zero", "note", "fan"])
                    mode = "M82" if absolute_e else "M83"
                    if c == "mode":
                        lines.append(mode)
                    elif c == "abs":
                        lines += ["G90"] + ([] if absolute_e else [mode])
                    elif c == "zero":
                        lines.append("G92 E0")
                        e[0] = 0.0
                    else:
                        lines.append("; note" if c == "note" else "M106 S12")
                d = math.hypot(pts[q][0] - pts[q - 1][0], pts[q][1] - pts[q - 1][1])
                f = " F1200.000" if q == 1 else ""
                if dropx and q > 1:
                    lines.append("G1 Y%.3f %s%s%s" % (pts[q][1], ev(d * 0.05), f, suffix))
                else:
                    lines.append("G1 X%.3f Y%.3f %s%s%s" % (pts[q][0], pts[q][1], ev(d * 0.05), f, suffix))
                if not simple and rng.random() < 0.02:
                    lines.append(rng.choice(["M106 S127" + suffix, "G1 F1100" + suffix]))
            if shape == "ring" and not dropx and not inner:
                rings.append([start, len(lines), cx, cy, r])
            if kind == "slic3r" and rng.random() < 0.4:
                lines.append("G1 %s F2400.000 ; retract" % ev(-1.0))
                if rng.random() < 0.7:
                    lines.append("G1 X%.3f Y%.3f F7800.000 ; move to first infill point" % (cx, cy))
                    lines.append("G1 %s F2400.000 ; unretract" % ev(1.0))
        if rng.random() < 0.7:
            if kind == "cura":
                lines.append(rng.choice([";TYPE:FILL", ";TYPE:FILL", ";TYPE:SUPPORT", ";TYPE:SKIRT"]))
                lines.append("G0 F9000 X%.3f Y%.3f" % (rng.uniform(0, 50), rng.uniform(0, 50)))
                suffix = ""
            else:
                lines.append("G1 X%.3f Y%.3f F7800.000 ; move to first infill point" % (rng.uniform(0, 50), rng.uniform(0, 50)))
                suffix = " ; infill"
            lines.append("G1 F1500" + suffix)
            for _ in range(rng.randint(1, 4)):
                lines.append("G1 X%.3f Y%.3f %s%s" % (rng.uniform(0, 50), rng.uniform(0, 50), ev(0.7), suffix))
        if absolute_e and rng.random() < 0.3:
            lines.append("G92 E0")
            e[0] = 0.0
    if rng.random() < 0.4:
        lines += closing(rng, absolute_e, e[0])
    if kind == "cura" and with_edge:
        lines.append(";CURA_PROFILE_STRING:" + cura_profile(rng, repr(edge)))
    return {"lines": lines, "kind": kind, "edge": edge if with_edge else 0.4, "rings": rings}


def skeinforge_program(rng, simple=False):
    """A program as Skeinforge writes it: marked threads, every coordinate on every move."""
    edge = rng.choice([0.4, 0.5, 0.6, 0.72])
    emode = rng.choice(["none", "abs", "abs", "rel"])
    rings = []
    e = [0.0]
    lines = ["(<alteration>)", "G21", "G90"][rng.randint(0, 1):]
    lines += {"none": [], "abs": ["M82", "G92 E0"], "rel": ["M83"]}[emode]
    lines += ["(<extruderInitialization>)", "(<edgeWidth> %s </edgeWidth>)" % edge, "(</extruderInitialization>)"]

    def move(x, y, z, f, d=0.0):
        s = "G1 X%.4f Y%.4f Z%.1f F%.1f" % (x, y, z, f)
        if d and emode != "none":
            e[0] = e[0] + d if emode == "abs" else d
            s += " E%.5f" % e[0]
        return s
    for k in range(rng.choice([1, 1, 2, 3])):
        z = round(0.2 + 0.2 * k, 1)
        lines.append("(<layer> %.1f )" % z)
        for _ in range(rng.choice([1, 1, 2, 3])):
            cx, cy = rng.uniform(-30, 30), rng.uniform(-30, 30)
            shape = rng.choice(["ring", "ring", "ring", "square", "random", "tiny", "point"])
            r = rng.uniform(2, 8)
            if shape == "ring":
                pts = ring(rng, rng.choice([16, 24, 32]), cx, cy, r)
            elif shape == "square":
                pts = [(cx, cy), (cx + r, cy), (cx + r, cy + r), (cx, cy + r), (cx, cy)]
            elif shape == "tiny":
                pts = ring(rng, 8, cx, cy, 0.1)
            elif shape == "point":
                pts = [(cx, cy)] * rng.randint(2, 4)
            else:
                pts = [(cx + rng.uniform(-5, 5), cy + rng.uniform(-5, 5)) for _ in range(rng.randint(2, 9))]
            what, end = rng.choice([("(<edge> outer )", "(</edge>)"), ("(<edge> inner )", "(</edge>)"),
                                    ("(<loop> outer )", "(</loop>)"), ("(<loop> inner )", "(</loop>)")])
            nested = rng.random() < 0.5
            if nested:
                lines += ["(<nestedRing>)", "(<boundaryPerimeter>)",
                          "(<boundaryPoint> X%.4f Y%.4f Z%.1f </boundaryPoint>)" % (cx, cy, z)]
            lines += [what, move(pts[0][0], pts[0][1], z, 960.0), "M101"]
            start = len(lines)
            for a, b in zip(pts, pts[1:]):
                lines.append(move(b[0], b[1], z, 384.0, 0.05 * math.hypot(a[0] - b[0], a[1] - b[1])))
                if not simple and rng.random() < 0.01:
                    lines.append(rng.choice(["M106 S127", "(note)"]))
            if shape == "ring":
                rings.append([start, len(lines), cx, cy, r])
            lines += ["M103", end]
            if nested:
                lines += ["(</boundaryPerimeter>)", "(</nestedRing>)"]
        if rng.random() < 0.7:
            x, y = rng.uniform(-30, 30), rng.uniform(-30, 30)
            lines += ["(<infill>)", move(x, y, z, 960.0), "M101"]
            for _ in range(rng.randint(1, 4)):
                lines.append(move(x + rng.uniform(-9, 9), y + rng.uniform(-9, 9), z, 384.0, 0.3))
            lines += ["M103", "(</infill>)"]
        lines.append("(</layer>)")
        if emode == "abs" and rng.random() < 0.3:
            lines.append("G92 E0")
            e[0] = 0.0
    return {"lines": lines, "kind": "skeinforge", "edge": edge, "rings": rings}


_WORD = re.compile(r"([XYZEFIJxyzefij])([-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+))")


def to_inches(lines):
    """The same program in inches."""
    out = ["G20"]
    for line in lines:
        m = re.search(r"[;(]", line)
        head, rest = (line, "") if m is None else (line[:m.start()], line[m.start():])
        name = head.split()[0].upper() if head.split() else ""
        if name == "G21":
            head = head.replace("G21", "G20")
        elif name in ("G0", "G1", "G2", "G3", "G92"):
            head = _WORD.sub(lambda m: "%s%.*f" % (m.group(1), 7 if m.group(1) in "Ee" else 5, float(m.group(2)) / 25.4), head)
        out.append(head + rest)
    return out


def any_program(rng):
    """For properties about I/O, not about content."""
    r = rng.random()
    if r < 0.35:
        return free_program(rng)
    if r < 0.7:
        return layered_program(rng)
    if r < 0.85:
        return arc_program(rng)
    return slicer_program(rng)["lines"]
