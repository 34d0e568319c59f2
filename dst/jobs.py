# encoding: utf-8
"""Jobs of a host process which uses the package as a library: load, transform, write."""
import io

from . import gen

KINDS = ["mod", "mod", "arcs", "arcs", "stretch", "stretch", "tempcal", "load", "feed", "edit", "compare"]


def generate(rng, kind=None, small=True):
    kind = kind or rng.choice(KINDS)
    j = {"kind": kind}
    if kind == "mod":
        j["program"] = gen.free_program(rng, n=rng.choice([5, 12, 25])) if rng.random() < 0.6 else gen.layered_program(rng, layers=3)
        j["x"] = rng.choice([None, 10.0, -3.25])
        j["y"] = rng.choice([None, 4.5])
        j["e"] = rng.random() < 0.5
        j["p"] = rng.choice([None, 0, 1, 2])
    elif kind == "arcs":
        j["program"] = gen.arc_program(rng)
        if small:
            j["program"] = j["program"][:rng.choice([20, 40, 70])]
    elif kind == "stretch":
        s = gen.slicer_program(rng) if rng.random() < 0.75 else gen.skeinforge_program(rng)
        j["program"] = s["lines"]
        if small:
            j["program"] = j["program"][:rng.choice([30, 60, 90])]
        j["format"] = s["kind"]
        j["strength"] = rng.choice([1.0, 0.5, 2.0])
    elif kind == "tempcal":
        j["program"] = gen.layered_program(rng, layers=rng.choice([4, 6]), height=rng.choice([0.2, 0.3]), per_layer=2)
        j["continuous"] = rng.random() < 0.5
        j["start"], j["end"] = rng.choice([(200, 230), (230, 190), (180, 240)])
        j["steps"] = rng.choice([2, 5, 10])
        j["min_z"] = rng.choice([0.1, 0.5])
    elif kind == "load":
        j["program"] = gen.free_program(rng, n=20) if rng.random() < 0.5 else gen.layered_program(rng, layers=4)
        j["light"] = rng.random() < 0.3
    elif kind == "feed":
        j["program"] = gen.free_program(rng, n=20)
        j["cut"] = rng.choice([0, 0, 3, 8])
        j["light"] = rng.random() < 0.3
    elif kind == "edit":
        j["program"] = gen.layered_program(rng, layers=3)
        j["edits"] = [[rng.choice(["prepend", "rewrite", "append"]), rng.randint(0, 3),
                       ["M117 %d" % rng.randint(0, 9) for _ in range(rng.randint(1, 3))]] for _ in range(rng.randint(1, 5))]
    else:
        j["program"] = gen.free_program(rng, n=10)
        j["other"] = list(j["program"])
        if rng.random() < 0.6 and j["other"]:
            i = rng.randrange(len(j["other"]))
            j["other"][i] = rng.choice(["G1 X1 Y2", "; c", "M1"])
    return j


STATE = ("imperial", "relative", "relative_e", "current_tool", "current_f", "current_x", "current_y", "current_z",
         "current_e", "offset_x", "offset_y", "offset_z", "offset_e", "total_e", "max_e")


def describe(g):
    out = []
    for name in STATE + ("filament_length", "xmin", "xmax", "ymin", "ymax", "zmin", "zmax", "duration", "layers_count"):
        out.append("%s=%s" % (name, getattr(g, name)))
    out.append("zs=%s" % sorted(g.all_zs, key=str))
    out.append("layers=%s" % [(len(l), l.z) for l in g.all_layers])
    out.append("idx=%s %s" % (list(g.layer_idxs), list(g.line_idxs)))
    return "\n".join(out)


def text(g):
    f = io.StringIO()
    g.write(f)
    return f.getvalue()


def run(lib, j, keep=None):
    """The complete observable result of a job, as text; keep collects programs which the host goes on to hold."""
    keep = [] if keep is None else keep
    kind = j["kind"]
    gcoder = lib.gcoder
    cls = gcoder.LightGCode if j.get("light") else gcoder.GCode
    if kind == "load":
        seen = []
        g = cls(j["program"], layer_callback=lambda gc, n: seen.append(n), line_callback=lambda l: seen.append(l.raw))
        keep.append(g)
        return describe(g) + "\n%r\n" % (seen,) + text(g)
    if kind == "feed":
        g = cls(j["program"][:j["cut"]])
        keep.append(g)
        out = []
        for line in j["program"][j["cut"]:]:
            g.append(line)
            out.append(repr((g.abs_pos, g.abs_e, g.current_f)))
        return "\n".join(out) + describe(g) + text(g)
    g = cls(j["program"])
    keep.append(g)
    if kind == "mod":
        if j["x"] is not None or j["y"] is not None:
            lib.translate.GCodeXYTranslateFilter(x=j["x"], y=j["y"]).filter(g)
        if j["e"]:
            lib.relative.GCodeToRelativeExtrusionFilter().filter(g)
        if j["p"] is not None:
            lib.iterator.GCodeIterator(g).accept(lib.pause.PauseAtLayer([j["p"]]))
        return text(g)
    if kind == "arcs":
        lib.arcs.GCodeArcOptimizerFilter().filter(g)
        return text(g)
    if kind == "stretch":
        lib.relative.GCodeToRelativeExtrusionFilter().filter(g)
        f = {"cura": "CuraStretchFilter", "slic3r": "Slic3rStretchFilter", "skeinforge": "SkeinforgeStretchFilter"}
        getattr(lib.stretch, f[j["format"]])(stretch_strength=j["strength"]).filter(g)
        return text(g)
    if kind == "tempcal":
        c = lib.tempcal.GCodeContinuousTempGradient if j["continuous"] else lib.tempcal.GCodeStepTempGradient
        out = io.StringIO()
        c(gcode=g, start_temp=j["start"], end_temp=j["end"], min_z_change=j["min_z"], steps=j["steps"]).write(out)
        return out.getvalue()
    if kind == "edit":
        out = []
        for op, where, lines in j["edits"]:
            try:
                if op == "append":
                    for line in lines:
                        g.append(line)
                elif op == "prepend":
                    g.prepend_to_layer(list(lines), where)
                else:
                    g.rewrite_layer(list(lines), where)
            except (IndexError, ValueError) as e:
                out.append(type(e).__name__)
        return "%r\n" % (out,) + describe(g) + "\n".join(l.raw for l in g.lines) + text(g)
    other = cls(j["other"])
    return "%r %r %s" % (g == other, other == g, g.diff(other))


def held(g):
    """What a program which the host holds says about itself."""
    return describe(g) + "\n" + "\n".join(l.raw for l in g.lines) + "\n" + text(g)


def outcome(lib, j, keep=None):
    """run(), with failures of the package as a part of the result."""
    try:
        return run(lib, j, keep)
    except (RuntimeError, ValueError, TypeError, AttributeError, IndexError, ZeroDivisionError, KeyError, NameError,
            UnboundLocalError, OverflowError) as e:
        return "error %s: %s" % (type(e).__name__, e)


_solo = {}


def solo(j):
    """Result of the job alone in a fresh copy of the package."""
    from . import loader
    import json
    key = json.dumps(j, sort_keys=True)
    if key not in _solo:
        if len(_solo) > 50:
            _solo.clear()
        _solo[key] = outcome(loader.Lib(), j)
    return _solo[key]
