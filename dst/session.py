# encoding: utf-8
"""Host sessions: an application which keeps a program object, feeds it, edits it, walks over it, saves and reloads it."""
import io
import re

STATE = ("imperial", "relative", "relative_e", "current_tool", "current_f", "current_x", "current_y", "current_z",
         "current_e", "offset_x", "offset_y", "offset_z", "offset_e", "total_e", "max_e")
PLAIN = re.compile(r"([GMT][0-9]+)(?= [XYZEFSP][-0-9]|$)")


def state(g):
    return tuple((name, getattr(g, name)) for name in STATE)


def text(g):
    f = io.StringIO()
    g.write(f)
    return f.getvalue()


def raws(g):
    return [l.raw for l in g.lines]


def structure(g):
    """Everything the object says about its lines."""
    return {"lines": raws(g), "layers": [[l.raw for l in layer] for layer in g.all_layers],
            "zs": [layer.z for layer in g.all_layers], "layer_idxs": list(g.layer_idxs), "line_idxs": list(g.line_idxs),
            "append_layer_id": g.append_layer_id, "len": len(g), "text": text(g)}


def consistent(g):
    """What is wrong about the four views of the program, None when they agree."""
    lines = list(g.lines)
    if [id(l) for l in g] != [id(l) for l in lines]:
        return "iterating does not give the lines"
    flat = [l for layer in g.all_layers for l in layer]
    if [l.raw for l in flat] != [l.raw for l in lines]:
        for n, (a, b) in enumerate(zip(flat, lines)):
            if a.raw != b.raw:
                return "line %d is %r in the layers, but %r in the flat program" % (n, a.raw, b.raw)
        return "%d lines in the layers, but %d in the flat program" % (len(flat), len(lines))
    if not len(g) == len(g.layer_idxs) == len(g.line_idxs) == len(lines):
        return "%d lines, but %d/%d entries in the index" % (len(lines), len(g.layer_idxs), len(g.line_idxs))
    for i, l in enumerate(lines):
        a, b = g.idxs(i)
        if not (0 <= a < len(g.all_layers) and 0 <= b < len(g.all_layers[a])):
            return "line %d %r is indexed as line %d of layer %d, which does not exist" % (i, l.raw, b, a)
        if g.all_layers[a][b].raw != l.raw:
            return "line %d %r is indexed as line %d of layer %d, which is %r" % (i, l.raw, b, a, g.all_layers[a][b].raw)
    # lines with equal text hide mistakes: the index has to enumerate all lines in order
    want = [(a, b) for a, layer in enumerate(g.all_layers) for b in range(len(layer))]
    got = list(zip(g.layer_idxs, g.line_idxs))
    if want != got:
        n = next(n for n, (x, y) in enumerate(zip(want, got)) if x != y)
        return "line %d %r is indexed as line %d of layer %d instead of line %d of layer %d" % (
            n, lines[n].raw, got[n][1], got[n][0], want[n][1], want[n][0])
    if hasattr(g.line_class, "x"):    # light objects don't parse what they store
        for n, l in enumerate(lines):
            plain = PLAIN.match(l.raw)
            if plain and l.command != plain.group(1):
                return "line %d %r is taken for the command %r" % (n, l.raw, l.command)
    if text(g) != "".join(l.raw + "\n" for l in lines):
        return "the written text differs from the lines"
    return None
