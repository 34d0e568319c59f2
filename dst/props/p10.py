# encoding: utf-8
"""Any edit history keeps text, layers and line index consistent."""
from .procs import setup
from .. import gen, loader, session, shrink as shr
from ..core import Outcome, digest
from .p09 import BAD

ID = "P10"
RUNS = {"quick": 25000, "thorough": 3000000}
RULE = ("a seeded program and a seeded history of appended lines, prepended lines and rewritten layers, some of them "
        "refused (missing layers, emptied layers, unusable commands, damaged lines); after every step the flat program, "
        "the layers, the index and the written text are compared with plain lists edited the same way; non-trivial: at "
        "least 3 accepted edits, one of them not an append")
MEASURE = "distinct (program, edit history) sessions, by digest"
REAL = ["gcodeutils.gcoder"]
STUB = []
ASSUMPTIONS = ["an edit of an existing, non-empty layer with usable commands is accepted; edits of layers which do not exist "
               "or hold no line may be refused"]
LINES = ["M117 a", "M117 b", "G1 X1 Y1", "; note", "G1 X1 Y1", "M226", "G4 P1", "G92 E0", "  M117 blanks  ", "(c)", "M104 S200.5",
         "G1 Z5.5 ; up", "G0 X0.1", "", "   ", "; G1 X9", "T1", "m117 low", "%"]
REFUSED = [None, 5]


def generate(rng, tier):
    r = rng.random()
    if r < 0.75:
        prog = gen.layered_program(rng, layers=rng.choice([1, 2, 3, 5]), per_layer=rng.choice([None, 1, 2]))
    elif r < 0.82:
        prog = []
    elif r < 0.9:
        prog = gen.arc_program(rng)
    else:
        prog = gen.free_program(rng)
    prog = [s.strip() for s in prog]
    edits = []
    repeat = rng.randint(0, 6)
    light = rng.random() < 0.15
    for _ in range(rng.choice([1, 3, 6, 12, 25])):
        r = rng.random()
        if rng.random() < 0.06 and not light:
            edits.append(["filter", 0, [rng.choice(["translate", "relative", "arcs", "cura", "slic3r"])]])
            continue
        if r < 0.35:
            line = rng.choice(BAD) if rng.random() < 0.1 else rng.choice(LINES)
            edits.append(["append", 0, [line]])
            continue
        where = repeat if rng.random() < 0.4 else rng.randint(0, 9)
        if rng.random() < 0.05:
            where = rng.choice([-1, -2, 1000])
        if rng.random() < 0.2:
            where = "last"
        cmds = [rng.choice(LINES) for _ in range(rng.choice([0, 1, 1, 2, 3, 7]))]
        if rng.random() < 0.06:
            cmds.insert(rng.randint(0, len(cmds)), rng.choice(REFUSED))
        edits.append(["prepend" if rng.random() < 0.6 else "rewrite", where, cmds])
    return {"program": prog, "edits": edits, "light": light}


def apply(lib, g, name):
    if name == "translate":
        lib.translate.GCodeXYTranslateFilter(x=1.5, y=-2).filter(g)
    elif name == "relative":
        lib.relative.GCodeToRelativeExtrusionFilter().filter(g)
    elif name == "arcs":
        lib.arcs.GCodeArcOptimizerFilter().filter(g)
    elif name == "cura":
        lib.stretch.CuraStretchFilter().filter(g)
    else:
        lib.stretch.Slic3rStretchFilter().filter(g)


def run(sc):
    o = Outcome()
    lib = loader.Lib()
    cls = lib.gcoder.LightGCode if sc["light"] else lib.gcoder.GCode
    g = cls(list(sc["program"]))
    model = [[l.raw for l in layer] for layer in g.all_layers]
    start = [s for s in sc["program"] if s]
    if [s for layer in model for s in layer] != start or model[-1]:
        o.fail("load", "the layers don't hold the program")
        return o
    accepted = others = 0
    for n, (op, where, cmds) in enumerate(sc["edits"]):
        o.steps += 1
        if where == "last":
            where = len(model) - 1
        if op == "filter":
            apply(lib, g, cmds[0])
            model = [[l.raw for l in layer] for layer in g.all_layers]
            bad = session.consistent(g)
            if bad:
                o.fail("inconsistent", "edit %d: filter %s: %s" % (n, cmds[0], bad))
                return o
            o.probe("filtered")
            continue
        usable = all(isinstance(c, str) for c in cmds)
        clean = [c.strip() for c in cmds if c.strip()] if usable else None
        given = list(cmds)
        step = "edit %d: %s %r %s" % (n, op, cmds, "" if op == "append" else "layer %d" % where)
        must = usable and (cmds[0] not in BAD if op == "append" else 0 <= where < len(model) and bool(model[where]))
        try:
            if op == "append":
                g.append(given[0])
            elif op == "prepend":
                g.prepend_to_layer(given, where)
            else:
                g.rewrite_layer(given, where)
            ok = True
        except Exception as e:
            ok = False
            o.probe("refused: %s" % type(e).__name__)
            o.faults["refused edit"] = o.faults.get("refused edit", 0) + 1
            if must:
                o.fail("refused", "%s is refused: %s %s" % (step, type(e).__name__, e))
                return o
        if ok:
            if not usable:
                o.fail("accepted", "%s is accepted" % step)
                return o
            if given != list(cmds):
                o.fail("argument", "%s changed the list it was given" % step)
                return o
            accepted += 1
            if op == "append":
                model[-1] += clean
            elif not -len(model) <= where < len(model):
                o.fail("accepted", "%s is accepted, but there is no such layer" % step)
                return o
            elif op == "prepend":
                others += 1
                model[where][0:0] = clean
            else:
                others += 1
                model[where] = clean
        got = [[l.raw for l in layer] for layer in g.all_layers]
        if got != model:
            if len(got) != len(model):
                o.fail("model", "%s: there are %d layers instead of %d" % (step, len(got), len(model)))
                return o
            k = next(k for k in range(len(model)) if got[k] != model[k])
            o.fail("model", "%s: layer %d is %r instead of %r" % (step, k, got[k][:6], model[k][:6]))
            return o
        bad = session.consistent(g)
        if bad:
            o.fail("inconsistent", "%s: %s" % (step, bad))
            return o
    # a program saved and loaded again is the same text
    lib2 = loader.Lib()
    again = lib2.gcoder.GCode(session.text(g).split("\n"))
    if session.raws(again) != [s for layer in model for s in layer]:
        o.fail("saved", "the edited program has other lines after saving and loading it")
    o.nontrivial = accepted >= 3 and others >= 1
    o.sig = digest(sc)
    return o


def valid(sc):
    return True


def shrink(sc):
    if sc["light"]:
        yield dict(sc, light=False)
    for c in shr.drop_chunks(sc["edits"]):
        yield dict(sc, edits=c)
    for c in shr.drop_chunks(sc["program"]):
        yield dict(sc, program=c)
    for i, (op, where, cmds) in enumerate(sc["edits"]):
        if op != "append":
            for c in shr.drop_chunks(cmds):
                yield dict(sc, edits=sc["edits"][:i] + [[op, where, c]] + sc["edits"][i + 1:])
