# encoding: utf-8
"""Walks and load callbacks see every line exactly once in order."""
from .procs import setup
from .. import gen, loader, session, shrink as shr
from ..core import Outcome, digest

ID = "P11"
RUNS = {"quick": 25000, "thorough": 3000000}
RULE = ("a seeded program is loaded with callbacks and walked by visitors under a seeded script: visitors insert lines into "
        "finished layers, start inner walks, and visitors and callbacks fail at a seeded event; what was announced is "
        "compared with the program, and after a failure the program, the next walk and the next load have to be complete; "
        "non-trivial: a callback or visitor failed, inserted lines or walked again")
MEASURE = "distinct (program, script) sessions, by digest"
REAL = ["gcodeutils.gcoder", "gcodeutils.visit"]
STUB = []
ASSUMPTIONS = ["visitors insert lines only into layers which are finished; all layers but the last one of a load are completed"]


class Broken(Exception):
    pass


class BrokenBase(BaseException):
    pass


def generate(rng, tier):
    r = rng.random()
    if r < 0.03:
        prog = rng.choice([[], [], ["; c"]])
    elif r < 0.7:
        prog = gen.layered_program(rng)
    elif r < 0.75:
        prog = vase(rng)
    elif r < 0.9:
        prog = gen.free_program(rng)
    else:
        prog = gen.slicer_program(rng)["lines"][:150]
    prog = [s.strip() for s in prog]
    n = len(prog)

    def event():
        return rng.choice([rng.randint(0, 3 * n // 2 + 4), rng.randint(0, 10), 10 ** 6])
    sc = {"program": prog, "light": rng.random() < 0.15, "ops": []}
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(["walk", "walk", "walk", "load", "load", "pause", "append", "precise"])
        if k == "walk":
            op = {"op": "walk", "insert": [], "inner": None, "fail": None, "base": rng.random() < 0.3}
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                op["insert"].append([rng.choice([rng.randint(0, 8), rng.randint(0, n)]), rng.randint(0, 3),
                                     rng.randint(1, 3)])
            if rng.random() < 0.25:
                op["inner"] = event()
            if rng.random() < 0.4:
                op["fail"] = event()
        elif k == "load":
            op = {"op": "load", "fail_line": None, "fail_layer": None, "again": rng.random() < 0.5, "base": rng.random() < 0.3,
                  "reuse": rng.random() < 0.5}
            if rng.random() < 0.6:
                if rng.random() < 0.5:
                    op["fail_line"] = rng.randint(0, max(n - 1, 0))
                else:
                    op["fail_layer"] = rng.randint(0, 5)
        elif k == "pause":
            op = {"op": "pause", "layers": sorted(set(rng.randint(0, 4) for _ in range(rng.choice([1, 1, 2])))),
                  "fail": event() if rng.random() < 0.5 else None}
        elif k == "precise":
            op = {"op": "precise", "digits": rng.choice([0, 1, 3])}
        else:
            op = {"op": "append", "lines": [rng.choice(["M117 x", "G1 X1", "; c"]) for _ in range(rng.randint(1, 3))]}
        sc["ops"].append(op)
    return sc


def vase(rng):
    """Height rises with every move."""
    lines = ["G90", "M83", "G1 Z0.2"]
    z = 0.2
    for _ in range(rng.choice([10, 30, 60])):
        z += rng.choice([0.005, 0.01, 0.02, 0.003])
        lines.append("G1 X%.3f Y%.3f Z%.3f E0.02" % (rng.uniform(0, 50), rng.uniform(0, 50), z))
    for k in range(rng.choice([0, 3])):
        z += 0.2
        lines += ["G1 Z%.3f" % z, "G1 X1 Y%d E0.5" % k]
    return lines


def numbering(g, digits):
    """(is printed, number) of every layer, from what the object says about its layers."""
    zs = sorted(set(round(round(z, 6), digits) for z in g.all_zs if z is not None))
    res = []
    for i, layer in enumerate(g.all_layers):
        z = None if layer.z is None else round(round(layer.z, 6), digits)
        res.append((True, zs.index(z)) if z in zs else (False, i))
    return res


def make_visitor(lib, g, op, log, o, digits=2):
    class Visitor(lib.visitor.GCodeVisitor):
        def __init__(self):
            self.events = 0
            self.layer = None

        def tick(self, info):
            n = self.events
            self.events += 1
            if op.get("inner") == n:
                inner = []
                lib.iterator.GCodeIterator(g).accept(make_visitor(lib, g, {}, inner, o))
                bad = judge(g, inner, [[l.raw for l in layer] for layer in g.all_layers])
                if bad:
                    o.fail("inner walk", bad)
                o.probe("inner walks")
            if op.get("fail") == n:
                o.faults["visitor fails"] = o.faults.get("visitor fails", 0) + 1
                raise BrokenBase() if op.get("base") else Broken()

        def insert(self, layer_index, finished):
            for at, back, count in op.get("insert", ()):
                if at == layer_index:
                    target = max(0, layer_index - back) if finished else layer_index - 1 - back
                    if target >= 0 and len(g.all_layers[target]):
                        g.prepend_to_layer(["M117 inserted %d" % k for k in range(count)], target)
                        o.probe("insertions")

        def will_visit_layer(self, layer, info):
            log.append(("will", info.layer_index, info.line_number, info.layer_number, info.is_printed, layer is
                        g.all_layers[info.layer_index] and info.gcode is g))
            self.insert(info.layer_index, False)
            self.tick(info)

        def visit_line(self, line, info):
            log.append(("line", info.layer_index, info.line_number, info.layer_number, info.is_printed, line.raw))
            self.tick(info)

        def did_visit_layer(self, layer, info):
            log.append(("did", info.layer_index, info.line_number, info.layer_number, info.is_printed, layer is
                        g.all_layers[info.layer_index]))
            self.insert(info.layer_index, True)
            self.tick(info)
    return Visitor()


def judge(g, log, layers, digits=2, complete=True):
    """What is wrong about the announcements of a walk over the layers as they were when it began."""
    numbers = numbering(g, digits)
    want = []
    line = 0
    for i, layer in enumerate(layers):
        printed, number = numbers[i]
        want.append(("will", i, line, number, printed, True))
        for raw in layer:
            want.append(("line", i, line, number, printed, raw))
            line += 1
        want.append(("did", i, line - 1, number, printed, True))
    if not complete:
        want = want[:len(log)]
    for n, (a, b) in enumerate(zip(want, log)):
        if a != b:
            return "event %d is %r instead of %r" % (n, b, a)
    if len(want) != len(log):
        return "%d events instead of %d, the next one should be %r" % (
            len(log), len(want), want[len(log)] if len(log) < len(want) else "none")
    return None


def load(lib, sc, op, lines, o, g=None):
    """Loads with callbacks; returns (object, None or the failure, what is wrong)."""
    cls = lib.gcoder.LightGCode if sc["light"] else lib.gcoder.GCode
    seen, layers, bad = [], [], []
    if g is None:
        g = cls(deferred=True)

    def fail():
        o.faults["callback fails"] = o.faults.get("callback fails", 0) + 1
        raise BrokenBase() if op["base"] else Broken()

    def on_line(line):
        seen.append(line.raw)
        if op["fail_line"] == len(seen) - 1:
            fail()

    def on_layer(gc, index):
        if gc is not g or index != len(layers):
            bad.append("layer %r is announced as number %d" % (index, len(layers)))
        layers.append([l.raw for l in gc.all_layers[index]])
        if sum(len(l) for l in layers) != len(seen):
            bad.append("layer %d is announced after %d lines, but %d lines belong to the layers so far" % (
                index, len(seen), sum(len(l) for l in layers)))
        if op["fail_layer"] == index:
            fail()
    failed = None
    try:
        g.prepare(list(lines), layer_callback=on_layer, line_callback=on_line)
    except (Broken, BrokenBase) as e:
        failed = e
    stored = [s for s in lines if s]
    if bad:
        return g, failed, bad[0]
    if seen != stored[:len(seen)] or (failed is None and len(seen) != len(stored)):
        return g, failed, "the line callback got %d lines, others than the %d of the program" % (len(seen), len(stored))
    if failed is None:
        final = [[l.raw for l in layer] for layer in g.all_layers]
        if layers != final[:len(layers)]:
            return g, failed, "the layer callback got other layers than the program has"
        if stored and len(layers) not in (len(final) - 2, len(final) - 1):
            return g, failed, "%d layers were announced, the program has %d" % (len(layers), len(final) - 1)
        if [s for layer in final for s in layer] != stored:
            return g, failed, "the loaded program has other lines"
    return g, failed, None


def run(sc):
    o = Outcome()
    lib = loader.Lib()
    cls = lib.gcoder.LightGCode if sc["light"] else lib.gcoder.GCode
    g = cls(list(sc["program"]))
    special = 0
    for n, op in enumerate(sc["ops"]):
        o.steps += 1
        what = "operation %d (%s)" % (n, op["op"])
        layers = [[l.raw for l in layer] for layer in g.all_layers]
        if op["op"] in ("walk", "precise"):
            log = []
            v = make_visitor(lib, g, op, log, o)
            digits = op.get("digits", 2)
            failed = False
            try:
                it = lib.iterator.GCodeIterator(g, digits) if "digits" in op else lib.iterator.GCodeIterator(g)
                it.accept(v)
            except (Broken, BrokenBase):
                failed = True
                special += 1
            o.steps += len(log)
            special += bool(op.get("insert")) + (op.get("inner") is not None)
            bad = judge(g, log, layers, digits, not failed)
            if bad:
                o.fail("walk", "%s: %s" % (what, bad))
                return o
            if failed:
                # the next walk is complete, with a new iterator and with the same one
                for it2 in (it, lib.iterator.GCodeIterator(g, digits)):
                    log = []
                    it2.accept(make_visitor(lib, g, {}, log, o))
                    bad = judge(g, log, [[l.raw for l in layer] for layer in g.all_layers], digits)
                    if bad:
                        o.fail("walk", "%s: after a walk which failed: %s" % (what, bad))
                        return o
        elif op["op"] == "load":
            lines = list(sc["program"])
            g2, failed, bad = load(lib, sc, op, lines, o)
            if bad:
                o.fail("load", "%s: %s" % (what, bad))
                return o
            if failed is not None:
                special += 1
                plain = dict(op, fail_line=None, fail_layer=None)
                g3, failed, bad = load(lib, sc, plain, lines, o, g2 if op["reuse"] else None)
                if bad or failed is not None:
                    o.fail("load", "%s: after a load which failed: %s" % (what, bad))
                    return o
                fresh = cls(lines)
                if lines and (session.structure(g3) != session.structure(fresh) or session.state(g3) != session.state(fresh)
                              or g3.all_zs != fresh.all_zs):
                    a, b = session.structure(g3), session.structure(fresh)
                    o.fail("load", "%s: after a load which failed, the next one differs from a fresh one in %s" % (
                        what, [k for k in a if a[k] != b[k]] or "its state"))
                    return o
        elif op["op"] == "pause":
            bad = pause(lib, cls, sc, op, o)
            special += op["fail"] is not None
            if bad:
                o.fail("pause", "%s: %s" % (what, bad))
                return o
        else:
            for line in op["lines"]:
                g.append(line)
        bad = session.consistent(g)
        if bad:
            o.fail("damaged", "%s: %s" % (what, bad))
            return o
    o.nontrivial = special > 0
    o.sig = digest(sc)
    return o


def pause(lib, cls, sc, op, o):
    """A pausing visitor, whose walk fails in the middle, pauses the next program as if nothing had happened."""
    def pauses(visitor):
        g = lib.gcoder.GCode(list(sc["program"]))
        lib.iterator.GCodeIterator(g).accept(visitor)
        return session.text(g)
    want = pauses(lib.pause.PauseAtLayer(op["layers"]))
    v = lib.pause.PauseAtLayer(op["layers"])

    class Failing(lib.visitor.GCodeVisitor):
        n = 0

        def tick(self):
            self.n += 1
            if self.n - 1 == op["fail"]:
                o.faults["visitor fails"] = o.faults.get("visitor fails", 0) + 1
                raise Broken()

        def will_visit_layer(self, layer, info):
            v.will_visit_layer(layer, info)
            self.tick()

        def visit_line(self, line, info):
            v.visit_line(line, info)
            self.tick()

        def did_visit_layer(self, layer, info):
            v.did_visit_layer(layer, info)
            self.tick()
    try:
        pauses(Failing())
    except Broken:
        pass
    for k in range(2):
        got = pauses(v)
        if got != want:
            return "walk %d of a visitor which was interrupted once inserts %d pauses instead of %d" % (
                k, got.count("M226"), want.count("M226"))
    return None


def valid(sc):
    return True


def shrink(sc):
    if sc["light"]:
        yield dict(sc, light=False)
    for c in shr.drop_chunks(sc["ops"]):
        yield dict(sc, ops=c)
    for c in shr.drop_chunks(sc["program"]):
        yield dict(sc, program=c)
    for i, op in enumerate(sc["ops"]):
        for key in ("insert",):
            if op.get(key):
                for c in shr.drop_chunks(op[key]):
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, insert=c)] + sc["ops"][i + 1:])
        for key in ("inner", "fail", "fail_line", "fail_layer"):
            if op.get(key) is not None:
                yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{key: None})] + sc["ops"][i + 1:])
