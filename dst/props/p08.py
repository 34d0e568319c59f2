# encoding: utf-8
"""Feeding lines one at a time tracks the machine exactly."""
import io

from .procs import setup
from .. import core, gen, loader, session, shrink as shr, simos
from ..core import Outcome, digest
from ..printer import Cmd, Printer

ID = "P08"
RUNS = {"quick": 30000, "thorough": 3000000}
RULE = ("a seeded program is cut into an initial load, single-line feeds (stored or only tracked) and save-and-reload "
        "restarts; in disk mode saves go through the simulated disk, the host is killed or loses power at a system "
        "call, and the session goes on from what survived; after every line the object is compared with a reference "
        "printer; non-trivial: at least 3 lines which change the state were fed one at a time")
MEASURE = "distinct (program, cuts, stores, reloads, faults) sessions, by digest"
REAL = ["gcodeutils.gcoder", "gcodeutils.output (disk mode)", "CPython's io stack (disk mode)"]
STUB = ["disk mode: system calls, file system, power"]
ASSUMPTIONS = ["printer conventions of gcoder.py: G90/G91 select positioning and extrusion mode, G92 shifts logical "
               "coordinates, a bare G92 zeroes all of them, G28 homes; no F, tool or mode survives a restart except through the saved lines"]


def program(rng):
    r = rng.random()
    if r < 0.75:
        return gen.free_program(rng, imperial=rng.random() < 0.3, linenos=rng.random() < 0.2, lower=rng.random() < 0.3)
    prog = gen.layered_program(rng, layers=rng.choice([1, 2, 3]))
    return gen.to_inches(prog) if rng.random() < 0.2 else prog


def generate(rng, tier):
    prog = [s.strip() for s in program(rng)]
    n = len(prog)
    sc = {"program": prog, "cut": rng.choice([0, 0, 1, rng.randint(0, n), n]), "light": rng.random() < 0.2,
          "deferred": rng.random() < 0.2, "home": rng.choice([None, None, None, [10.0, 20.0, 5.0], [0.0, 100.0, 0.0]]),
          "unstored": [], "reloads": [], "mode": "memory", "faults": []}
    p = rng.choice([0.0, 0.0, 0.2, 1.0])
    sc["unstored"] = [i for i in range(n) if rng.random() < p]
    p = rng.choice([0.0, 0.0, 0.05, 0.3])
    sc["reloads"] = [i for i in range(n) if rng.random() < p]
    if rng.random() < 0.12:
        sc["mode"] = "disk"
        sc["light"] = False
        sc["saves"] = sorted(set(rng.randint(0, n) for _ in range(rng.choice([1, 2, 4]))))
        sc["reloads"] = []
        total = len(run_disk(sc, Outcome())[1])
        if total:
            sc["faults"] = [{"at": rng.randint(0, total), "kind": rng.choice(["kill", "power"]), "p": 0,
                             "when": rng.choice(["before", "after"])}]
            if sc["faults"][0]["kind"] == "power":
                sc["faults"][0].update(meta=rng.choice([None, 0, 1, 2, 3]), mode=rng.choice(["none", "prefix", "subset"]),
                                       seed=rng.randint(0, 10 ** 6))
    return sc


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def compare(g, p, line=None):
    """What the object reports wrongly, None when it agrees with the printer."""
    x, y, z, e = p.logical()
    pairs = [("position", g.abs_pos, (x, y, z)), ("position from the origin", g.current_pos, (p.x, p.y, p.z)),
             ("offset", (g.offset_x, g.offset_y, g.offset_z), (p.ox, p.oy, p.oz)),
             ("extruder", (g.abs_e, g.current_e), (e, p.e)), ("total extrusion", (g.total_e,), (p.e,)), ("feed rate", (g.current_f,), (p.f,))]
    if line is not None and Cmd(line.raw).name in ("G0", "G1", "G2", "G3", "G28", "G92", "G90", "G91", "G20", "G21", "G4"):
        pairs += [("line position", (line.current_x, line.current_y, line.current_z), (p.x, p.y, p.z)),
                  ("line feed rate and extruder", (line.current_f, line.current_e), (p.f, p.e))]
    for name, got, want in pairs:
        if any(a is None or not near(a, b) for a, b in zip(got, want)):
            return "%s %s instead of %s" % (name, tuple(got), tuple(want))
    if line is not None and Cmd(line.raw).name in ("G0", "G1", "G2", "G3") and line.current_tool != p.tool:
        return "line tool %r instead of %r" % (line.current_tool, p.tool)
    for name, got, want in (("positioning mode", g.relative, p.rel), ("extrusion mode", g.relative_e, p.rel_e),
                            ("unit", g.imperial, p.inch), ("tool", g.current_tool, p.tool)):
        if bool(got) != bool(want) if isinstance(want, bool) else got != want:
            return "%s %r instead of %r" % (name, got, want)
    return None


def make(lib, sc, lines):
    cls = lib.gcoder.LightGCode if sc["light"] else lib.gcoder.GCode
    home = tuple(sc["home"]) if sc["home"] else None
    if sc["deferred"]:
        g = cls(deferred=True)
        g.prepare(lines, home)
        return g
    return cls(lines, home)


def load(lib, sc, lines, o, what):
    """A new object with the lines, and the printer which executed them."""
    g = make(lib, sc, lines)
    p = Printer(tuple(sc["home"]) if sc["home"] else None)
    stored = [s for s in lines if s]
    for i, s in enumerate(stored):
        p.run(s)
        if not sc["light"] and i < len(g.lines):
            l = g.lines[i]
            if Cmd(s).name in ("G0", "G1", "G2", "G3", "G28", "G92") and not (
                    near(l.current_x, p.x) and near(l.current_y, p.y) and near(l.current_z, p.z) and
                    near(l.current_f, p.f) and near(l.current_e, p.e)):
                o.fail("load", "%s: line %d %r of the block is at %s with feed rate %s, not at %s with %s" % (
                    what, i, s, (l.current_x, l.current_y, l.current_z, l.current_e), l.current_f,
                    (p.x, p.y, p.z, p.e), p.f))
                return g, p, stored
    bad = compare(g, p)
    if bad:
        o.fail("load", "%s: after the block of %d lines it reports %s" % (what, len(stored), bad))
    return g, p, stored


def run_memory(sc, o):
    lib = loader.Lib()
    prog = sc["program"]
    g, p, stored = load(lib, sc, prog[:sc["cut"]], o, "initial load")
    unstored = set(sc["unstored"])
    fed = 0
    for i in range(sc["cut"], len(prog)):
        if o.violations:
            return
        s = prog[i]
        if i in sc["reloads"]:
            lines = session.text(g).split("\n")
            if [l for l in lines if l] != stored:
                o.fail("save", "the saved program has other lines than were stored")
                return
            g, p, stored = load(lib, sc, lines[:-1], o, "reload before line %d" % i)
            o.probe("reloads")
        before = p.state()
        store = i not in unstored
        line = g.append(s) if store and i % 2 else g.append(s, store)
        p.run(s)
        if store and s:
            stored.append(s)
        fed += p.state() != before
        o.steps += 1
        bad = compare(g, p, None if sc["light"] else line)
        if bad:
            o.fail("feed", "after line %d %r it reports %s" % (i, s, bad))
            return
        if store is False:
            o.probe("only tracked")
    if session.raws(g) != stored:
        o.fail("stored", "stored lines differ from those fed with store: %d instead of %d" % (len(g.lines), len(stored)))
    bad = session.consistent(g)
    if bad:
        o.fail("stored", bad)
    o.nontrivial = fed >= 3


def run_disk(sc, o):
    """Saves through the simulated disk; after a crash the session goes on from what survived."""
    k = simos.Kernel(faults=sc["faults"], max_steps=400000)
    path = "/work/job.gcode"
    prog = sc["program"]
    marks = {"fed": 0, "saved": [], "saving": None}

    def host():
        from gcodeutils import output
        from gcodeutils.gcoder import GCode
        g = GCode(prog[:sc["cut"]], tuple(sc["home"]) if sc["home"] else None)
        marks["fed"] = sc["cut"]
        for i in range(sc["cut"], len(prog) + 1):
            if i in sc["saves"]:
                marks["saving"] = i
                output.write_program(path, g.write)
                marks["saved"].append(i)
            if i < len(prog):
                g.append(prog[i])
                marks["fed"] = i + 1
    p = simos.Proc(k, 0, ["host"], {})
    p.fds[0] = simos.OpenFile(k.disk.names["/dev/null"])
    for fd in (1, 2):
        p.fds[fd] = simos.OpenFile(sink=bytearray(), readable=False, writable=True)
    k.procs = [p]
    simos.run_single(k, p, host)
    o.absorb(k)
    crashed = any(f in k.fired for f in ("kill", "power"))
    if not crashed and p.status not in (0, None):
        o.fail("save", "saving failed without a reason: %s %s" % (p.status, p.error))
    snap = k.disk.snapshot().get(path)
    # what survived is one of the saved states
    lib = loader.Lib()
    allowed = {}
    possible = list(marks["saved"]) + [marks["saving"]] if crashed else marks["saved"][-1:]
    if "power" in k.fired:
        possible.append(None)
    elif crashed:
        possible = marks["saved"][-1:] + [marks["saving"]]
        if not marks["saved"]:
            possible.append(None)
    if not possible:
        possible = [None]
    for n in possible:
        content = None if n is None else "".join(s + "\n" for s in prog[:n] if s).encode("utf-8", "surrogateescape")
        allowed[content] = n
    data = snap[0] if snap else None
    if data not in allowed:
        o.fail("crash", "after the crash the saved program is none of the saved states %s" % (possible,))
        return k.fired, k.log
    at = allowed[data]
    lines = data.decode("utf-8", "surrogateescape").split("\n") if data is not None else []
    start = at or 0
    g, pr, stored = load(lib, sc, lines, o, "load after the crash")
    fed = 0
    for i in range(start, len(prog)):
        if o.violations:
            break
        before = pr.state()
        line = g.append(prog[i])
        pr.run(prog[i])
        fed += pr.state() != before
        o.steps += 1
        bad = compare(g, pr, line)
        if bad:
            o.fail("feed", "resumed at line %d, after line %d %r it reports %s" % (start, i, prog[i], bad))
    if not o.violations and session.raws(g) != [s for s in prog if s]:
        o.fail("stored", "the resumed session does not hold the program")
    o.probe("resumed after a crash" if crashed else "resumed")
    o.nontrivial = crashed and fed >= 1
    return k.fired, k.log


def run(sc):
    o = Outcome()
    if sc["mode"] == "disk":
        run_disk(sc, o)
    else:
        run_memory(sc, o)
    o.probe("mode " + sc["mode"])
    o.sig = digest(sc)
    return o


def valid(sc):
    return True


def shrink(sc):
    if sc["faults"]:
        yield dict(sc, faults=[])
    for key, v in (("unstored", []), ("reloads", []), ("light", False), ("deferred", False), ("home", None)):
        if sc[key] != v:
            yield dict(sc, **{key: v})
    for key in ("unstored", "reloads"):
        for c in shr.drop_chunks(sc[key]):
            yield dict(sc, **{key: c})
    n = len(sc["program"])
    size = max(n // 2, 1)
    while size >= 1:
        for a in range(0, n, size):
            b = min(a + size, n)

            def move(i):
                return i if i <= a else max(a, i - (b - a))
            c = dict(sc, program=sc["program"][:a] + sc["program"][b:], cut=move(sc["cut"]),
                     unstored=[move(i) for i in sc["unstored"] if not a <= i < b],
                     reloads=[move(i) for i in sc["reloads"] if not a <= i < b])
            if "saves" in sc:
                c["saves"] = sorted(set(move(i) for i in sc["saves"]))
            yield c
        if size == 1:
            break
        size //= 2
