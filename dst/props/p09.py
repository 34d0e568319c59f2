# encoding: utf-8
"""A rejected line leaves the program and its state unchanged."""
from .procs import setup
from .. import gen, loader, session, shrink as shr
from ..core import Outcome, digest
from ..printer import Printer
from .p08 import compare

ID = "P09"
RUNS = {"quick": 25000, "thorough": 3000000}
RULE = ("a seeded stream of lines, damaged ones mixed in (truncated, bits flipped, characters lost or doubled, noise of a "
        "serial line), is fed line by line, some stored and some only tracked, with edits and layers present; every call "
        "which fails must leave structure and state untouched, and the session must end like one which was never offered "
        "the refused lines; non-trivial: at least one line was refused and one accepted after it")
MEASURE = "distinct (stream, damage, stores) sessions, by digest"
REAL = ["gcodeutils.gcoder"]
STUB = []
ASSUMPTIONS = ["a refusal is any exception of the call; which damaged lines are refused is up to the package, except that "
               "a move or position with a coordinate which is no number, and a tool change without a number, "
               "cannot be executed and is refused"]

BAD = ["G1 X-", "G1 X. Y1", "G1 X1 Y-", "G1 X1 Y2 Z+", "G0 E.", "G92 E-", "G92 X1 Y.", "T", "T-", "T1.5", "T.", "G2 X1 I-", "G1 F-",
       "G1 X5 Y5 Z1 E+ F9", "N3 G1 X-", "T;", "G28 X-", "g1 x5 y.", "G1 Z- ; lift", "G3 I1 J.", "G1 X12 Y7 E1.2 F-", "T2.0",
       "G20 X-", "G21 F+", "G90 Z.", "G91 Y-", "g91 e-", "N7 G90 X+", "G20F-", "G28 Z."]
NOISE = ["\x00", "\xff\xfe", "%", "*", ";", "(", ")", "()", "-", ".", "+", "/", "G", "M", "X", "N", "N1", "N1 N2", "E1", "5", "\u0661",
         "*71", "G1*", "\t;", "ok", "Resend: 5", "echo:busy", "G1X", "G1 X1Y2Z3E4F5", "G1 X1 X-", "M1.5.5", "G-1", "G+1 X5", "T99999"]


def damage_line(rng, s):
    r = rng.random()
    if not s or r < 0.35:
        return rng.choice(BAD)
    if r < 0.45:
        return rng.choice(NOISE)
    if r < 0.6:
        return s[:rng.randint(0, len(s))]
    i = rng.randrange(len(s))
    if r < 0.7:
        return s[:i] + s[i + 1:]
    if r < 0.8:
        return s[:i] + chr(ord(s[i]) ^ (1 << rng.randrange(7))) + s[i + 1:]
    if r < 0.9:
        return s[:i] + rng.choice("-.+;()*TGXE ") + s[i + 1:]
    # the number of a parameter is lost, its sign or point arrives
    import re
    ms = list(re.finditer(r"[-+]?[0-9]*\.?[0-9]+", s))
    if not ms:
        return rng.choice(BAD)
    m = rng.choice(ms)
    return s[:m.start()] + rng.choice(["-", ".", "", "+", "-."]) + s[m.end():]


def generate(rng, tier):
    r = rng.random()
    if r < 0.7:
        prog = gen.free_program(rng, imperial=rng.random() < 0.3, linenos=rng.random() < 0.2, lower=rng.random() < 0.2)
    else:
        prog = gen.layered_program(rng, layers=rng.choice([1, 2, 3]))
    prog = [s.strip() for s in prog]
    cut = rng.choice([0, 0, rng.randint(0, len(prog))])
    rate = rng.choice([0.05, 0.2, 0.5])
    stream = []
    only_bad = rng.random() < 0.4
    for s in prog[cut:]:
        if rng.random() < rate:
            d = rng.choice(BAD) if only_bad else damage_line(rng, s)
            stream.append([d, rng.random() < 0.8, "damaged"])
            if rng.random() < 0.5:
                # sent again
                stream.append([s, True, ""])
        else:
            stream.append([s, rng.random() < 0.9, ""])
        if rng.random() < 0.03:
            stream.append([["M117 edit"], rng.randint(0, 4), "prepend"])
    return {"block": prog[:cut], "stream": stream, "light": rng.random() < 0.15}


def unexecutable(s):
    """Clearly impossible to execute, in any reading."""
    return s in BAD[:16]


def run(sc):
    o = Outcome()
    lib = loader.Lib()
    cls = lib.gcoder.LightGCode if sc["light"] else lib.gcoder.GCode
    g = cls(list(sc["block"]))
    twin = loader.Lib().gcoder
    twin = (twin.LightGCode if sc["light"] else twin.GCode)(list(sc["block"]))
    pr = Printer()
    clean = True                      # only lines whose meaning is beyond doubt were accepted
    for s in sc["block"]:
        pr.run(s)
    refused = after = 0
    for i, (s, arg, what) in enumerate(sc["stream"]):
        o.steps += 1
        if what == "prepend":
            for obj in (g, twin):
                try:
                    obj.prepend_to_layer(list(s), arg)
                except (ValueError, IndexError):
                    pass
            continue
        before = (session.structure(g), session.state(g))
        ids = [id(l) for l in g.lines]
        try:
            res = g.append(s, arg)
        except Exception as e:
            refused += 1
            o.probe("refused: %s" % type(e).__name__)
            if what != "damaged":
                o.fail("refusal", "line %d %r is refused: %s" % (i, s, e))
                return o
            now = (session.structure(g), session.state(g))
            if now != before or ids != [id(l) for l in g.lines]:
                names = [n for n in before[0] if before[0][n] != now[0][n]]
                names += ["%s %r -> %r" % (a[0], a[1], b[1]) for a, b in zip(before[1], now[1]) if a != b]
                o.fail("changed", "refusing line %d %r changed %s" % (i, s, ", ".join(names) or "stored lines"))
                return o
            continue
        if unexecutable(s):
            o.fail("accepted", "line %d %r is accepted" % (i, s))
            return o
        after += refused > 0
        try:
            twin.append(s, arg)
        except Exception as e:
            o.fail("history", "line %d %r is accepted after refused lines, but alone it is refused: %s" % (i, s, e))
            return o
        if what == "damaged":
            clean = False
            o.probe("damaged, but accepted")
        else:
            pr.run(s)
        if session.state(g) != session.state(twin):
            diff = [a for a, b in zip(session.state(g), session.state(twin)) if a != b]
            o.fail("history", "after line %d %r the state is not the one without the refused lines: %s" % (i, s, diff))
            return o
        if clean:
            bad = compare(g, pr)
            if bad:
                o.fail("history", "after line %d %r it reports %s" % (i, s, bad))
                return o
    a, b = session.structure(g), session.structure(twin)
    if a != b:
        o.fail("history", "the program differs in %s from the one without the refused lines" % ", ".join(
            n for n in a if a[n] != b[n]))
    bad = session.consistent(g)
    if bad:
        o.fail("history", bad)
    o.faults["refused line"] = refused
    o.nontrivial = refused >= 1 and after >= 1
    o.sig = digest(sc)
    return o


def valid(sc):
    return True


def shrink(sc):
    if sc["light"]:
        yield dict(sc, light=False)
    for c in shr.drop_chunks(sc["stream"]):
        yield dict(sc, stream=c)
    for c in shr.drop_chunks(sc["block"]):
        yield dict(sc, block=c)
