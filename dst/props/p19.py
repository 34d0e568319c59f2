# encoding: utf-8
"""Damaged input never hangs a tool."""
from . import procs
from .procs import ASSUMPTIONS, REAL, STUB, setup
from .. import gen, procsim, shrink as shr
from ..core import Outcome, digest

ID = "P19"
RUNS = {"quick": 6000, "thorough": 600000}
RULE = ("the bytes of a seeded program are damaged (torn, lines lost, doubled, swapped, moved, bytes flipped or replaced) "
        "and given to a tool through a seeded transport, some with faults; every executed source line of the package "
        "counts; non-trivial: the damaged program differs from the valid one")
MEASURE = "distinct (tool, damage kinds, how the run ended, order of magnitude of lines executed) combinations"
GARBAGE = [b"\x00", b"\xff", b"\n", b"\r", b";", b"(", b")", b"E", b"G", b"M", b"T", b"T-1", b"-", b".", b"9", b"e", b"X", b"\t",
           b"\xc3", b"*", b"/", b"G1 ", b"TYPE:", b"stretch-loop-start", b"stretch-loop-stop", b"; perimeter",
           b";TYPE:WALL-OUTER\n", b";TYPE:SKIN\n", b"stretch-extrusion-off", b"stretch-extrusion-on", b"G92\n", b"G91\n",
           b"G28\n", b"99999999999999999999", b"Z", b"I", b"J", b"N", b"; move to first perimeter point", b"G2", b"G3"]
LONG = [b"(", b"((", b" (a", b")", b"a", b"1", b".", b"-", b" ", b"\t", b";", b"X", b" X1", b"G1", b" A", b"*", b"/", b"()", b"( )", b"E-",
        b"\xc3\xa9", b"1.1", b"A1", b"N1 ", b":", b";TYPE:", b"_TYPE"]


def damage(rng, data):
    kinds = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        kind = rng.choice(["tear", "drop", "double", "swap", "move", "flip", "insert", "replace", "cut", "reverse", "head", "swell"])
        kinds.append(kind)
        if not data:
            break
        if kind == "tear":
            data = data[:rng.randint(0, len(data))]
            continue
        if kind == "head":
            data = data[rng.randint(0, len(data)):]
            continue
        if kind == "flip":
            b = bytearray(data)
            for _ in range(rng.choice([1, 1, 4, 20])):
                i = rng.randrange(len(b))
                b[i] ^= 1 << rng.randrange(8)
            data = bytes(b)
            continue
        if kind == "insert":
            i = rng.randint(0, len(data))
            data = data[:i] + rng.choice(GARBAGE) + data[i:]
            continue
        if kind == "replace":
            i = rng.randint(0, len(data))
            g = rng.choice(GARBAGE)
            data = data[:i] + g + data[i + len(g):]
            continue
        if kind == "cut":
            i = rng.randint(0, len(data))
            data = data[:i] + data[i + rng.choice([1, 2, 5, 20, 100]):]
            continue
        lines = data.split(b"\n")
        i = rng.randrange(len(lines))
        if kind == "swell":
            # words, numbers and comments of any length
            for _ in range(rng.choice([1, 1, 3])):
                i = rng.randrange(len(lines))
                piece = rng.choice([b"", b" ", b" (", b" ;"]) + rng.choice(LONG) * rng.choice([20, 40, 100, 400, 2000])
                piece += rng.choice([b"", b")", b"!", b" X1", b"("])
                where = rng.choice([len(lines[i]), len(lines[i]), 0, rng.randint(0, len(lines[i]))])
                lines[i] = lines[i][:where] + piece + lines[i][where:]
            data = b"\n".join(lines)
            continue
        k = rng.choice([1, 1, 1, 3, 10])
        if kind == "drop":
            del lines[i:i + k]
        elif kind == "double":
            lines[i:i] = lines[i:i + k]
        elif kind == "swap":
            j = rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif kind == "reverse":
            lines[i:i + k] = reversed(lines[i:i + k])
        else:
            part = lines[i:i + k]
            del lines[i:i + k]
            j = rng.randint(0, len(lines))
            lines[j:j] = part
        data = b"\n".join(lines)
    return data, sorted(set(kinds))


def budget(data):
    """Source lines a run may execute, quadratic in the length of the input."""
    n = data.count("\n") + data.count("\r") + 2
    return 30000 + 2000 * n + 15 * n * n


def generate(rng, tier):
    j = procsim.job(rng)
    if rng.random() < 0.3:
        s = gen.slicer_program(rng)
        j["program"] = s["lines"]
    elif rng.random() < 0.06:
        j.update(tool="skeinforge_host", args=[], positional=[], program=gen.skeinforge_program(rng)["lines"],
                 extra={"stretch_strength": rng.choice([1.0, 0.5, 3.0])})
    if rng.random() < 0.04:
        j["program"] = j["program"] * rng.choice([3, 6, 10])
    valid = procsim.encode(j["program"])
    data, kinds = damage(rng, valid)
    j["data"] = data.decode("latin-1")
    j["program"] = []
    j["damage"] = kinds
    j["differs"] = data != valid
    j.update(procsim.transport(rng, j))
    j["faults"], j["trace"] = [], {}
    if rng.random() < 0.15:
        j["faults"] = procsim.place_faults(rng, procs.dry(j).calls)
    return j


def run(sc):
    o = Outcome()
    limit = budget(sc["data"])
    r = procsim.execute(sc, line_limit=limit)
    o.absorb(r.kernel)
    o.trace = procs.trace_of(r)
    lines = r.proc.lines
    o.sig = digest([sc["tool"], sc["damage"], str(r.status), (r.error or "").split(":")[0], lines.bit_length()])
    o.nontrivial = sc["differs"]
    o.probe("ended: %s" % (r.status if r.status in (0, "hang", "abort", 137) else "error"))
    use = lines * 100 // limit
    o.probe("budget used: %s" % ("over 50%" if use > 50 else "over 25%" if use > 25 else "over 10%" if use > 10 else "up to 10%"))
    if r.status in ("hang", "abort"):
        o.fail("hang", "%s does not end on a damaged program of %d lines: %s" % (
            sc["tool"], sc["data"].count("\n"), r.error))
    return o


def valid(sc):
    return True


def shrink(sc):
    if sc.get("faults"):
        yield dict(sc, faults=[])
    for key, v in (("io", {}), ("src", "file"), ("dst", "new"), ("args", ["-q"])):
        if sc.get(key) != v and not sc["tool"].endswith(("plugin", "host")):
            yield dict(sc, **{key: v})
    lines = sc["data"].split("\n")
    for c in shr.drop_chunks(lines):
        yield dict(sc, data="\n".join(c))
