# encoding: utf-8
"""A report about a program describes the moves a printer would execute."""
import math
import re

from . import procs
from .procs import ASSUMPTIONS, REAL, STUB, setup
from .. import gen, loader, oracles, procsim, session, sharesim, shrink as shr
from ..core import Outcome, digest
from ..printer import Cmd, Printer

ID = "P21"
RUNS = {"quick": 16000, "thorough": 900000}
RULE = ("the report tool reads a seeded program under fragmentation and faults, or while other tools rewrite the file, "
        "scheduled call by call; or a host loads the program at once, deferred, as light program, after a failed callback, "
        "and after saving and reloading; box, filament, height, layers and duration are compared with what a reference "
        "printer does; non-trivial: a report was judged or a fault fired")
MEASURE = "distinct (program, faults or process switches, exit statuses) executions"
ASSUMPTIONS = ASSUMPTIONS + [
    "durations are judged by the time at the commanded feed rates, give or take one acceleration at 2000 mm/s2 per move; the "
    "programs contain no arcs", "layers and heights are judged for programs written by slicers or in their way, not for random ones"]
A, B = "/work/a.gcode", "/work/b.gcode"
ACCELERATION = 2000.0
DURATION = re.compile(r"^(?:(\d+) days?, )?(\d+):(\d\d):(\d\d)$")
NUMBER = r"(-?[0-9]+\.[0-9]{2})"
REPORT = re.compile(r"\A(?:.*\n)*?Dimensions:\n\tX: %s - %s \(%s\)\n\tY: %s - %s \(%s\)\n\tZ: %s - %s \(%s\)\nFilament used: %smm\n"
                    r"Number of layers: ([0-9]+)\nEstimated duration: (.*)\n\Z" % ((NUMBER,) * 10))


# -- programs -----------------------------------------------------------
def program(rng, plain=False):
    r = rng.random()
    if not plain and r < 0.3:
        return gen.free_program(rng, arcs=False, imperial=rng.random() < 0.3, linenos=rng.random() < 0.2,
                                lower=rng.random() < 0.2)
    if r < 0.75:
        lines = gen.layered_program(rng, **({"layers": rng.choice([2, 4]), "per_layer": 2} if plain else {}))
    else:
        lines = gen.slicer_program(rng, kind="cura" if plain else None)["lines"]
    if rng.random() < 0.35:
        lines = list(lines)
        for _ in range(rng.choice([1, 1, 3])):
            # waiting, sometimes much longer than moving
            lines.insert(rng.randint(0, len(lines)), "G4 P%d" % rng.choice([1, 250, 999, 5000, 60000, 3600000, 90000000]))
    if not plain and rng.random() < 0.08:
        lines = gen.to_inches(lines)
    return lines


# -- oracle -------------------------------------------------------------
class Figures(object):
    """What may be reported, as intervals."""

    def __init__(self, lines, layered):
        p = Printer()
        total = best = 0.0
        strict, loose, ends = [], [], []
        lo = hi = last = 0.0
        doubt = level = False
        for line in lines:
            c = Cmd(line)
            a = (p.x, p.y, p.z)
            m = p.execute(c)
            if c.name == "G4":
                lo += c.args.get("P", 0.0) / 1000.0
                hi += c.args.get("P", 0.0) / 1000.0
            if not m:
                continue
            b = m["to"]
            total += m["de"]
            best = max(best, total)
            if m["de"] > 1e-7:
                strict += [a, b]
            if m["de"] > -1e-7 and m["has_e"]:
                loose += [a, b]           # to feed nothing or next to nothing is a matter of rounding
                doubt = doubt or m["de"] < 1e-7
                level = level or abs(total) < 1e-7
            ends.append(b)
            f = p.f / 60.0
            if f > 0:
                flat = math.hypot(b[0] - a[0], b[1] - a[1])
                rise = abs(b[2] - a[2])
                top = max(f, last)
                change = top * top / ACCELERATION
                short = flat if flat > 1e-9 else rise if "Z" in c.args else abs(m["de"])
                long = max(math.hypot(flat, rise), abs(m["de"]) if short < 1e-6 or flat < 1e-6 else 0.0)
                lo += max(short / top, (short - change) / f)
                hi += (long + min(long, change)) / f
            last = f
        self.filament = (best - 1e-4, best + 1e-4)
        self.duration = (lo, hi)
        if best > 1e-4:
            self.boxes = [strict, loose]
        elif best > 1e-9 or level:
            self.boxes = None             # whether anything is extruded is a matter of rounding
        else:
            self.boxes = [ends, ends]
        self.zs = None
        if layered and not doubt:
            hs = oracles.heights(lines)
            self.zs = oracles.printed_heights(hs)
            exact = sorted(set(z for z, _, printed in hs if printed))
            if any(1e-3 < b - a < 0.045 for a, b in zip(exact, exact[1:])):
                self.zs = None

    def box(self, axis):
        """((least low, greatest low), (least high, greatest high))"""
        if self.boxes is None:
            return None
        out = []
        for pick in (min, max):
            values = [pick(q[axis] for q in points) if points else 0.0 for points in self.boxes]
            out.append((min(values), max(values)))
        if self.boxes[0] == [] and self.boxes[1]:
            return None
        return out


def judge(fig, got, eps, o, what):
    """got: {"x": (min, max, width), "y": ..., "z": ..., "filament":, "layers":, "seconds":}"""
    for axis in "xyz":
        low, high, size = got[axis]
        if abs(high - low - size) > 3 * eps:
            o.fail("box", "%s: from %s to %s, but the size is %s" % (what, low, high, size))
            return
    for n, axis in enumerate("xy"):
        want = fig.box(n)
        for value, (a, b) in zip(got[axis][:2], want or ()):
            if not a - eps <= value <= b + eps:
                o.fail("box", "%s: extents %s of %s instead of %.5f to %.5f" % (
                    what, got[axis][:2], axis, want[0][0], want[1][1]))
                return
    if not fig.filament[0] - eps <= got["filament"] <= fig.filament[1] + eps:
        o.fail("filament", "%s: %s of filament instead of %.5f" % (what, got["filament"], fig.filament[1]))
        return
    if not math.floor(fig.duration[0] - 1e-3) <= got["seconds"] <= fig.duration[1] + 1e-3:
        o.fail("duration", "%s: estimated as %d s, but it takes between %.2f and %.2f s" % ((what, got["seconds"]) + fig.duration))
        return
    if fig.zs is not None:
        o.probe("layers judged")
        top = max(fig.zs + [0.0])
        if got["layers"] != len(fig.zs):
            o.fail("layers", "%s: %d layers instead of %d (%s)" % (what, got["layers"], len(fig.zs), fig.zs[:8]))
        elif abs(got["z"][1] - top) > 0.0051 + eps or abs(got["z"][0]) > eps:
            if not fig.zs or min(fig.zs) >= 0:
                o.fail("layers", "%s: heights from %s to %s instead of 0 to %s" % (what, got["z"][0], got["z"][1], top))


def seconds(text):
    m = DURATION.match(text)
    if not m:
        return None
    days, h, mi, s = (int(x or 0) for x in m.groups())
    return ((days * 24 + h) * 60 + mi) * 60 + s


def parse(text):
    """Figures of a complete report, None for anything else."""
    m = REPORT.match(text)
    if not m or seconds(m.group(12)) is None:
        return None
    v = [float(x) for x in m.groups()[:10]]
    return {"x": tuple(v[0:3]), "y": tuple(v[3:6]), "z": tuple(v[6:9]), "filament": v[9], "layers": int(m.group(11)),
            "seconds": seconds(m.group(12))}


def of(g):
    return {"x": (g.xmin, g.xmax, g.width), "y": (g.ymin, g.ymax, g.depth), "z": (g.zmin, g.zmax, g.height),
            "filament": g.filament_length, "layers": g.layers_count, "seconds": g.duration.total_seconds()}


# -- scenarios ----------------------------------------------------------
def generate(rng, tier):
    r = rng.random()
    if r < 0.45:
        return generate_report(rng)
    if r < 0.6:
        return generate_shared(rng)
    prog = program(rng)
    return {"form": "library", "program": prog, "layered": structured(prog), "faults": [],
            "fail_at": rng.randint(0, len(prog)) if rng.random() < 0.3 else None}


def structured(prog):
    """Whether the program is a printed object in millimetres with absolute heights given by its moves."""
    p = Printer()
    for s in prog:
        c = Cmd(s)
        if c.name == "G20" or c.name in ("G92", "G28") and ("Z" in c.letters or c.name == "G92" and not set("XYZE") & set(c.args)):
            return False
        if c.name == "G28" and p.z:
            return False
        m = p.execute(c)
        if m and p.z < -1e-9:
            return False
    return True


def generate_report(rng):
    prog = program(rng)
    j = {"form": "report", "tool": "gcoder", "args": [], "extra": {}, "program": prog, "layered": structured(prog)}
    t = procsim.transport(rng, j)
    for n in ("link", "dash_i", "dst", "src"):
        t.pop(n, None)
    j.update(t)
    j["src"], j["dst"] = "file", rng.choice(["pipe", "pipe", "redirect"])
    if rng.random() < 0.12:
        j["linked"] = rng.choice(procsim.LINKS)
    j["eol"] = rng.choice(["\n", "\n", "\n", "\r\n"])
    if rng.random() < 0.06:
        j["devfull"] = True
        j["dst"] = "pipe"
    j["layered"] = structured(j["program"])
    procsim.close_streams(rng, j)
    j["faults"], j["trace"] = [], {}
    r = rng.random()
    if r < 0.4:
        return j
    if r < 0.85:
        j["faults"] = procsim.place_faults(rng, procs.dry(clean(j)).calls)
    else:
        n = procs.count_lines(clean(j))
        j["trace"] = {str(rng.randrange(max(n, 1))): rng.choice(["mem", "kbd"])}
    return j


def clean(sc):
    return dict((n, sc[n]) for n in sc if n not in ("form", "layered"))


def generate_shared(rng):
    jobs = [{"tool": "gcoder", "args": [], "extra": {}, "in": rng.choice([A, sharesim.LINK]), "out": None}
            for _ in range(rng.choice([1, 1, 2]))]
    for _ in range(rng.choice([1, 1, 2])):
        j = procsim.job(rng, tool=rng.choice(["gcode_mod", "gcode_mod", "tempcal_plugin", "stretch_plugin"]))
        for n in ("program", "rings"):
            j.pop(n, None)
        j["in"] = rng.choice([A, A, B])
        j["out"] = A
        if j["tool"] in loader.PLUGINS:
            j["in"], j["out"] = A, "-i"
        jobs.append(j)
    for j in jobs:
        j["io"] = procsim.io_config(rng)
        j["nice"] = rng.choice([1, 1, 3])
    rng.shuffle(jobs)
    sc = {"form": "shared", "jobs": jobs, "files": {A: program(rng, True), B: program(rng, True)},
          "sched_seed": rng.randint(0, 10 ** 9), "rate": rng.choice([0.1, 0.3, 0.5, 1.0]), "faults": []}
    if rng.random() < 0.4:
        calls = sharesim.execute(sc, faults=()).kernel.log
        pid = rng.randrange(len(jobs))
        sc["faults"] = procsim.place_faults(rng, calls, n=1, kinds=["kill", "int", "eio", "eintr", "full"], pid=pid)
    return sc


# -- runs ---------------------------------------------------------------
def run(sc):
    return {"report": run_report, "shared": run_shared, "library": run_library}[sc["form"]](sc)


def run_report(sc):
    o = Outcome()
    r = procsim.execute(clean(sc))
    o.absorb(r.kernel)
    o.sig = digest([sc["program"], procs.fault_key(sc, r), sorted((sc.get("trace") or {}).items()), str(r.status)])
    o.trace = procs.trace_of(r)
    disturbed = bool(r.kernel.fired_faults()) or r.proc.line_fault_fired or sc.get("devfull")
    missing = procsim.missing_stream(sc)
    disturbed = disturbed or missing
    for fd in sc.get("closed", ()):
        o.faults["fd %d closed" % fd] = o.faults.get("fd %d closed" % fd, 0) + 1
    for path in sorted(set(r.before) | set(r.snap)):
        if path != r.dest_path and r.before.get(path) != r.snap.get(path):
            o.fail("foreign", "the report changed %s" % path)
    if r.status == 0:
        got = parse((r.out or b"").decode("utf-8", "replace"))
        if sc.get("devfull"):
            o.fail("delivery", "exit status 0, although nothing can be written to /dev/full")
        elif got is None:
            o.fail("delivery", "exit status 0, but there is no complete report in %d bytes: ...%r" % (len(r.out or b""), (r.out or b"")[-60:]))
        else:
            o.probe("report despite fault" if disturbed else "report")
            o.nontrivial = True
            judge(Figures(sc["program"], sc["layered"]), got, 0.0051, o, "report")
    elif r.status in ("hang", "abort"):
        o.fail("hang", "the run did not end: %s" % r.error)
    else:
        o.probe("failure reported")
        o.nontrivial = bool(r.kernel.fired) or r.proc.line_fault_fired
        if not disturbed:
            o.fail("status", "exit status %s (%s) although nothing failed" % (r.status, r.error))
    return o


def run_shared(sc):
    o = Outcome()
    r = sharesim.execute(sc)
    k = r.kernel
    o.absorb(k)
    from .p23 import held, switches
    sw = switches(k)
    o.sig = digest([[(j["tool"], j["in"]) for j in sc["jobs"]], sw, [str(p.status) for p in r.procs]])
    o.trace = ["%d:%d %s %s" % c for c in k.log[-80:]] + ["exit %s %s" % (p.status, p.error or "") for p in r.procs] + [
        "schedule %s" % "".join(map(str, r.schedule[-200:]))]
    o.nontrivial = len(sw) >= 3
    if r.stopping:
        o.fail("stuck", "the runs do not end: %s" % r.stopping)
        return o
    faulty = set(f.get("p", 0) for f in sc["faults"])
    if any(f["kind"] == "full" for f in sc["faults"]):
        faulty = set(range(len(sc["jobs"])))
    for i, (j, p) in enumerate(zip(sc["jobs"], r.procs)):
        if j["tool"] != "gcoder":
            continue
        if p.status != 0:
            if i not in faulty or p.status in ("hang", "abort"):
                o.fail("status", "report %d fails with %s (%s) although nothing happened to it" % (i, p.status, p.error))
            continue
        text = bytes(r.sinks[i]).decode("utf-8", "replace")
        got = parse(text)
        if got is None:
            o.fail("delivery", "report %d succeeds, but is incomplete: ...%r" % (i, text[-60:]))
            continue
        versions = held(r.history, j["in"], r.spans[i])
        tries = []
        for data in versions:
            one = Outcome()
            lines = [l.strip() for l in data.decode("utf-8", "surrogateescape").split("\n")]
            judge(Figures(lines, structured(lines)), got, 0.0051, one, "report")
            tries.append(one)
            if not one.violations:
                break
        if all(one.violations for one in tries):
            o.fail("mixed", "report %d describes none of the %d versions of its input: %s" % (
                i, len(versions), tries[-1].violations[0][1]))
        o.probe("reports while the file changes" if len(versions) > 1 else "reports of one version")
    return o


class Refused(Exception):
    pass


def run_library(sc):
    o = Outcome()
    lib = loader.Lib()
    gcoder = lib.gcoder
    prog = sc["program"]
    fig = Figures(prog, sc["layered"])
    o.sig = digest([prog, sc["fail_at"]])
    o.nontrivial = bool(prog)

    def callback(line, seen=[]):
        seen.append(1)
        if len(seen) > sc["fail_at"]:
            raise Refused()
    if sc["fail_at"] is not None:
        try:
            gcoder.GCode(list(prog), line_callback=callback)
        except Refused:
            o.faults["callback fails"] = o.faults.get("callback fails", 0) + 1
    g = gcoder.GCode(list(prog))
    judge(fig, of(g), 1e-4, o, "loaded")
    total = sum(l.duration for l in g.all_layers)
    if not o.violations and not int(total - 1e-6) <= of(g)["seconds"] <= total + 1e-6:
        o.fail("duration", "the layers take %.3f s, all of them together %d s" % (total, of(g)["seconds"]))
    if not o.violations:
        light = gcoder.LightGCode(list(prog))
        judge(fig, of(light), 1e-4, o, "light program")
    if not o.violations:
        late = gcoder.GCode(deferred=True)
        late.prepare(list(prog))
        judge(fig, of(late), 1e-4, o, "deferred load")
    if not o.violations:
        again = gcoder.GCode(session.text(g).split("\n"))
        judge(fig, of(again), 1e-4, o, "saved and reloaded")
    o.steps += 4
    return o


def valid(sc):
    return True


def shrink(sc):
    if sc["form"] == "shared":
        for c in shr.drop_chunks(list(sc["faults"])):
            yield dict(sc, faults=c)
        if len(sc["jobs"]) > 1 and not sc["faults"]:
            for i in range(len(sc["jobs"])):
                yield dict(sc, jobs=sc["jobs"][:i] + sc["jobs"][i + 1:])
        for path in sorted(sc["files"]):
            for c in shr.drop_chunks(list(sc["files"][path])):
                yield dict(sc, files=dict(sc["files"], **{path: c}))
    elif sc["form"] == "report":
        for c in procs.shrink_job(sc):
            yield dict(c, layered=structured(c["program"]))
    else:
        if sc["fail_at"] is not None:
            yield dict(sc, fail_at=None)
        for c in shr.drop_chunks(list(sc["program"])):
            yield dict(sc, program=c, layered=structured(c))
