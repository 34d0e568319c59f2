# encoding: utf-8
"""A rewritten file holds the old or the new program, never less."""
import posixpath

from . import procs
from .procs import ASSUMPTIONS, REAL, STUB, setup
from .. import procsim
from ..core import Outcome
from ..simos import apply_ops

ID = "P02"
RUNS = {"quick": 8000, "thorough": 1000000}
RULE = ("a seeded job rewriting an existing file (in place, named, through a link, by a plugin) under fragmentation and "
        "faults; at every system call the file itself, and every state a power cut at that instant could leave, is "
        "compared with the old and the new program; non-trivial: the file was rewritten or a fault fired")
MEASURE = procs.MEASURE


def generate(rng, tier):
    j = procsim.job(rng)
    j.update(procsim.transport(rng, j))
    if j["tool"] not in procsim.loader.PLUGINS:
        j["src"] = rng.choice(["file", "file", "dash"])
        j["dst"] = rng.choice(["old", "olddir", "link", "inplace", "inplace"]) if j["src"] == "file" else rng.choice(
            ["old", "olddir", "link"])
        if j["src"] == "file" and j["tool"] == "gcode_optimize_arcs" and rng.random() < 0.4:
            j["dst"] = "-i"
        if j["dst"] == "link":
            j["link"] = rng.choice(procsim.LINKS)
    if rng.random() < 0.15:
        # a program the tool refuses half way
        n = rng.randint(0, len(j["program"]))
        j["program"] = j["program"][:n] + [rng.choice(["G1 X-", "G1 X. Y1", "T", "G92 E-"])] + j["program"][n:]
    if rng.random() < 0.1:
        j["old"] = ""
    procsim.close_streams(rng, j)
    j["faults"], j["trace"] = [], {}
    r = rng.random()
    if r < 0.2:
        return j
    if r < 0.75:
        j["faults"] = procsim.place_faults(rng, procs.dry(j).calls)
    else:
        n = procs.count_lines(j)
        j["trace"] = {str(rng.randrange(max(n, 1))): rng.choice(["mem", "kbd", "kill"])}
    return j


def power_states(disk, path):
    """Contents the name may have after a power cut now."""
    names = dict(disk.base)
    seen = set()

    def states(names):
        ino, at = names.get(path), path
        for _ in range(8):
            if ino is not None and ino.kind == "link":
                at = posixpath.normpath(posixpath.join(posixpath.dirname(at), ino.target))
                ino = names.get(at)
        if ino is None:
            yield None
            return
        if ino.ino in seen:
            return
        seen.add(ino.ino)
        n = len(ino.pending)
        yield ino.durable
        if n:
            yield bytes(apply_ops(ino.durable, ino.pending[:n // 2]))
            yield bytes(apply_ops(ino.durable, ino.pending[1:]))
            yield bytes(apply_ops(ino.durable, ino.pending))
    for s in states(names):
        yield s
    for op in disk.journal:
        if op[0] == "create":
            names[op[1]] = op[2]
        elif op[0] == "rename":
            names[op[2]] = names.pop(op[1], op[3])
        elif op[0] == "unlink":
            names.pop(op[1], None)
        else:
            continue
        for s in states(names):
            yield s


def run(sc):
    o = Outcome()
    ref = procsim.reference(sc)
    plain = {"program": sc["program"]}
    if sc["dst"] in ("inplace", "-i"):
        old = procsim.encode(sc["program"], sc.get("eol", "\n"), sc.get("final", True))
    else:
        old = sc["old"].encode() if "old" in sc and sc["old"] else procsim.OLD.encode()
    allowed = [old]
    if ref.status == 0:
        allowed.append(ref.out)
    name = procsim.DESTS.get(sc["dst"], procsim.RPATH)
    cache = {}
    marks = {"n": 0, "cuts": 0}

    def look(k, when):
        path = k.follow(name)
        ino = k.disk.names.get(path)
        key = None if ino is None else (ino.ino, len(ino.data), len(ino.pending), len(ino.durable))
        state = (key, len(k.disk.journal), sum(len(i.pending) for i in k.disk.names.values() if i.kind == "file"))
        if state in cache:
            return
        cache[state] = True
        marks["n"] += 1
        data = None if ino is None else bytes(ino.data)
        if data not in allowed:
            o.fail("torn", "%s the file holds %s, neither the old (%d bytes) nor the new program (%s)" % (
                when, "nothing" if data is None else "%d bytes" % len(data), len(old),
                "%d bytes" % len(ref.out) if ref.status == 0 else "the job fails"))
        for s in power_states(k.disk, name):
            marks["cuts"] += 1
            if s not in allowed:
                o.fail("power", "after a power cut %s the file could hold %s, neither the old (%d bytes) nor the new "
                       "program" % (when, "nothing" if s is None else "%d bytes" % len(s), len(old)))
                break

    def observer(k):
        if len(o.violations) < 3 and k.current is not None:
            look(k, "after call %d %s" % (k.log[-1][1], " ".join(k.log[-1][2:])) if k.log else "at start")

    r = procsim.execute(sc, observer=observer)
    o.absorb(r.kernel)
    o.sig = procs.signature(sc, r)
    o.trace = procs.trace_of(r)
    o.probe("states compared", marks["n"])
    o.probe("power cuts evaluated", marks["cuts"])
    # the file at the end, whatever ended the run
    if not o.violations:
        look(r.kernel, "at the end (exit status %s)" % r.status)
    o.nontrivial = bool(r.kernel.fired) or r.dest != old
    if r.dest == ref.out and ref.status == 0:
        o.probe("new program in place")
    else:
        o.probe("old program kept")
    return o


def valid(sc):
    return True


shrink = procs.shrink_job
