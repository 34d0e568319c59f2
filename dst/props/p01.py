# encoding: utf-8
"""Exit status 0 means the complete program was delivered."""
from . import procs
from .procs import ASSUMPTIONS, MEASURE, REAL, STUB, setup
from .. import gen, oracles, procsim
from ..core import Outcome
from .p18 import refusal

ID = "P01"
RUNS = {"quick": 8000, "thorough": 1000000}
RULE = ("a seeded tool, options, program, transport (files, pipes, redirected streams, /dev/full), fragmentation and "
        "0-3 faults placed at system calls a fault-free run was seen to make, or at a source line; non-trivial: the "
        "tool ran to an exit status")


def generate(rng, tier):
    j = procsim.job(rng)
    if "-z" in j["args"] and rng.random() < 0.1:
        j["args"][j["args"].index("-z") + 1] = "9.5"      # all of the program is below
    elif "min_z_change" in j["extra"] and rng.random() < 0.1:
        j["extra"]["min_z_change"] = 9.5
    j.update(procsim.transport(rng, j))
    if j.get("dst") in ("pipe", "redirect", "dash") and rng.random() < 0.06:
        j["devfull"] = True
    elif j.get("dst") in ("new", "old", "fifo") and rng.random() < 0.08:
        j["dst"] = "full"
    procsim.close_streams(rng, j)
    j["faults"] = []
    j["trace"] = {}
    r = rng.random()
    if r < 0.15:
        return j
    calls = procs.dry(j).calls
    if r < 0.85:
        j["faults"] = procsim.place_faults(rng, calls)
        if rng.random() < 0.35:
            # a disk filling up or a reader going away in the middle of the output
            w = [c for c in calls if c[2] == "write"]
            if w:
                c = rng.choice(w)
                j["faults"] = [{"at": c[1], "p": 0, "kind": rng.choice(["full", "reader_gone", "enospc", "eio"]),
                                "n": rng.choice([0, 1, 7, 64, 500])}]
    else:
        n = procs.count_lines(j)
        j["trace"] = {str(rng.randrange(max(n, 1))): rng.choice(["mem", "kbd"])}
    return j


def run(sc):
    o = Outcome()
    ref = procsim.reference(sc)
    r = procsim.execute(sc)
    o.absorb(r.kernel)
    o.sig = procs.signature(sc, r)
    o.trace = procs.trace_of(r)
    devfull = sc.get("devfull") or sc["dst"] == "full"
    missing = procsim.missing_stream(sc)
    disturbed = bool(r.kernel.fired_faults()) or r.proc.line_fault_fired or devfull or missing
    for fd in sc.get("closed", ()):
        o.faults["fd %d closed" % fd] = o.faults.get("fd %d closed" % fd, 0) + 1
    if r.status == 0:
        o.probe("success despite fault" if disturbed else "success")
        if ref.status != 0:
            o.fail("delivery", "exit status 0, but the same job without faults ends with %s (%s)" % (ref.status, ref.error))
        elif devfull:
            o.fail("delivery", "exit status 0, although nothing can be written to /dev/full")
        elif missing:
            o.fail("delivery", "exit status 0, although a stream which the run needs was closed (of %s)" % sc["closed"])
        elif r.out != ref.out:
            o.fail("delivery", "exit status 0, but delivered %d bytes which differ from the program of %d bytes (%s)" % (
                len(r.out or b""), len(ref.out), oracles.first_difference(ref.out, r.out)))
        else:
            complete(sc, r.out, o)
    elif r.status in ("hang", "abort"):
        o.fail("hang", "the run did not end: %s" % r.error)
    else:
        o.probe("failure reported")
        may = refusal(sc)
        if not disturbed and not (may and may(oracles.clean(sc["program"]))):
            o.fail("status", "exit status %s (%s) although nothing failed and the program is valid" % (r.status, r.error))
    return o


def complete(sc, out, o):
    """The delivered program is not a part of what it should be."""
    lost = oracles.lost_lines(sc, out)
    if lost:
        o.fail("incomplete", "exit status 0, but the delivered program lacks %s" % lost)


def valid(sc):
    return procsim.reference(sc).status == 0 or bool(sc.get("faults") or sc.get("trace"))


shrink = procs.shrink_job
