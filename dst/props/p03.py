# encoding: utf-8
"""A run touches nothing but its destination."""
from . import procs
from .procs import ASSUMPTIONS, MEASURE, REAL, STUB, setup
from .. import procsim
from ..core import Outcome

ID = "P03"
RUNS = {"quick": 8000, "thorough": 1000000}
RULE = ("a seeded job on a disk with other files in all directories, under fragmentation and faults; names, bytes and "
        "permission bits of all files before and after are compared; non-trivial: a destination file was written or a "
        "fault fired")


def generate(rng, tier):
    j = procsim.job(rng)
    j.update(procsim.transport(rng, j))
    if rng.random() < 0.15:
        n = rng.randint(0, len(j["program"]))
        j["program"] = j["program"][:n] + [rng.choice(["G1 X-", "G1 X. Y1", "T", "G92 E-"])] + j["program"][n:]
    if j.get("dst") in ("new", "fifo") and rng.random() < 0.3:
        j["dst"] = rng.choice(["full", "null"])
    procsim.close_streams(rng, j)
    j["faults"], j["trace"] = [], {}
    r = rng.random()
    if r < 0.25:
        return j
    if r < 0.8:
        j["faults"] = procsim.place_faults(rng, procs.dry(j).calls)
    else:
        n = procs.count_lines(j)
        j["trace"] = {str(rng.randrange(max(n, 1))): rng.choice(["mem", "kbd"])}
    return j


def run(sc):
    o = Outcome()
    r = procsim.execute(sc)
    o.absorb(r.kernel)
    o.sig = procs.signature(sc, r)
    o.trace = procs.trace_of(r)
    before, after = r.before, r.snap
    dest = r.dest_path
    for path in sorted(before):
        if path == dest:
            continue
        if path not in after:
            o.fail("foreign", "%s vanished" % path)
        elif after[path][0] != before[path][0]:
            o.fail("foreign", "%s was changed" % path)
        elif after[path][2] != before[path][2]:
            o.fail("foreign", "%s, a %s, was replaced by a %s" % (path, before[path][2], after[path][2]))
        elif after[path][1] != before[path][1]:
            o.fail("foreign", "permission bits of %s changed from %o to %o" % (path, before[path][1], after[path][1]))
    if dest in before and dest in after and after[dest][1] != before[dest][1]:
        o.fail("mode", "permission bits of %s changed from %o to %o (exit status %s)" % (
            dest, before[dest][1], after[dest][1], r.status))
    if dest is not None and dest not in before and dest in after and r.status not in (137, "abort", "hang"):
        usual = 0o666 & ~sc.get("umask", 0o022)
        if after[dest][1] != usual:
            o.fail("mode", "the new file %s has permission bits %o, not %o (exit status %s)" % (
                dest, after[dest][1], usual, r.status))
    calm = not r.kernel.fired_faults() and not r.proc.line_fault_fired
    if calm and sc["tool"] in procsim.loader.PLUGINS and r.proc.umask != sc.get("umask", 0o022):
        o.fail("umask", "the plugin left umask %o to its host instead of %o" % (r.proc.umask, sc.get("umask", 0o022)))
    stray = sorted(set(after) - set(before) - set([dest]))
    ended = r.status not in (137, "abort", "hang")
    excused = r.proc.created_fault or r.proc.cleanup_fault or r.proc.fault_in_output
    if stray and ended and not excused:
        o.fail("stray", "the run ended with status %s (%s) and left %s behind" % (r.status, r.error, ", ".join(stray)))
    if stray and (not ended or excused):
        o.probe("temporary file left by a killed or interrupted run")
    o.nontrivial = bool(r.kernel.fired) or dest is not None or sc.get("dst") in ("fifo", "full", "null")
    return o


def valid(sc):
    return True


shrink = procs.shrink_job
