# encoding: utf-8
"""What the properties about delivered programs share: a tool run under I/O schedules and faults, judged by an oracle
whenever it reports success."""
from . import procs
from .procs import REAL, STUB, setup
from .. import oracles, procsim, shrink as shr
from ..core import Outcome, digest

ASSUMPTIONS = procs.ASSUMPTIONS + ["programs in millimetres (G21) as slicers write them, unless noted"]
MEASURE = "distinct (program, options, fault placement) executions, by digest"
RULE = ("a seeded program and options run through a seeded transport with fragmentation and, in a part of the runs, "
        "faults at system calls; whenever the tool reports success the delivered program is judged against the original "
        "by an oracle which executes both; non-trivial: the tool reported success and changed the program")


def finish(rng, j, faults=0.2):
    j.update(procsim.transport(rng, j))
    j["faults"], j["trace"] = [], {}
    if rng.random() < faults:
        j["faults"] = procsim.place_faults(rng, procs.dry(j).calls)
    return j


def run_and_judge(sc, judge, categories, may_refuse=None):
    """judge(orig_lines, out_lines) -> [(category, text)]"""
    o = Outcome()
    r = procsim.execute(sc)
    o.absorb(r.kernel)
    o.sig = digest([sc["tool"], sc.get("args"), sc["program"], sc.get("faults"), str(r.status)])
    o.trace = procs.trace_of(r)
    o.nontrivial = False
    if r.status == 0:
        if r.out is None:
            o.fail("lost", "success is reported, but there is no delivered program")
            return o
        orig = oracles.clean(sc["program"])
        out = oracles.text_lines(r.out)
        o.nontrivial = out != orig
        o.probe("judged under faults" if r.kernel.fired_faults() else "judged")
        for cat, text in judge(orig, out):
            if cat in categories:
                o.fail(cat, text)
            else:
                o.probe("other category: " + cat)
    elif r.status in ("hang", "abort"):
        o.fail("hang", "the run did not end: %s" % r.error)
    else:
        o.probe("failure reported")
        if not r.kernel.fired_faults():
            o.probe("refused: %s" % (r.error or "")[:60])
            if may_refuse is None or not may_refuse(oracles.clean(sc["program"])):
                o.fail("refused", "nothing failed, but a valid program is refused with status %s (%s)" % (r.status, r.error))
    return o


shrink = procs.shrink_job
