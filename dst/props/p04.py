# encoding: utf-8
"""The result does not depend on how the bytes travel."""
from . import procs
from .procs import ASSUMPTIONS, REAL, STUB, setup
from .. import oracles, procsim, shrink as shr
from ..core import Outcome, digest

ID = "P04"
RUNS = {"quick": 8000, "thorough": 1000000}
RULE = ("a seeded job executed through several transports (file, pipe, redirected or '-' input and output, in place), "
        "each with its own fragmentation of reads and writes, buffer sizes, interrupted calls, LF or CR-LF and optional "
        "final line end; exit status and delivered bytes are compared with the plain run; non-trivial: at least one "
        "short read, short write, interrupted call, CR-LF or missing line end")
MEASURE = "distinct (tool, transports, fragmentation pattern, line ends) combinations"


def generate(rng, tier):
    j = procsim.job(rng)
    if rng.random() < 0.05:
        n = rng.randint(0, len(j["program"]))
        j["program"] = j["program"][:n] + [rng.choice(["G1 X-", "T", "G92 E-"])] + j["program"][n:]
    if rng.random() < 0.08:
        # blanks, empty lines and long lines
        j["program"] = [rng.choice(["", "  ", "\t", " "]) + l + rng.choice(["", " ", "\t"]) for l in j["program"]]
        j["program"].insert(rng.randint(0, len(j["program"])), "; " + "x" * rng.choice([100, 9000]))
        j["program"].insert(rng.randint(0, len(j["program"])), "")
    j["runs"] = []
    for _ in range(rng.choice([2, 3, 4])):
        t = procsim.transport(rng, j)
        t["eol"] = rng.choice(["\n", "\n", "\r\n"])
        t["faults"] = [{"at": rng.randrange(40), "kind": "eintr", "p": 0} for _ in range(rng.choice([0, 0, 1, 3]))]
        j["runs"].append(t)
    return j


def run(sc):
    o = Outcome()
    ref = procsim.reference(sc)
    o.sig = digest([sc["tool"], [(t["src"], t["dst"], t["io"], t["eol"], t["final"]) for t in sc["runs"]]])
    o.nontrivial = False
    for n, t in enumerate(sc["runs"]):
        one = dict((k, v) for k, v in sc.items() if k != "runs")
        one.update(t)
        r = procsim.execute(one)
        o.absorb(r.kernel)
        if r.kernel.fired or t["eol"] != "\n" or not t["final"]:
            o.nontrivial = True
        what = "%s -> %s, %s, %s" % (t["src"], t["dst"], t["io"], repr(t["eol"]))
        if (r.status == 0) != (ref.status == 0):
            o.fail("status", "through %s the exit status is %s (%s), otherwise %s (%s)" % (
                what, r.status, r.error, ref.status, ref.error))
        elif ref.status == 0 and r.out != ref.out:
            o.fail("bytes", "through %s: %s" % (what, oracles.first_difference(ref.out, r.out)))
        if o.violations:
            o.trace = procs.trace_of(r)
            break
        o.probe("failing job" if ref.status else "job")
    return o


def valid(sc):
    return len(sc["runs"]) >= 1


def shrink(sc):
    for c in shr.drop_chunks(sc["runs"]):
        if c:
            yield dict(sc, runs=c)
    for c in shr.edits(sc):
        yield c
    for i, t in enumerate(sc["runs"]):
        for key, value in (("io", {}), ("faults", []), ("eol", "\n"), ("final", True), ("relative_names", False)):
            if t.get(key) != value:
                yield dict(sc, runs=sc["runs"][:i] + [dict(t, **{key: value})] + sc["runs"][i + 1:])
