# encoding: utf-8
"""Runs at the same time on the same files never mix."""
from . import procs
from .procs import ASSUMPTIONS, REAL, STUB, setup
from .. import gen, loader, procsim, sharesim, shrink as shr
from ..core import Outcome, digest

ID = "P23"
RUNS = {"quick": 2500, "thorough": 300000}
RULE = ("2-4 tools and plugins run at the same time on two or three shared files (reading what others rewrite, writing "
        "to the same destination, in place, through a link); every system call is a scheduling point of a seeded "
        "scheduler; a part of the runs kills, stalls, interrupts or fails one of them, or makes them choose the same "
        "temporary names; after every call the shared files are compared with the complete programs they may hold; "
        "non-trivial: the schedule switched between the processes at least 3 times")
MEASURE = "distinct (jobs, process switches by system call number, exit statuses) executions"
A, B, C = "/work/a.gcode", "/work/b.gcode", "/work/c.gcode"


def generate(rng, tier):
    layered = rng.random() < 0.5

    def program():
        if layered:
            return gen.layered_program(rng, layers=rng.choice([4, 5]), height=rng.choice([0.2, 0.3]), per_layer=2)
        return gen.slicer_program(rng, kind="cura")["lines"]
    tools = ["gcode_mod", "gcode_mod", "gcode_optimize_arcs"] + (["gcode_tempcal", "tempcal_plugin"] if layered else
                                                                 ["gcode_stretch", "stretch_plugin"])
    jobs = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        j = procsim.job(rng, tool=rng.choice(tools))
        j.pop("program")
        j.pop("rings", None)
        j["in"] = rng.choice([A, A, A, B, sharesim.LINK])
        j["out"] = rng.choice([A, A, B, C, C, sharesim.LINK, None])
        if j["tool"] == "gcode_optimize_arcs" and rng.random() < 0.5:
            j["out"] = "-i"
        if j["tool"] in loader.PLUGINS:
            j["in"], j["out"] = rng.choice([A, A, B]), "-i"
        j["io"] = procsim.io_config(rng)
        j["nice"] = rng.choice([1, 1, 1, 5])
        jobs.append(j)
    sc = {"jobs": jobs, "files": {A: program(), B: program()}, "mode": rng.choice([0o644, 0o640, 0o600]),
          "same_names": rng.random() < 0.3,
          "sched_seed": rng.randint(0, 10 ** 9), "rate": rng.choice([0.05, 0.1, 0.3, 0.5, 1.0]), "faults": []}
    if rng.random() < 0.4:
        calls = sharesim.execute(sc, faults=()).kernel.log
        for _ in range(rng.choice([1, 1, 2])):
            pid = rng.randrange(len(jobs))
            if rng.random() < 0.3:
                at = rng.choice([c[1] for c in calls if c[0] == pid] or [0])
                sc["faults"].append({"p": pid, "at": at, "kind": "stall", "n": rng.choice([5, 50, 500])})
                continue
            kinds = ["kill", "int", "eio", "eintr", "enospc", "emfile", "eacces", "full"]
            sc["faults"] += procsim.place_faults(rng, calls, n=1, kinds=kinds, pid=pid)
    return sc


def switches(k):
    out, last = [], None
    for pid, n, _, _ in k.log:
        if pid != last:
            out.append((pid, n))
            last = pid
    return out


def held(history, path, span):
    """Contents the file had at some time of the span."""
    h = history[sharesim.named(path)]
    res = []
    for n, (t, data) in enumerate(h):
        until = h[n + 1][0] if n + 1 < len(h) else 10 ** 9
        if t <= span[1] and until >= span[0] and data is not None and data not in res:
            res.append(data)
    return res


def run(sc):
    o = Outcome()
    r = sharesim.execute(sc)
    k = r.kernel
    o.absorb(k)
    sw = switches(k)
    o.sig = digest([[(j["tool"], j["in"], j["out"]) for j in sc["jobs"]], sw, [str(p.status) for p in r.procs]])
    o.trace = ["%d:%d %s %s" % c for c in k.log[-80:]] + ["exit %s %s" % (p.status, p.error or "") for p in r.procs] + [
        "schedule %s" % "".join(map(str, r.schedule[-200:]))]
    o.nontrivial = len(sw) >= 3
    if r.stopping:
        o.fail("stuck", "the runs do not end: %s" % r.stopping)
        return o
    results = []                      # per job: what it may deliver, and whether it may fail
    for j, span in zip(sc["jobs"], r.spans):
        results.append([sharesim.transform(j, v) for v in held(r.history, j["in"], span)])
    for path, h in sorted(r.history.items()):
        allowed = [h[0][1]]
        for j, res in zip(sc["jobs"], results):
            if sharesim.target(j) == path:
                allowed += [data for status, data in res if status == 0]
        seen = False
        for t, data in h:
            call = k.log[t - 1] if t else None
            if data is None and seen:
                o.fail("vanished", "%s is gone after call %s" % (path, call))
            elif data not in allowed:
                o.fail("mixed", "after call %s %s holds %d bytes which are neither the previous content nor the complete "
                       "program of one of the runs" % (call, path, len(data or b"")))
            seen = seen or data is not None
            if o.violations:
                return o
    faulty = set(f.get("p", 0) for f in sc.get("faults", ()) if f["kind"] not in ("stall", "eintr"))
    if any(f["kind"] == "full" for f in sc.get("faults", ())):
        faulty = set(range(len(sc["jobs"])))
    for i, (j, p, res) in enumerate(zip(sc["jobs"], r.procs, results)):
        who = "run %d (%s %s -> %s)" % (i, j["tool"], j["in"], j["out"])
        if p.status in ("hang", "abort"):
            o.fail("stuck", "%s did not end: %s" % (who, p.error))
        elif p.status == 0:
            good = [data for status, data in res if status == 0]
            path = sharesim.target(j)
            if path is None:
                if bytes(r.sinks[i]) not in good:
                    o.fail("mixed", "%s reports success, but what it delivered belongs to no complete version of its input" % who)
            elif not any(data in good and t > r.spans[i][0] for t, data in r.history[path]):
                o.fail("lost", "%s reports success, but %s never held its program" % (who, path))
        elif i not in faulty and all(status == 0 for status, _ in res):
            o.fail("spurious", "%s fails with %s (%s) although nothing happened to it" % (who, p.status, p.error))
    targets = set(sharesim.target(j) for j in sc["jobs"])
    for path in sorted(r.before):
        if path not in r.after:
            o.fail("foreign", "%s vanished" % path)
        elif path not in targets and r.after[path] != r.before[path]:
            o.fail("foreign", "%s was changed" % path)
        elif r.after[path][1:] != r.before[path][1:]:
            o.fail("foreign", "permission bits or kind of %s changed" % path)
    stray = sorted(set(r.after) - set(r.before) - targets)
    if stray and not k.fired_faults():
        o.fail("stray", "the runs left %s behind" % ", ".join(stray))
    o.probe("contents compared", sum(len(h) for h in r.history.values()))
    o.probe("disturbed" if k.fired_faults() else "undisturbed")
    if len(set(p for p in (sharesim.target(j) for j in sc["jobs"]) if p)) < len([j for j in sc["jobs"] if sharesim.target(j)]):
        o.probe("several writers of one file")
    return o


def valid(sc):
    return len(sc["jobs"]) >= 1


def shrink(sc):
    for c in shr.drop_chunks(list(sc.get("faults", ()))):
        yield dict(sc, faults=c)
    if "schedule" not in sc:
        r = sharesim.execute(sc)
        yield dict(sc, schedule=r.schedule)
    else:
        s = sc["schedule"]
        for cut in (0, len(s) // 2, len(s) * 3 // 4, len(s) - 10, len(s) - 1):
            if 0 <= cut < len(s):
                yield dict(sc, schedule=s[:cut])
    if len(sc["jobs"]) > 1 and not sc["faults"]:
        for i in range(len(sc["jobs"])):
            c = dict(sc, jobs=sc["jobs"][:i] + sc["jobs"][i + 1:])
            c.pop("schedule", None)
            yield c
    for path in sorted(sc["files"]):
        for c in shr.drop_chunks(list(sc["files"][path])):
            yield dict(sc, files=dict(sc["files"], **{path: c}))
    for i, j in enumerate(sc["jobs"]):
        for key, value in (("io", {}), ("nice", 1)):
            if j.get(key) != value:
                yield dict(sc, jobs=sc["jobs"][:i] + [dict(j, **{key: value})] + sc["jobs"][i + 1:])
    if sc.get("same_names"):
        yield dict(sc, same_names=False)
