# encoding: utf-8
"""Simulated runs of several tools and plugins at the same time on the same files."""
import zlib

from . import loader, procsim, simos

LINK = "/work/link.gcode"


def named(path):
    return "/work/a.gcode" if path == LINK else path


class Result(object):
    __slots__ = ("kernel", "procs", "history", "stopping", "before", "after", "sinks", "spans", "schedule")


def execute(sc, faults=None, schedule=None):
    faults = sc.get("faults", ()) if faults is None else faults
    schedule = sc.get("schedule") if schedule is None else schedule
    k = simos.Kernel(faults=faults, max_steps=200000, schedule=schedule)
    d = k.disk
    for path in sorted(sc["files"]):
        d.put(path, procsim.encode(sc["files"][path]), sc.get("mode", 0o644))
    d.symlink(LINK, "a.gcode")
    d.put("/work/other.gcode", b"; belongs to somebody else\n")
    k.same_names = sc.get("same_names", False)
    jobs, sinks = [], []
    for i, j in enumerate(sc["jobs"]):
        plugin = j["tool"] in loader.PLUGINS
        args = list(j.get("args", ())) + list(j.get("positional", ()))
        extra = dict(j.get("extra") or {})
        sink = None
        if plugin:
            extra["filename"] = j["in"]
        else:
            args.append(j["in"])
            if j["out"] == "-i":
                args.insert(0, "-i")
            elif j["out"] is not None:
                args.append(j["out"])
        p = simos.Proc(k, i, [j["tool"]] + args, j.get("io"))
        p.nice = j.get("nice", 1)
        p.fds[0] = simos.OpenFile(d.names["/dev/null"])
        sink = bytearray()
        p.fds[1] = simos.OpenFile(sink=sink, readable=False, writable=True)
        p.fds[2] = simos.OpenFile(sink=bytearray(), readable=False, writable=True)
        sinks.append(sink)
        jobs.append((p, simos.tool_body(j["tool"], extra)))
    k.procs = [p for p, _ in jobs]
    watched = sorted(set(sc["files"]) | set(target(j) for j in sc["jobs"] if target(j)))
    history = dict((w, []) for w in watched)
    last = {}

    def look(k):
        for w in watched:
            ino = d.names.get(w)
            key = None if ino is None else (ino.ino, len(ino.data), zlib.crc32(bytes(ino.data)))
            if last.get(w, 0) != key:
                last[w] = key
                history[w].append((len(k.log), None if ino is None else bytes(ino.data)))
    look(k)
    k.observer = look
    r = Result()
    r.before = d.snapshot()
    if schedule is None:
        simos.run_many(k, jobs, rate=sc.get("rate", 0.3), seed=sc.get("sched_seed", 0))
    else:
        simos.run_many(k, jobs, rate=0.0, seed=None)
    look(k)
    r.kernel, r.procs, r.history, r.stopping = k, k.procs, history, k.stopping
    r.after, r.sinks, r.schedule = d.snapshot(), sinks, k.sched_trace
    r.spans = []
    for i in range(len(jobs)):
        mine = [n for n, c in enumerate(k.log) if c[0] == i]
        r.spans.append((mine[0], mine[-1] + 1) if mine else (0, 0))
    return r


def target(j):
    """The file a job writes to."""
    if j["tool"] in loader.PLUGINS or j["out"] == "-i":
        return named(j["in"])
    return named(j["out"]) if j["out"] is not None else None


_cache = {}


def transform(j, data):
    """(status, program) of the job on `data` when nothing else happens."""
    key = (j["tool"], tuple(j.get("args", ())), tuple(j.get("positional", ())),
           tuple(sorted((j.get("extra") or {}).items())), data)
    if key not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        r = procsim.reference(dict((n, j[n]) for n in ("tool", "args", "positional", "extra") if n in j) | {
            "program": [], "data": data.decode("latin-1")})
        _cache[key] = (r.status, r.out)
    return _cache[key]
