# encoding: utf-8
"""Simulated pipelines: several tools run at the same time, connected by pipes."""
from . import procsim, simos

IN = "/work/in.gcode"
OUT = "/work/out.gcode"


class Result(object):
    __slots__ = ("stages", "kernel", "final", "stopping", "schedule")


class Stage(object):
    __slots__ = ("status", "error", "consumed", "written", "reader_gone", "own_faults")


def make(sc, faults, schedule=None):
    k = simos.Kernel(faults=faults, max_steps=sc.get("max_steps", 200000), schedule=schedule)
    d = k.disk
    data = procsim.encode(sc["program"])
    n = len(sc["stages"])
    pipes = [simos.Pipe(sc["caps"][i]) for i in range(n - 1)]
    jobs = []
    for i, st in enumerate(sc["stages"]):
        positional = list(st.get("positional", []))
        named = i == 0 and sc.get("src") == "file"
        if named:
            positional.append(IN)
        elif (i == n - 1 and sc.get("dst") == "file") or st.get("dash"):
            positional.append("-")
        if i == n - 1 and sc.get("dst") == "file":
            positional.append(OUT)
        p = simos.Proc(k, i, [st["tool"]] + list(st.get("args", [])) + positional, st.get("io"))
        p.nice = st.get("nice", 1)
        if i == 0:
            if named:
                d.put(IN, data)
                p.fds[0] = simos.OpenFile(d.names["/dev/null"])
            else:
                p.fds[0] = simos.OpenFile(source=[bytearray(data)])
        else:
            p.fds[0] = simos.OpenFile(pipe=pipes[i - 1], end="r")
            pipes[i - 1].readers += 1
        if i < n - 1:
            p.fds[1] = simos.OpenFile(pipe=pipes[i], end="w", readable=False, writable=True)
            pipes[i].writers += 1
        else:
            p.fds[1] = simos.OpenFile(sink=bytearray(), readable=False, writable=True)
        p.fds[2] = simos.OpenFile(sink=bytearray(), readable=False, writable=True)
        jobs.append((p, simos.tool_body(st["tool"], {})))
    k.procs = [p for p, _ in jobs]
    return k, jobs, pipes, data


def execute(sc, faults=None, schedule=None):
    faults = sc.get("faults", ()) if faults is None else faults
    schedule = sc.get("schedule") if schedule is None else schedule
    k, jobs, pipes, data = make(sc, faults, schedule)
    sink = jobs[-1][0].fds[1].sink
    if schedule is None:
        simos.run_many(k, jobs, rate=sc.get("rate", 0.3), seed=sc.get("sched_seed", 0))
    else:
        simos.run_many(k, jobs, rate=0.0, seed=None)
    r = Result()
    r.kernel, r.stopping = k, k.stopping
    r.schedule = k.sched_trace
    r.stages = []
    for i, (p, _) in enumerate(jobs):
        s = Stage()
        s.status, s.error = p.status, p.error
        s.consumed = data if i == 0 else bytes(pipes[i - 1].all[:len(pipes[i - 1].all) - len(pipes[i - 1].buf)])
        if i < len(pipes):
            s.written = bytes(pipes[i].all)
            s.reader_gone = len(pipes[i].buf) > 0 or r.kernel.procs[i + 1].status != 0
        else:
            s.written = bytes(sink)
            if sc.get("dst") == "file":
                ino = k.disk.names.get(OUT)
                s.written = None if ino is None else bytes(ino.data)
            s.reader_gone = False
        s.own_faults = any(f.get("p", 0) == i for f in faults)
        r.stages.append(s)
    r.final = r.stages[-1].written
    return r


_cache = {}


def alone(st, data):
    """(status, output) of a stage which gets `data` and nothing else happens."""
    key = (st["tool"], tuple(st.get("args", ())), tuple(st.get("positional", ())), bytes(data))
    if key not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        r = procsim.execute({"tool": st["tool"], "args": list(st.get("args", ())),
                             "positional": list(st.get("positional", ())), "program": [], "data": data.decode("latin-1"),
                             "src": "pipe", "dst": "pipe"}, faults=(), trace={})
        _cache[key] = (r.status, r.out)
    return _cache[key]
