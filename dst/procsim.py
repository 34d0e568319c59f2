# encoding: utf-8
"""Simulated runs of one command-line tool or plugin."""
import random
import re

from . import gen, loader, simos

RPATH = "/work/in.gcode"
DESTS = {"new": "/work/new.gcode", "newdir": "/out/new.gcode", "old": "/work/old.gcode", "olddir": "/out/old.gcode",
         "link": "/work/link.gcode", "fifo": "/work/fifo", "full": "/dev/full", "null": "/dev/null"}
NEIGHBOURS = ("%s.tmp", "%s~", "%s.bak", "%s.new", "%s.orig", "%s.part", ".%s.tmp", ".%s.swp")
LINKS = ("beside", "absolute", "other", "chain", "mixed")
OLD = "; previous program\nG1 X1 Y1\nG1 X2 Y2 E1\nM84 ; previous end\n"


class Result(object):
    __slots__ = ("status", "error", "out", "err", "dest", "snap", "before", "kernel", "proc", "dest_path", "calls",
                 "violations")


def put_link(d, kind, path, target):
    """Lets the name `path` lead to a file called `target`, in the way `kind` says; returns that file's name."""
    if kind == "absolute":
        d.symlink(path, "/work/" + target)
        return "/work/" + target
    if kind == "other":
        d.symlink(path, "../out/" + target)
        return "/out/" + target
    if kind == "chain":
        d.symlink(path, "via." + target)
        d.symlink("/work/via." + target, target)
        return "/work/" + target
    if kind == "mixed":
        d.symlink(path, "/out/via." + target)
        d.symlink("/out/via." + target, target)
        return "/out/" + target
    d.symlink(path, target)
    return "/work/" + target


def encode(lines, eol="\n", final=True):
    text = eol.join(lines)
    if lines and final:
        text += eol
    return text.encode("utf-8", "surrogateescape")


# ---------------------------------------------------------------------------
def job(rng, tool=None, valid=True):
    """Which program is given to which tool with which options."""
    tool = tool or rng.choice(["gcode_mod"] * 4 + ["gcode_stretch"] * 2 + ["gcode_optimize_arcs"] * 2 +
                              ["gcode_tempcal"] * 2 + ["stretch_plugin", "tempcal_plugin"])
    j = {"tool": tool, "args": [], "extra": {}}
    if tool == "gcode_mod":
        r = rng.random()
        if r > 0.25:
            if rng.random() < 0.5:
                j["args"] += ["-x", offset(rng)]
            if rng.random() < 0.5:
                j["args"] += ["-y", offset(rng)]
            if rng.random() < 0.4:
                j["args"] += ["-e"]
            if rng.random() < 0.4:
                j["args"] += ["-p", str(rng.randint(0, 4))]
        j["program"] = gen.any_program(rng)
    elif tool in ("gcode_stretch", "stretch_plugin"):
        if rng.random() < 0.8:
            j["program"] = gen.slicer_program(rng, kind="cura" if tool == "stretch_plugin" else None)["lines"]
        else:
            j["program"] = gen.any_program(rng)
        if tool == "stretch_plugin":
            j["extra"] = {"stretch_strength": rng.choice([1.0, 0.5, 2.0])}
        elif rng.random() < 0.4:
            j["args"] += ["--stretch_strength", rng.choice(["0.5", "2", "1.0", "0"])]
    elif tool == "gcode_optimize_arcs":
        j["program"] = gen.arc_program(rng) if rng.random() < 0.8 else gen.any_program(rng)
    else:
        a, b = rng.choice([(200, 230), (230, 190), (180, 240), (210, 211), (150, 250)])
        z = rng.choice([0.1, 0.1, 0.5, 0.0])
        steps = rng.choice([1, 2, 5, 10])
        j["program"] = gen.layered_program(rng, layers=rng.choice([4, 5, 7, 9]), height=rng.choice([0.2, 0.3, 0.4]))
        if tool == "tempcal_plugin":
            j["extra"] = {"start_temp": float(a), "end_temp": float(b), "min_z_change": z, "steps": float(steps)}
        else:
            j["args"] += ["-z", str(z)]
            if rng.random() < 0.4:
                j["args"] += ["-c"]
            else:
                j["args"] += ["-s", str(steps)]
            j["positional"] = [str(a), str(b)]
    if tool in loader.TOOLS and tool != "gcoder":
        r = rng.random()
        if r < 0.5:
            j["args"] += ["-q"]
        elif r < 0.7:
            j["args"] += ["-q", "-q"]
        elif r < 0.75:
            j["args"] += ["-v"]
    return j


def offset(rng):
    return rng.choice(["10", "-5.5", "0", "0.125", "-100", "3.333", "0.001", "25.4"])


def transport(rng, j):
    """How its bytes travel."""
    t = {}
    if j["tool"] in loader.PLUGINS:
        t["src"], t["dst"] = "file", "inplace"
    elif j["tool"] in loader.HOSTS:
        t["src"], t["dst"] = rng.choice(["pipe", "redirect"]), rng.choice(["pipe", "redirect"])
    else:
        t["src"] = rng.choice(["file", "file", "file", "pipe", "redirect", "dash"])
        if t["src"] == "file":
            t["dst"] = rng.choice(["new", "newdir", "old", "olddir", "link", "fifo", "inplace", "inplace", "pipe", "redirect",
                                   "dash"])
            if j["tool"] == "gcode_optimize_arcs" and rng.random() < 0.3:
                t["dst"] = "-i"
        elif t["src"] == "dash":
            t["dst"] = rng.choice(["new", "old", "olddir", "link", "fifo", "pipe", "redirect", "dash"])
        else:
            t["dst"] = rng.choice(["pipe", "redirect"])
            if j["tool"] == "gcode_optimize_arcs" and rng.random() < 0.2:
                t["dash_i"] = True          # there is no file to modify in place
    t["io"] = io_config(rng)
    t["mode"] = rng.choice([0o644, 0o644, 0o600, 0o640, 0o664, 0o755, 0o606])
    if t.get("dst") in ("inplace", "-i", "old", "olddir", "link") and rng.random() < 0.08:
        t["mode"] = rng.choice([0o444, 0o4755, 0o2664])
    t["umask"] = rng.choice([0o022, 0o022, 0o077, 0o002])
    t["eol"] = "\n"
    t["final"] = rng.random() < 0.8
    t["relative_names"] = rng.random() < 0.3
    if t.get("dst") == "link":
        t["link"] = rng.choice(LINKS)
    if t["src"] == "file" and rng.random() < 0.12:
        t["linked"] = rng.choice(LINKS)
    if rng.random() < 0.1:
        # other names of the files
        t["hard"] = True
    if j["tool"] in loader.TOOLS and rng.random() < 0.2:
        t["spell"] = rng.randint(0, 9999)
    if rng.random() < 0.03 and not j.get("rings") and "parts" not in j:
        # more than all buffers hold
        at = rng.randint(0, len(j["program"]))
        j["program"][at:at] = ["; %04d " % i + "padding " * 12 for i in range(rng.choice([100, 200, 700]))]
    return t


LONG = {"-q": "--quiet", "-v": "--verbose", "-c": "--continuous", "-i": "--inplace", "-z": "--min_z_change", "-s": "--steps"}
FLAGS = ("-q", "-v", "-e", "-c", "-i")


def spelled(seed, args, positional):
    """The same options in other words and in another order."""
    rng = random.Random(seed)
    groups, i = [], 0
    while i < len(args):
        n = 1 if args[i] in FLAGS else 2
        groups.append(args[i:i + n])
        i += n
    rng.shuffle(groups)
    out = []
    for g in groups:
        r = rng.random()
        if g[0] == "-e" and r < 0.5:
            # counted by the tool: more of them mean the same
            out.append(rng.choice([["-ee"], ["-e", "-e"], ["-eeq"]]))
        elif g[0] in LONG and r < 0.4:
            out.append([LONG[g[0]]] + g[1:] if len(g) == 1 or r < 0.2 else ["%s=%s" % (LONG[g[0]], g[1])])
        elif len(g) == 2 and r < 0.7:
            out.append(["%s=%s" % tuple(g)] if g[0].startswith("--") else [g[0] + g[1]])
        else:
            out.append(g)
    k = rng.choice([0, len(out), len(out), rng.randint(0, len(out))])
    return [a for g in out[:k] for a in g] + positional + [a for g in out[k:] for a in g]


def close_streams(rng, j):
    """Standard streams which whoever starts the tool has closed."""
    if rng.random() < 0.05:
        j["closed"] = sorted(rng.sample([0, 1, 2], rng.choice([1, 1, 2])))


def missing_stream(sc):
    """Whether the run needs a stream which is closed."""
    closed = sc.get("closed", ())
    return (0 in closed and sc.get("src") in ("pipe", "redirect", "dash") or
            1 in closed and sc.get("dst") in ("pipe", "redirect", "dash"))


def io_config(rng):
    c = {}
    r = rng.random()
    if r < 0.3:
        return c
    if rng.random() < 0.6:
        c["r"] = [rng.choice([1, 2, 3, 7, 64, 100, 0, 4096]) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.6:
        c["w"] = [rng.choice([5, 7, 64, 100, 1000, 0, 0]) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.5:
        c["buf"] = rng.choice([16, 64, 256, 1024, 4096, 65536])
    if c.get("r") and max(c["r"]) < 16 and 0 not in c["r"]:
        c["r"].append(64)
    if c.get("w") and 0 not in c["w"] and max(c["w"]) < 64:
        c["w"].append(64)
    return c


# ---------------------------------------------------------------------------
def make(sc, faults=(), trace=None, observer=None, line_limit=None):
    """Builds kernel and process of a scenario."""
    k = simos.Kernel(faults=faults, max_steps=400000)
    d = k.disk
    data = encode(sc["program"], sc.get("eol", "\n"), sc.get("final", True))
    tool = sc["tool"]
    src, dst = sc.get("src", "file"), sc.get("dst", "pipe")
    if "data" in sc:
        data = sc["data"].encode("latin-1")
    plugin = tool in loader.PLUGINS
    mode = sc.get("mode", 0o644)
    own = RPATH
    if src == "file":
        if sc.get("linked"):
            own = put_link(d, sc["linked"], RPATH, "own.gcode")
        d.put(own, data, mode if dst in ("inplace", "-i") else 0o644)
    old = (sc.get("old") or OLD).encode()
    if dst in ("old", "olddir"):
        d.put(DESTS[dst], old, mode)
    target = None
    if dst == "link":
        target = put_link(d, sc.get("link"), DESTS[dst], "target.gcode")
        d.put(target, old, mode)
    fifo = bytearray()
    if dst == "fifo":
        d.fifo(DESTS[dst], fifo)
    if sc.get("hard"):
        for n, path in enumerate(sorted(set([RPATH, own, DESTS.get(dst) or RPATH, target or RPATH]))):
            ino = d.names.get(path)
            if ino is not None and ino.kind == "file":
                d.hardlink(path, path.rsplit("/", 1)[0] + "/hard%d.gcode" % n)
    for name in ("/work/other.gcode", "/out/other.txt", "/tmp/other"):
        d.put(name, b"; belongs to somebody else\n")
    # what users and other programs leave beside the files they work on
    for path in sorted(set([RPATH, own, DESTS.get(dst) or RPATH, target or RPATH])):
        if not path.startswith("/dev/"):
            head, tail = path.rsplit("/", 1)
            for form in NEIGHBOURS:
                d.put(head + "/" + form % tail, b"; an older one\n")
    args = list(sc.get("args", []))
    positional = list(sc.get("positional", []))

    def name(p):
        return p[len("/work/"):] if sc.get("relative_names") and p.startswith("/work/") else p
    dest_path = None
    if not plugin:
        if src == "file":
            positional.append(name(RPATH))
        elif src == "dash":
            positional.append("-")
        if dst in DESTS:
            positional.append(name(DESTS[dst]))
            dest_path = target or DESTS[dst]
            if dst in ("fifo", "full", "null"):
                dest_path = None
        elif dst == "inplace":
            positional.append(name(RPATH))
            dest_path = own
        elif dst == "-i":
            args.append("-i")
            dest_path = own
        elif dst == "dash":
            positional.append("-")
        if sc.get("dash_i"):
            args.append("-i")
    else:
        dest_path = own
    argv = args + positional if sc.get("spell") is None else spelled(sc["spell"], args, positional)
    p = simos.Proc(k, 0, [tool] + argv, sc.get("io"))
    p.umask = sc.get("umask", 0o022)
    if src in ("pipe", "dash"):
        p.fds[0] = simos.OpenFile(source=[bytearray(data)])
    elif src == "redirect":
        d.put("/work/stdin.gcode", data)
        p.fds[0] = simos.OpenFile(d.names["/work/stdin.gcode"])
    else:
        p.fds[0] = simos.OpenFile(d.names["/dev/null"])
    if dst == "redirect":
        d.put("/work/stdout.gcode", b"")
        dest_path = "/work/stdout.gcode"
        p.fds[1] = simos.OpenFile(d.names[dest_path], readable=False, writable=True)
    else:
        p.fds[1] = simos.OpenFile(sink=bytearray(), readable=False, writable=True)
    if sc.get("devfull"):
        p.fds[1] = simos.OpenFile(d.names["/dev/full"], readable=False, writable=True)
    p.fds[2] = simos.OpenFile(sink=bytearray(), readable=False, writable=True)
    k.procs = [p]
    k.observer = observer
    for fd in sc.get("closed", ()):
        p.shut[fd] = p.fds.pop(fd)
    k.sink = fifo if dst == "fifo" else p.stream(1).sink
    if trace:
        p.trace_faults = dict((int(n), kind) for n, kind in trace.items())
    p.line_limit = line_limit
    extra = dict(sc.get("extra") or {})
    if plugin:
        extra["filename"] = RPATH
    return k, p, dest_path, simos.tool_body(tool, extra)


def execute(sc, faults=None, trace=None, observer=None, line_limit=None):
    faults = sc.get("faults", ()) if faults is None else faults
    trace = sc.get("trace") if trace is None else trace
    k, p, dest_path, body = make(sc, faults, trace, observer, line_limit)
    r = Result()
    r.before = k.disk.snapshot()
    err = p.stream(2)
    simos.run_single(k, p, body)
    r.kernel, r.proc, r.dest_path = k, p, dest_path
    r.status, r.error = p.status, p.error
    r.err = bytes(err.sink)
    r.snap = k.disk.snapshot()
    if dest_path is None:
        r.out = bytes(k.sink) if k.sink is not None else b""
        r.dest = None
    else:
        r.dest = r.snap.get(dest_path, (None,))[0]
        r.out = r.dest
    r.calls = k.log
    r.violations = []
    return r


PLAIN = ("tool", "args", "positional", "extra", "program")


def reference(sc):
    """The same job with plain input and output and without any fault."""
    ref = dict((n, sc[n]) for n in PLAIN if n in sc)
    if "data" in sc:
        ref["data"] = sc["data"]
    plugin = sc["tool"] in loader.PLUGINS
    ref["src"], ref["dst"] = ("file", "inplace") if plugin else ("pipe", "pipe")
    return execute(ref, faults=(), trace={})


ERRORS = {
    "open": ["eacces", "emfile", "eio", "enospc"],
    "read": ["eio", "eintr"],
    "write": ["eio", "enospc", "eintr"],
    "close": ["eio"],
    "fsync": ["eio", "enospc"],
    "rename": ["eio", "eacces", "enospc"],
    "unlink": ["eio"],
    "chmod": ["eperm"],
    "link": ["eio"],
}


def place_faults(rng, calls, n=None, kinds=None, pid=0):
    """Faults for the system calls a run without faults made."""
    faults = []
    mine = [c for c in calls if c[0] == pid]
    if not mine:
        return faults
    n = n if n is not None else rng.choice([1, 1, 1, 2, 3])
    classes = sorted(set(c[2] for c in mine))
    for _ in range(n):
        if rng.random() < 0.6:
            cls = rng.choice(classes)
            c = rng.choice([c for c in mine if c[2] == cls])
        else:
            c = rng.choice(mine)
        k, name = c[1], c[2]
        r = rng.random()
        options = list(ERRORS.get(name, []))
        options += ["kill", "power", "int", "full", "reader_gone"]
        if kinds is not None:
            options = [o for o in options if o in kinds]
        if not options:
            continue
        kind = rng.choice(options)
        f = {"at": k, "kind": kind, "p": pid}
        if kind in ("kill", "power", "int"):
            f["when"] = rng.choice(["before", "after"])
        if kind == "power":
            f["meta"] = rng.choice([None, None, 0, 1, 2, 3, 4])
            f["mode"] = rng.choice(["none", "none", "prefix", "subset"])
            f["seed"] = rng.randint(0, 10 ** 6)
        if kind == "full":
            f["n"] = rng.choice([0, 0, 1, 10, 100, 1000, rng.randint(0, 5000)])
        faults.append(f)
    return faults
