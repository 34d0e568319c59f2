# encoding: utf-8
"""What the properties about single tool runs share."""
import copy
import random

from .. import loader, procsim, shrink
from ..core import Outcome, digest

REAL = ["all of gcodeutils (tools, library, output.py) and the Cura plugins, in fresh module copies",
        "argparse, tempfile, logging, io.TextIOWrapper and io.Buffered* of CPython"]
STUB = ["system calls (open, read, write, close, fsync, rename, unlink, chmod, stat, ...), file system and page cache",
        "pipes and standard streams", "clock", "process death and interpreter exit"]
ASSUMPTIONS = ["looking up names (stat, lstat, readlink) does not fail transiently",
               "the file system keeps a rename atomic and keeps name operations in order across power loss",
               "fsync makes the data of a file durable; data not synchronised may be lost in any subset",
               "locale encoding is UTF-8"]
MEASURE = "distinct (tool, transport, fault kinds with the system call each one hit, exit status) combinations"


def setup(tier):
    loader.install()
    loader.preload()


def fault_key(sc, r):
    names = dict(((c[0], c[1]), c[2]) for c in r.calls)
    return sorted("%s@%s%d" % (f["kind"], names.get((f.get("p", 0), f["at"]), "-"), min(f["at"], 60))
                  for f in sc.get("faults", ()))


def signature(sc, r):
    return digest([sc["tool"], sc.get("src"), sc.get("dst"), fault_key(sc, r), sorted((sc.get("trace") or {}).items()),
                   str(r.status)])


def dry(sc):
    return procsim.execute(sc, faults=(), trace={})


def count_lines(sc):
    r = procsim.execute(sc, faults=(), trace={-1: "none"})
    return r.proc.lines


def shrink_job(sc):
    for c in shrink.drop_chunks(list(sc.get("faults", ()))):
        yield dict(sc, faults=c)
    if sc.get("trace"):
        yield dict(sc, trace={})
    for c in shrink.edits(sc, ("program",), (("io", {}), ("umask", 0o022), ("mode", 0o644), ("relative_names", False), ("spell", None),
                                             ("eol", "\n"), ("final", True))):
        yield c
    for i, a in enumerate(sc.get("args", ())):
        if a in ("-q", "-v", "-e"):
            yield dict(sc, args=sc["args"][:i] + sc["args"][i + 1:])
        elif a in ("-x", "-y", "-p", "--stretch_strength"):
            yield dict(sc, args=sc["args"][:i] + sc["args"][i + 2:])
    fs = list(sc.get("faults", ()))
    for i, f in enumerate(fs):
        if f["at"] > 0:
            for at in (f["at"] // 2, f["at"] - 1):
                yield dict(sc, faults=fs[:i] + [dict(f, at=at)] + fs[i + 1:])


def trace_of(r):
    return ["%d %s %s" % (c[1], c[2], c[3]) for c in r.calls[-60:]] + ["exit %s %s" % (r.status, r.error or "")]
