"""A simulated operating system below Python's own text and buffer layers.

Names, inodes, page cache, durable state, pipes, standard streams, processes and
their scheduling live here.  Every system call of a simulated process is
numbered; faults are attached to these numbers, so that a scenario fully
decides an execution.
"""
import builtins
import errno
import fcntl
import gc
import io
import logging
import os
import random
import signal
import stat as statmod
import sys
import tempfile
import threading
import time

from . import loader

SIM_ROOTS = ("/work", "/tmp", "/dev", "/out")
DEFAULT_BUF = 8192


class SimCrash(BaseException):
    """The process is gone; nothing it does from now on has any effect."""


class SimAbort(BaseException):
    """The simulation as a whole is stopped (deadlock, step limit)."""


class SimHang(BaseException):
    """A step budget was exceeded."""


def oserr(num, path=None):
    if path is None:
        return OSError(num, os.strerror(num))
    return OSError(num, os.strerror(num), path)


class Inode(object):
    counter = 0

    def __init__(self, ino, kind="file", data=b"", mode=0o644):
        self.ino = ino
        self.kind = kind              # file, full, null, dir
        self.data = bytearray(data)
        self.durable = bytes(data)
        self.pending = []             # ("w", off, bytes) / ("t", size)
        self.mode = mode
        self.target = None            # symbolic links

    def synced(self):
        self.durable = bytes(self.data)
        self.pending = []

    def lose_pending(self):
        """Write-back failed: what was not durable is gone."""
        self.data = bytearray(self.durable)
        self.pending = []


def apply_ops(base, ops):
    data = bytearray(base)
    for op in ops:
        if op[0] == "t":
            size = op[1]
            if size < len(data):
                del data[size:]
            else:
                data.extend(b"\0" * (size - len(data)))
        else:
            off, chunk = op[1], op[2]
            if off > len(data):
                data.extend(b"\0" * (off - len(data)))
            data[off:off + len(chunk)] = chunk
    return data


class Disk(object):
    def __init__(self):
        self.names = {}
        self.inodes = {}
        self.next_ino = 100
        self.journal = []
        self.free = None              # bytes left when the disk is filling up
        for d in ("/", "/work", "/tmp", "/dev", "/out"):
            self.names[d] = self.new_inode("dir", mode=0o755)
        self.names["/dev/full"] = self.new_inode("full", mode=0o666)
        self.names["/dev/null"] = self.new_inode("null", mode=0o666)
        self.base = dict(self.names)

    def new_inode(self, kind="file", data=b"", mode=0o644):
        ino = Inode(self.next_ino, kind, data, mode)
        self.inodes[self.next_ino] = ino
        self.next_ino += 1
        return ino

    def put(self, path, data, mode=0o644):
        """Initial content, durable."""
        ino = self.new_inode("file", data, mode)
        self.names[path] = ino
        self.base[path] = ino

    def symlink(self, path, target):
        ino = self.new_inode("link", target.encode(), 0o777)
        ino.target = target
        self.names[path] = self.base[path] = ino

    def hardlink(self, path, other):
        """One more name of a file."""
        self.names[other] = self.base[other] = self.names[path]

    def fifo(self, path, sink):
        """Somebody reads the other end into `sink`."""
        ino = self.new_inode("fifo", b"", 0o644)
        ino.pipe_sink = sink
        self.names[path] = self.base[path] = ino

    def mkdir(self, path, mode=0o755):
        self.names[path] = self.base[path] = self.new_inode("dir", mode=mode)

    def note(self, *op):
        self.journal.append(op)

    def snapshot(self):
        """Everything but directories: content, permission bits, kind."""
        return dict((p, (bytes(i.data), i.mode, i.kind)) for p, i in self.names.items() if i.kind != "dir")

    def power_loss(self, meta, mode, seed):
        """Rebuild the disk from its durable state: the first `meta` name
        operations and a subset of the unsynchronised data survived."""
        rng = random.Random(seed)
        names = dict(self.base)
        for op in self.journal[:meta]:
            if op[0] == "create":
                names[op[1]] = op[2]
            elif op[0] == "rename":
                names[op[2]] = names.pop(op[1], op[3])
            elif op[0] == "unlink":
                names.pop(op[1], None)
            elif op[0] == "chmod":
                pass
        self.names = names
        seen = set()
        for ino in sorted(set(names.values()), key=lambda i: i.ino):
            if ino.kind != "file" or ino.ino in seen:
                continue
            seen.add(ino.ino)
            if mode == "none":
                kept = []
            elif mode == "prefix":
                n = rng.randint(0, len(ino.pending))
                kept = ino.pending[:n]
                if n < len(ino.pending) and ino.pending[n][0] == "w" and rng.random() < 0.5:
                    op = ino.pending[n]
                    kept = kept + [("w", op[1], op[2][:rng.randint(0, len(op[2]))])]
            else:
                kept = [op for op in ino.pending if rng.random() < 0.5]
            ino.data = apply_ops(ino.durable, kept)
            ino.synced()
        self.base = dict(self.names)
        self.journal = []


class Pipe(object):
    def __init__(self, cap, data=b""):
        self.buf = bytearray(data)
        self.cap = cap
        self.readers = 0
        self.writers = 0
        self.total_in = 0
        self.all = bytearray(data)    # everything ever written
        self.reader_gone_after = None  # external reader which goes away


class OpenFile(object):
    def __init__(self, inode=None, pipe=None, end=None, path=None, readable=True, writable=False, append=False,
                 sink=None, source=None):
        self.inode = inode
        self.pipe = pipe
        self.end = end
        self.path = path
        self.readable = readable
        self.writable = writable
        self.append = append
        self.sink = sink              # bytearray: external consumer
        self.source = source          # [bytearray]: external producer
        self.pos = 0
        self.refs = 1


class Proc(object):
    def __init__(self, kernel, pid, argv, io_cfg=None):
        self.kernel = kernel
        self.pid = pid
        self.argv = argv
        io_cfg = io_cfg or {}
        self.rsizes = io_cfg.get("r") or []
        self.wsizes = io_cfg.get("w") or []
        self.bufsize = io_cfg.get("buf") or DEFAULT_BUF
        self.lat = io_cfg.get("lat") or 1
        self.nread = self.nwrite = 0
        self.fds = {}
        self.next_fd = 1000
        self.nsys = 0
        self.dead = None              # None, "kill", "power"
        self.status = None
        self.error = None
        self.umask = 0o022
        self.trace_faults = {}
        self.line_limit = None
        self.lines = 0
        self.created_fault = False
        self.cleanup_fault = False
        self.line_fault_fired = False
        self.fault_in_output = False
        self.int_fired = False
        self.done = False
        self.wait = None
        self.sem = None
        self.thread = None
        self.ctx = None
        self.out_accepted = 0
        self.signals = {}
        self.shut = {}                # standard streams which were closed before the process began
        self.exit_code = None

    def stream(self, fd):
        return self.shut.get(fd) or self.fds[fd]

    def fd_of(self, fd):
        f = self.fds.get(fd)
        if f is None:
            raise oserr(errno.EBADF)
        return f

    def add_fd(self, openfile, fd=None):
        if fd is None:
            fd = self.next_fd
            self.next_fd += 1
        self.fds[fd] = openfile
        return fd


class Kernel(object):
    def __init__(self, faults=(), record=True, max_steps=200000, schedule=None):
        self.disk = Disk()
        self.procs = []
        self.current = None
        self.steps = 0
        self.clock = 0.0
        self.max_steps = max_steps
        self.log = []
        self.record = record
        self.fired = {}
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f.get("p", 0), f["at"]), []).append(f)
        self.observer = None
        self.same_names = False
        self.escapes = []
        self.violations = []
        self.schedule = list(schedule or [])
        self.sched_rng = None
        self.sched_trace = []
        self.multi = False
        self.stopping = None
        self.stalled = {}
        self.switches = 0

    # -- faults ---------------------------------------------------------
    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    BENIGN = ("short read", "short write", "eintr", "stall")

    def fired_faults(self):
        return [k for k in sorted(self.fired) if k not in self.BENIGN]

    def enter(self, name, detail=""):
        """Entry of a system call: schedule point, fault look-up."""
        p = self.current
        if p.dead:
            raise SimCrash(p.dead)
        if self.multi:
            self.yield_point(p)
            p = self.current
            if p.dead:
                raise SimCrash(p.dead)
        self.steps += 1
        self.clock += 0.0001 * p.lat
        if self.steps > self.max_steps:
            self.stopping = "steps"
            raise SimAbort("steps")
        k = p.nsys
        p.nsys += 1
        if self.record:
            self.log.append((p.pid, k, name, detail))
        fs = self.faults.get((p.pid, k), ())
        after = None
        chosen = None
        for f in fs:
            kind = f["kind"]
            if kind in ("kill", "power"):
                if f.get("when", "before") == "before":
                    self.die(p, f)
                after = f
            elif kind == "int":
                if f.get("when", "before") == "before":
                    self.interrupt(p)
                else:
                    after = f
            elif kind == "full":
                self.disk.free = f.get("n", 0)
            elif kind == "reader_gone":
                for of in p.fds.values():
                    if of.sink is not None:
                        of.sink_closed = True
            elif kind == "stall":
                self.stalled[p.pid] = self.steps + f.get("n", 50)
                self.fire("stall")
            elif kind == "eintr":
                self.fire("eintr")          # the call is restarted, as CPython does
                self.steps += 1
            else:
                chosen = f
        return chosen, after

    def leave(self, after):
        """Exit of a system call: invariants hold at every instant."""
        if self.observer is not None:
            self.observer(self)
        if after is not None:
            p = self.current
            if after["kind"] == "int":
                self.interrupt(p)
            else:
                self.die(p, after)

    def interrupt(self, p):
        self.fire("sigint")
        p.int_fired = True
        handler = p.signals.get(signal.SIGINT, signal.default_int_handler)
        if handler == signal.SIG_DFL:
            p.exit_code = 130
            self.vanish(p, "signal")
        if handler != signal.SIG_IGN:
            handler(signal.SIGINT, None)

    def vanish(self, p, how):
        """The process ends at once, without flushing anything."""
        p.dead = how
        self.close_all(p)
        raise SimCrash(how)

    def broken_pipe(self, p):
        self.fire("EPIPE")
        if p.signals.get(signal.SIGPIPE, signal.SIG_IGN) == signal.SIG_DFL:
            p.exit_code = 141
            self.vanish(p, "signal")
        raise oserr(errno.EPIPE)

    def die(self, p, f):
        kind = f["kind"]
        p.dead = kind
        self.fire(kind)
        if kind == "power":
            n = len(self.disk.journal)
            meta = n if f.get("meta") is None else min(n, f["meta"])
            self.disk.power_loss(meta, f.get("mode", "none"), f.get("seed", 0))
        else:
            self.close_all(p)
        raise SimCrash(kind)

    def close_all(self, p):
        for of in dict((id(p.fds[fd]), p.fds[fd]) for fd in sorted(p.fds)).values():
            self.release(of)
        p.fds = {}

    def release(self, of):
        of.refs -= 1
        if of.refs == 0 and of.pipe is not None:
            if of.end == "r":
                of.pipe.readers -= 1
            else:
                of.pipe.writers -= 1

    def apply_err(self, chosen, allowed):
        """Raise the error of a fault when it is one this call can return."""
        if chosen is None:
            return None
        kind = chosen["kind"]
        if kind in allowed:
            self.fire(allowed[kind][0])
            return allowed[kind][1]
        return None

    # -- paths ----------------------------------------------------------
    def norm(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = "/work/" + path
        parts = []
        for c in path.split("/"):
            if c in ("", "."):
                continue
            if c == "..":
                if parts:
                    parts.pop()
            else:
                parts.append(c)
        return "/" + "/".join(parts)

    def follow(self, path):
        """Absolute name of what the path means, links resolved."""
        path = self.norm(path)
        for _ in range(8):
            ino = self.disk.names.get(path)
            if ino is None or ino.kind != "link":
                return path
            path = self.norm(ino.target if ino.target.startswith("/")
                             else os.path.dirname(path) + "/" + ino.target)
        raise oserr(errno.ELOOP, path)

    @staticmethod
    def device(path):
        """File systems are mounted on the top-level directories."""
        return path.split("/")[1]

    # -- calls ----------------------------------------------------------
    def sys_open(self, path, flags, mode=0o777):
        creating = bool(flags & os.O_CREAT)
        path = self.norm(path) if creating and flags & os.O_EXCL else self.follow(path)
        p = self.current
        chosen, after = self.enter("open", "%s %s" % (path, "w" if flags & (os.O_WRONLY | os.O_RDWR) else "r"))
        num = self.apply_err(chosen, {"eacces": ("open:EACCES", errno.EACCES), "emfile": ("open:EMFILE", errno.EMFILE),
                                      "eio": ("open:EIO", errno.EIO), "enospc": ("open:ENOSPC", errno.ENOSPC)})
        if num is not None and (num != errno.ENOSPC or creating):
            raise oserr(num, path)
        ino = self.disk.names.get(path)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        readable = acc in (os.O_RDONLY, os.O_RDWR)
        writable = acc in (os.O_WRONLY, os.O_RDWR)
        if ino is None:
            if not creating:
                raise oserr(errno.ENOENT, path)
            parent = self.disk.names.get(os.path.dirname(path))
            if parent is None or parent.kind != "dir":
                raise oserr(errno.ENOENT, path)
            if not parent.mode & 0o200:
                raise oserr(errno.EACCES, path)
            if self.disk.free is not None and self.disk.free <= 0:
                self.fire("ENOSPC")
                raise oserr(errno.ENOSPC, path)
            ino = self.disk.new_inode("file", b"", mode & ~p.umask & 0o7777)
            self.disk.names[path] = ino
            self.disk.note("create", path, ino)
        else:
            if creating and flags & os.O_EXCL:
                raise oserr(errno.EEXIST, path)
            if ino.kind == "dir":
                if writable or not flags & getattr(os, "O_DIRECTORY", 0):
                    if writable:
                        raise oserr(errno.EISDIR, path)
            if ino.kind == "file":
                if (readable and not ino.mode & 0o400) or (writable and not ino.mode & 0o200):
                    raise oserr(errno.EACCES, path)
                if writable and flags & os.O_TRUNC:
                    if len(ino.data):
                        del ino.data[:]
                        ino.pending.append(("t", 0))
        of = OpenFile(ino, path=path, readable=readable, writable=writable, append=bool(flags & os.O_APPEND))
        if ino.kind == "fifo":
            of.sink = ino.pipe_sink
        fd = p.add_fd(of)
        if creating and after is not None and after["kind"] == "int":
            p.created_fault = True
        self.leave(after)
        return fd

    def sys_read(self, fd, n):
        p = self.current
        of = p.fd_of(fd)
        chosen, after = self.enter("read", of.path or str(fd))
        num = self.apply_err(chosen, {"eio": ("read:EIO", errno.EIO)})
        if num is not None:
            raise oserr(num)
        if not of.readable:
            raise oserr(errno.EBADF)
        if n > 0 and p.rsizes:
            limit = p.rsizes[p.nread % len(p.rsizes)]
            p.nread += 1
            if limit and limit < n:
                n = limit
                self.fire("short read")
        if of.source is not None:
            data = bytes(of.source[0][:n])
            del of.source[0][:n]
        elif of.pipe is not None:
            pipe = of.pipe
            if not pipe.buf and pipe.writers > 0:
                self.block(p, lambda: pipe.buf or pipe.writers <= 0)
            data = bytes(pipe.buf[:n])
            del pipe.buf[:n]
        else:
            ino = of.inode
            if ino.kind == "dir":
                raise oserr(errno.EISDIR)
            if ino.kind == "full":
                data = b"\0" * n
            else:
                data = bytes(ino.data[of.pos:of.pos + n])
                of.pos += len(data)
        self.leave(after)
        return data

    def sys_write(self, fd, data):
        p = self.current
        of = p.fd_of(fd)
        data = bytes(data)
        chosen, after = self.enter("write", of.path or str(fd))
        num = self.apply_err(chosen, {"eio": ("write:EIO", errno.EIO), "enospc": ("write:ENOSPC", errno.ENOSPC)})
        if num is not None:
            raise oserr(num)
        if not of.writable:
            raise oserr(errno.EBADF)
        if data and p.wsizes:
            limit = p.wsizes[p.nwrite % len(p.wsizes)]
            p.nwrite += 1
            if limit and limit < len(data):
                data = data[:limit]
                self.fire("short write")
        if of.sink is not None:
            if chosen is not None and chosen["kind"] == "epipe":
                of.sink_closed = True
            if getattr(of, "sink_closed", False):
                self.broken_pipe(p)
            of.sink.extend(data)
            p.out_accepted += len(data) if fd == 1 else 0
        elif of.pipe is not None:
            pipe = of.pipe
            while True:
                if pipe.readers <= 0:
                    self.broken_pipe(p)
                room = pipe.cap - len(pipe.buf)
                if room > 0 or not data:
                    break
                self.block(p, lambda: pipe.readers <= 0 or pipe.cap > len(pipe.buf))
            data = data[:room]
            pipe.buf.extend(data)
            pipe.total_in += len(data)
            pipe.all.extend(data)
            p.out_accepted += len(data) if fd == 1 else 0
        else:
            ino = of.inode
            if ino.kind == "full":
                self.fire("ENOSPC")
                raise oserr(errno.ENOSPC)
            if ino.kind == "file":
                if self.disk.free is not None and data:
                    if self.disk.free <= 0:
                        self.fire("ENOSPC")
                        raise oserr(errno.ENOSPC)
                    if len(data) > self.disk.free:
                        data = data[:self.disk.free]
                    self.disk.free -= len(data)
                if of.append:
                    of.pos = len(ino.data)
                op = ("w", of.pos, data)
                ino.data = apply_ops(ino.data, [op])
                ino.pending.append(op)
                of.pos += len(data)
        self.leave(after)
        return len(data)

    def sys_close(self, fd):
        p = self.current
        of = p.fd_of(fd)
        chosen, after = self.enter("close", of.path or str(fd))
        del p.fds[fd]
        num = self.apply_err(chosen, {"eio": ("close:EIO", errno.EIO)})
        if of in p.fds.values():        # duplicated
            self.leave(after)
            return
        if num is not None and of.writable and of.inode is not None and of.inode.kind == "file":
            of.inode.lose_pending()
        self.release(of)
        self.leave(after)
        if num is not None:
            raise oserr(num)

    def sys_dup(self, fd, to=None):
        p = self.current
        of = p.fd_of(fd)
        chosen, after = self.enter("dup", "%s %s" % (fd, to))
        old = p.fds.get(to)
        if old is not of:
            fd = p.add_fd(of, to)
            if old is not None and old not in p.fds.values():
                self.release(old)
        self.leave(after)
        return fd

    def sys_fsync(self, fd):
        p = self.current
        of = p.fd_of(fd)
        chosen, after = self.enter("fsync", of.path or str(fd))
        if of.inode is None or of.inode.kind not in ("file", "dir"):
            raise oserr(errno.EINVAL)
        num = self.apply_err(chosen, {"eio": ("fsync:EIO", errno.EIO), "enospc": ("fsync:ENOSPC", errno.ENOSPC)})
        if num is not None:
            of.inode.lose_pending()
            self.leave(after)
            raise oserr(num)
        of.inode.synced()
        self.leave(after)

    def sys_rename(self, a, b):
        a, b = self.norm(a), self.norm(b)
        chosen, after = self.enter("rename", "%s -> %s" % (a, b))
        num = self.apply_err(chosen, {"eio": ("rename:EIO", errno.EIO), "eacces": ("rename:EACCES", errno.EACCES),
                                      "enospc": ("rename:ENOSPC", errno.ENOSPC)})
        if num is not None:
            raise oserr(num, a)
        ino = self.disk.names.get(a)
        if ino is None or os.path.dirname(b) not in self.disk.names:
            raise oserr(errno.ENOENT, a)
        if self.device(a) != self.device(b):
            raise oserr(errno.EXDEV, a)
        old = self.disk.names.get(b)
        if old is not None and old.kind == "dir":
            raise oserr(errno.EISDIR, a)
        if any(not self.disk.names[os.path.dirname(x)].mode & 0o200 for x in (a, b)):
            raise oserr(errno.EACCES, a)
        if a != b:
            del self.disk.names[a]
            self.disk.names[b] = ino
            self.disk.note("rename", a, b, ino)
        self.leave(after)

    def sys_link(self, a, b):
        a, b = self.norm(a), self.norm(b)
        chosen, after = self.enter("link", "%s -> %s" % (a, b))
        num = self.apply_err(chosen, {"eio": ("link:EIO", errno.EIO), "eacces": ("link:EACCES", errno.EACCES)})
        if num is not None:
            raise oserr(num, a)
        if a not in self.disk.names:
            raise oserr(errno.ENOENT, a)
        if b in self.disk.names:
            raise oserr(errno.EEXIST, b)
        self.disk.names[b] = self.disk.names[a]
        self.disk.note("create", b, self.disk.names[a])
        self.leave(after)

    def sys_symlink(self, target, path):
        path = self.norm(path)
        chosen, after = self.enter("symlink", "%s -> %s" % (path, target))
        if path in self.disk.names:
            raise oserr(errno.EEXIST, path)
        ino = self.disk.new_inode("link", os.fsencode(target), 0o777)
        ino.target = os.fspath(target)
        self.disk.names[path] = ino
        self.disk.note("create", path, ino)
        self.leave(after)

    def sys_unlink(self, path):
        path = self.norm(path)
        try:
            chosen, after = self.enter("unlink", path)
        except KeyboardInterrupt:
            # interrupted again while it cleaned up after an error
            self.current.cleanup_fault = True
            raise
        num = self.apply_err(chosen, {"eio": ("unlink:EIO", errno.EIO), "eacces": ("unlink:EACCES", errno.EACCES)})
        if num is not None:
            self.current.cleanup_fault = True
            raise oserr(num, path)
        ino = self.disk.names.get(path)
        if ino is None:
            raise oserr(errno.ENOENT, path)
        if ino.kind == "dir":
            raise oserr(errno.EISDIR, path)
        del self.disk.names[path]
        self.disk.note("unlink", path)
        self.leave(after)

    def sys_mkdir(self, path, mode=0o777):
        path = self.norm(path)
        chosen, after = self.enter("mkdir", path)
        if path in self.disk.names:
            raise oserr(errno.EEXIST, path)
        ino = self.disk.new_inode("dir", b"", mode & ~self.current.umask)
        self.disk.names[path] = ino
        self.disk.note("create", path, ino)
        self.leave(after)

    def sys_rmdir(self, path):
        path = self.norm(path)
        chosen, after = self.enter("rmdir", path)
        if path not in self.disk.names:
            raise oserr(errno.ENOENT, path)
        if any(n.startswith(path + "/") for n in self.disk.names):
            raise oserr(errno.ENOTEMPTY, path)
        del self.disk.names[path]
        self.disk.note("unlink", path)
        self.leave(after)

    def sys_chmod(self, target, mode):
        if isinstance(target, int):
            of = self.current.fd_of(target)
            ino, path = of.inode, of.path
        else:
            path = self.follow(target)
            ino = self.disk.names.get(path)
        chosen, after = self.enter("chmod", "%s %o" % (path, mode))
        num = self.apply_err(chosen, {"eperm": ("chmod:EPERM", errno.EPERM), "eio": ("chmod:EIO", errno.EIO)})
        if num is not None:
            raise oserr(num, path)
        if ino is None:
            raise oserr(errno.ENOENT, path)
        ino.mode = mode & 0o7777
        self.disk.note("chmod", path, mode)
        self.leave(after)

    def sys_truncate(self, target, size):
        if isinstance(target, int):
            ino = self.current.fd_of(target).inode
        else:
            ino = self.disk.names.get(self.follow(target))
        chosen, after = self.enter("truncate", str(size))
        if ino is None:
            raise oserr(errno.ENOENT)
        ino.data = apply_ops(ino.data, [("t", size)])
        ino.pending.append(("t", size))
        self.leave(after)

    def sys_readlink(self, path):
        path = self.norm(path)
        chosen, after = self.enter("readlink", path)
        ino = self.disk.names.get(path)
        self.leave(after)
        if ino is None:
            raise oserr(errno.ENOENT, path)
        if ino.kind != "link":
            raise oserr(errno.EINVAL, path)
        return ino.target

    def sys_stat(self, target, follow=True):
        if isinstance(target, int):
            of = self.current.fd_of(target)
            ino = of.inode
            path = of.path or str(target)
        else:
            path = self.follow(target) if follow else self.norm(target)
            ino = self.disk.names.get(path)
        chosen, after = self.enter("stat", path)
        if ino is None:
            if isinstance(target, int):
                res = (statmod.S_IFIFO | 0o600, target, 1, 1, 0, 0, 0, 0, 0, 0)
                self.leave(after)
                return os.stat_result(res)
            raise oserr(errno.ENOENT, path)
        fmt = {"file": statmod.S_IFREG, "dir": statmod.S_IFDIR, "fifo": statmod.S_IFIFO, "link": statmod.S_IFLNK}.get(ino.kind, statmod.S_IFCHR)
        t = int(1500000000 + self.clock)
        links = sum(1 for i in self.disk.names.values() if i is ino)
        res = os.stat_result((fmt | ino.mode, ino.ino, 1, links, 0, 0, len(ino.data), t, t, t))
        self.leave(after)
        return res

    def sys_listdir(self, path):
        path = self.norm(path)
        chosen, after = self.enter("listdir", path)
        if path not in self.disk.names:
            raise oserr(errno.ENOENT, path)
        pre = path.rstrip("/") + "/"
        res = sorted(n[len(pre):] for n in self.disk.names if n.startswith(pre) and "/" not in n[len(pre):] and n != path)
        self.leave(after)
        return res

    # -- scheduling of several processes ----------------------------------
    def runnable(self):
        out = []
        for p in self.procs:
            if p.done:
                continue
            if p.wait is not None and not p.wait():
                continue
            out.append(p)
        awake = [p for p in out if self.stalled.get(p.pid, 0) <= self.steps]
        return awake or out

    def pick(self, current):
        cand = self.runnable()
        if not cand:
            return None
        ids = [p.pid for p in cand]
        n = len(self.sched_trace)
        if n < len(self.schedule):
            want = self.schedule[n]
        elif self.sched_rng is not None:
            r = self.sched_rng
            want = r.choice(ids) if r.random() < self.sched_rate else (current.pid if current is not None else ids[0])
        else:
            want = current.pid if current is not None else ids[0]
        if want not in ids:
            want = current.pid if current is not None and current.pid in ids else ids[0]
        self.sched_trace.append(want)
        return self.procs[want]

    def yield_point(self, p):
        if self.stopping:
            raise SimAbort(self.stopping)
        nxt = self.pick(p)
        if nxt is not p:
            self.handover(p, nxt)

    def block(self, p, cond):
        if not self.multi:
            raise SimAbort("blocked forever")
        p.wait = cond
        while not cond():
            nxt = self.pick(None)
            if nxt is None:
                self.stopping = "deadlock"
                raise SimAbort("deadlock")
            if nxt is not p:
                self.handover(p, nxt)
            if self.stopping:
                raise SimAbort(self.stopping)
        p.wait = None

    def handover(self, p, nxt):
        self.switches += 1
        p.ctx = Context.capture()
        self.current = nxt
        nxt.sem.release()
        p.sem.acquire()
        p.ctx.restore()
        if self.stopping:
            raise SimAbort(self.stopping)


class Context(object):
    """Interpreter-global state which belongs to one simulated process."""

    def __init__(self):
        self.argv = ["x"]
        self.stdin = self.stdout = self.stderr = None
        self.modules = {}
        self.handlers = []
        self.level = logging.WARNING
        self.path = list(sys.path)

    @staticmethod
    def capture():
        c = Context()
        c.argv = sys.argv
        c.stdin, c.stdout, c.stderr = sys.stdin, sys.stdout, sys.stderr
        c.modules = dict((n, m) for n, m in sys.modules.items() if loader.is_ours(n))
        c.handlers = logging.root.handlers[:]
        c.level = logging.root.level
        c.path = list(sys.path)
        return c

    def restore(self):
        sys.argv = self.argv
        sys.stdin, sys.stdout, sys.stderr = self.stdin, self.stdout, self.stderr
        loader.put_modules(self.modules)
        logging.root.handlers[:] = self.handlers
        if logging.root.level != self.level:
            logging.root.setLevel(self.level)
        sys.path[:] = self.path


class SimRaw(io.RawIOBase):
    """What FileIO is for real descriptors."""

    def __init__(self, kernel, fd, mode, name, closefd=True):
        self._k = kernel
        self._p = kernel.current
        self._fd = fd
        self.mode = mode
        self.name = name
        self._closefd = closefd

    def _of(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._p.fd_of(self._fd)

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return self._of().readable

    def writable(self):
        return self._of().writable

    def seekable(self):
        of = self._of()
        return of.inode is not None and of.inode.kind == "file"

    def isatty(self):
        return False

    def readinto(self, b):
        if not self._of().readable:
            raise io.UnsupportedOperation("File not open for reading")
        data = self._k.sys_read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if not self._of().writable:
            raise io.UnsupportedOperation("File not open for writing")
        if self._k.current is not self._p:
            return len(b)             # collected while another process runs
        return self._k.sys_write(self._fd, memoryview(b).cast("B") if not isinstance(b, bytes) else b)

    def seek(self, off, whence=0):
        of = self._of()
        if of.inode is None or of.inode.kind != "file":
            raise oserr(errno.ESPIPE)
        of.pos = off if whence == 0 else of.pos + off if whence == 1 else len(of.inode.data) + off
        return of.pos

    def tell(self):
        return self.seek(0, 1)

    def truncate(self, size=None):
        of = self._of()
        if size is None:
            size = of.pos
        self._k.sys_truncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        fd = self._fd
        super(SimRaw, self).close()
        if self._closefd and not self._p.done and fd in self._p.fds:
            if self._k.current is not self._p:
                self._k.release(self._p.fds.pop(fd))
                return
            self._k.sys_close(fd)


def make_open(kernel, real_open):
    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = kernel.current
        if p is None or (not isinstance(file, int) and not is_sim_path(file)):
            if p is not None and any(c in mode for c in "wax+"):
                kernel.escapes.append("open %r %s" % (file, mode))
                raise PermissionError(errno.EACCES, "outside of the simulation", file)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if isinstance(file, int) and file not in p.fds:
            raise oserr(errno.EBADF)
        modes = set(mode)
        if modes - set("axrwb+tU") or len(mode) > len(modes):
            raise ValueError("invalid mode: %r" % mode)
        creating, reading, writing, appending = "x" in modes, "r" in modes, "w" in modes, "a" in modes
        updating, text, binary = "+" in modes, "t" in modes, "b" in modes
        if "U" in modes:
            raise ValueError("invalid mode: %r" % mode)
        if creating + reading + writing + appending != 1:
            raise ValueError("must have exactly one of create/read/write/append mode")
        if text and binary:
            raise ValueError("can't have text and binary mode at once")
        flags = (os.O_RDWR if updating else os.O_RDONLY if reading else os.O_WRONLY) | os.O_CLOEXEC
        if creating:
            flags |= os.O_EXCL | os.O_CREAT
        elif writing:
            flags |= os.O_CREAT | os.O_TRUNC
        elif appending:
            flags |= os.O_CREAT | os.O_APPEND
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, flags)
        else:
            fd = kernel.sys_open(file, flags, 0o666)
        raw = SimRaw(kernel, fd, mode, file, closefd)
        of = p.fd_of(fd)
        if appending and of.inode is not None:
            of.pos = len(of.inode.data)
        line_buffering = False
        if buffering == 1 and not binary:
            buffering, line_buffering = -1, True
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = p.bufsize if buffering < 0 else buffering
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif reading:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        if encoding in (None, "locale"):
            encoding = "utf-8"
        text_io = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        text_io._CHUNK_SIZE = min(text_io._CHUNK_SIZE, size)
        text_io.mode = mode
        return text_io
    return sim_open


def is_sim_path(path):
    try:
        path = os.fspath(path)
    except TypeError:
        return False
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith("/"):
        return True
    return any(path == r or path.startswith(r + "/") for r in SIM_ROOTS)


class _Names(object):
    """Temporary names: never the same twice, or a sequence of its own for every process."""

    def __init__(self, kernel):
        self.kernel = kernel
        self.n = 0
        self.own = {}

    def __iter__(self):
        return self

    def __next__(self):
        if self.kernel.same_names:
            pid = self.kernel.current.pid
            self.own[pid] = self.own.get(pid, 0) + 1
            return "sim%05d" % self.own[pid]
        self.n += 1
        return "sim%05d" % self.n


class DirEntry(object):
    def __init__(self, kernel, path, name):
        self._k = kernel
        self.name = name
        self.path = os.path.join(path, name)

    def __fspath__(self):
        return self.path

    def stat(self, follow_symlinks=True):
        return self._k.sys_stat(self.path, follow_symlinks)

    def inode(self):
        return self.stat(False).st_ino

    def is_symlink(self):
        return statmod.S_ISLNK(self.stat(False).st_mode)

    def is_file(self, follow_symlinks=True):
        return statmod.S_ISREG(self.stat(follow_symlinks).st_mode)

    def is_dir(self, follow_symlinks=True):
        return statmod.S_ISDIR(self.stat(follow_symlinks).st_mode)


class ScanDir(object):
    def __init__(self, kernel, path):
        self.entries = iter([DirEntry(kernel, path, n) for n in kernel.sys_listdir(path)])

    def __iter__(self):
        return self.entries

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def close(self):
        pass


class Patches(object):
    """Puts the simulated calls in the place of the real ones."""

    def __init__(self, kernel):
        self.kernel = kernel
        self.saved = []

    def set(self, obj, name, value):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def __enter__(self):
        k = self.kernel
        real = {}
        opener = make_open(k, io.open)
        self.set(builtins, "open", opener)
        self.set(io, "open", opener)

        def by_path(name, fn, npaths=1):
            if not hasattr(os, name):
                return
            orig = getattr(os, name)

            def wrapper(*args, **kw):
                if k.current is None:
                    return orig(*args, **kw)
                a = args[0] if args else "."
                if isinstance(a, int) or is_sim_path(a):
                    return fn(*args, **kw)
                if name in ("open", "stat", "lstat", "access", "listdir", "readlink", "scandir"):
                    if name == "open" and len(args) > 1 and args[1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                        k.escapes.append("os.open %r" % (a,))
                        raise PermissionError(errno.EACCES, "outside of the simulation", a)
                    return orig(*args, **kw)
                k.escapes.append("os.%s %r" % (name, a))
                raise PermissionError(errno.EACCES, "outside of the simulation", a)
            self.set(os, name, wrapper)

        def noargs(name, fn):
            if hasattr(os, name):
                orig = getattr(os, name)
                self.set(os, name, lambda *a, **kw: orig(*a, **kw) if k.current is None else fn(*a, **kw))

        by_path("open", lambda path, flags, mode=0o777, dir_fd=None: k.sys_open(path, flags, mode))
        by_path("read", lambda fd, n: k.sys_read(fd, n))
        by_path("write", lambda fd, data: k.sys_write(fd, data))
        by_path("close", lambda fd: k.sys_close(fd))
        by_path("fsync", lambda fd: k.sys_fsync(fd if isinstance(fd, int) else fd.fileno()))
        by_path("fdatasync", lambda fd: k.sys_fsync(fd))
        by_path("rename", lambda a, b, **kw: k.sys_rename(a, b))
        by_path("replace", lambda a, b, **kw: k.sys_rename(a, b))
        by_path("link", lambda a, b, **kw: k.sys_link(a, b))
        by_path("unlink", lambda path, **kw: k.sys_unlink(path))
        by_path("remove", lambda path, **kw: k.sys_unlink(path))
        by_path("mkdir", lambda path, mode=0o777, **kw: k.sys_mkdir(path, mode))
        by_path("rmdir", lambda path, **kw: k.sys_rmdir(path))
        by_path("chmod", lambda path, mode, **kw: k.sys_chmod(path, mode))
        by_path("fchmod", lambda fd, mode: k.sys_chmod(fd, mode))
        by_path("chown", lambda *a, **kw: None)
        by_path("fchown", lambda *a, **kw: None)
        by_path("utime", lambda *a, **kw: None)
        by_path("truncate", lambda path, size: k.sys_truncate(path, size))
        by_path("ftruncate", lambda fd, size: k.sys_truncate(fd, size))
        by_path("stat", lambda path, follow_symlinks=True, **kw: k.sys_stat(path, follow_symlinks))
        by_path("lstat", lambda path, **kw: k.sys_stat(path, False))
        by_path("fstat", lambda fd: k.sys_stat(fd))
        by_path("listdir", lambda path=".": k.sys_listdir(path))
        by_path("scandir", lambda path=".": ScanDir(k, path))

        def access(path, mode, **kw):
            try:
                st = k.sys_stat(path)
            except OSError:
                return False
            return not (mode & os.W_OK and not st.st_mode & 0o200) and not (mode & os.R_OK and not st.st_mode & 0o400)
        by_path("access", access)

        by_path("readlink", lambda path, **kw: k.sys_readlink(path))

        def isatty(fd):
            return False
        by_path("isatty", isatty)
        by_path("dup", lambda fd: k.sys_dup(fd))
        by_path("dup2", lambda fd, to, inheritable=True: k.sys_dup(fd, to))
        by_path("symlink", lambda target, path, *a, **kw: k.sys_symlink(target, path))

        def leave_now(code=0):
            k.current.exit_code = code
            k.vanish(k.current, "exit")
        noargs("_exit", leave_now)

        def forbidden(module, name):
            orig = getattr(module, name, None)
            if orig is None:
                return

            def wrapper(*args, **kw):
                if k.current is None:
                    return orig(*args, **kw)
                k.escapes.append("%s.%s" % (module.__name__, name))
                raise PermissionError(errno.EACCES, "outside of the simulation")
            self.set(module, name, wrapper)
        for name in ("pipe", "pipe2", "mkfifo", "mknod", "fork", "forkpty", "kill", "killpg", "abort", "system", "popen",
                     "execv", "execve", "posix_spawn", "posix_spawnp", "chdir", "fchdir", "chroot", "copy_file_range",
                     "splice", "pwrite", "pread", "writev", "readv", "posix_fallocate", "setxattr", "nice", "setuid",
                     "setgid", "lchown", "memfd_create", "statvfs", "sched_setaffinity", "setsid"):
            forbidden(os, name)

        def locked(orig):
            return lambda *a, **kw: orig(*a, **kw) if k.current is None else 0
        for name in ("flock", "lockf"):
            self.set(fcntl, name, locked(getattr(fcntl, name)))

        real_signal, real_getsignal = signal.signal, signal.getsignal

        def usual(num):
            return {signal.SIGINT: signal.default_int_handler, signal.SIGPIPE: signal.SIG_IGN}.get(num, signal.SIG_DFL)

        def set_signal(num, handler):
            if k.current is None:
                return real_signal(num, handler)
            old = k.current.signals.get(num, usual(num))
            k.current.signals[num] = handler
            return old
        self.set(signal, "signal", set_signal)
        self.set(signal, "getsignal", lambda num: real_getsignal(num) if k.current is None
                 else k.current.signals.get(num, usual(num)))

        def lseek(fd, off, how):
            of = k.current.fd_of(fd)
            if of.inode is None:
                raise oserr(errno.ESPIPE)
            of.pos = off if how == 0 else of.pos + off if how == 1 else len(of.inode.data) + off
            return of.pos
        by_path("lseek", lseek)

        def sendfile(*a, **kw):
            raise oserr(errno.ENOTSOCK)
        by_path("sendfile", sendfile)

        def umask(m):
            old, k.current.umask = k.current.umask, m
            return old
        noargs("umask", umask)
        noargs("getcwd", lambda: "/work")
        noargs("getpid", lambda: 4000 + k.current.pid)
        noargs("urandom", lambda n: b"\x07" * n)
        noargs("sync", lambda: [i.synced() for i in k.disk.names.values()] and None)
        self.set(tempfile, "_name_sequence", _Names(k))
        self.set(tempfile, "tempdir", "/tmp")
        for name in ("time", "monotonic", "perf_counter"):
            orig = getattr(time, name)
            self.set(time, name, lambda orig=orig, name=name: orig() if k.current is None
                     else (1.5e9 if name == "time" else 0.0) + k.clock)
        real_sleep = time.sleep

        def sleep(s):
            if k.current is None:
                return real_sleep(s)
            k.enter("sleep", "%r" % s)
            k.clock += s
        self.set(time, "sleep", sleep)
        self.set(sys, "unraisablehook", lambda u: None)
        return self

    def __exit__(self, *exc):
        for obj, name, value in reversed(self.saved):
            setattr(obj, name, value)


def std_streams(kernel, p):
    def wrap(fd, mode, buf, **kw):
        raw = SimRaw(kernel, fd, mode, "<std%d>" % fd, closefd=False)
        raw._p = p
        stream = io.TextIOWrapper(buf(raw, p.bufsize), "utf-8", newline="\n", **kw)
        # small buffers stand for large programs: writes reach the system before the last line was printed
        stream._CHUNK_SIZE = min(stream._CHUNK_SIZE, p.bufsize)
        return stream
    ctx = Context()
    ctx.argv = list(p.argv)
    saved, kernel.current = kernel.current, p
    try:
        ctx.stdin = wrap(0, "r", io.BufferedReader) if 0 in p.fds else None
        ctx.stdout = wrap(1, "w", io.BufferedWriter) if 1 in p.fds else None
        ctx.stderr = wrap(2, "w", io.BufferedWriter, errors="backslashreplace", line_buffering=True) if 2 in p.fds else None
    finally:
        kernel.current = saved
    if ctx.stdin is not None:
        ctx.stdin.mode = "r"
    return ctx


def make_tracer(p, kernel):
    faults = p.trace_faults
    limit = p.line_limit

    def local(frame, event, arg):
        if event == "line":
            n = p.lines
            p.lines = n + 1
            if n in faults:
                kind = faults[n]
                p.line_fault_fired = True
                p.fault_in_output = frame.f_code.co_filename.endswith("output.py")
                kernel.fire("line:" + kind)
                if kind == "mem":
                    raise MemoryError("injected")
                if kind == "kbd":
                    raise KeyboardInterrupt()
                if kind == "kill":
                    p.dead = "kill"
                    kernel.close_all(p)
                    raise SimCrash("kill")
            if limit is not None and n > limit:
                raise SimHang("more than %d source lines executed" % limit)
        return local

    def tracer(frame, event, arg):
        if loader.code_is_ours(frame.f_code):
            return local
        return None
    return tracer


def run_body(kernel, p, body):
    """Executes body() as the main program of p; returns its exit status."""
    status = 0
    tracing = p.trace_faults or p.line_limit is not None
    try:
        try:
            if tracing:
                sys.settrace(make_tracer(p, kernel))
            try:
                body()
            finally:
                if tracing:
                    sys.settrace(None)
        except SystemExit as e:
            code = e.code
            status = 0 if code is None else code if isinstance(code, int) else 1
            p.error = "SystemExit"
            if code is not None and not isinstance(code, int):
                _stderr("%s\n" % (code,))
        except KeyboardInterrupt:
            status = 130
            p.error = "KeyboardInterrupt"
            _stderr("KeyboardInterrupt\n")
        except (SimCrash, SimAbort, SimHang):
            raise
        except BaseException as e:
            status = 1
            p.error = "%s: %s" % (type(e).__name__, e)
            _stderr("Traceback (most recent call last):\n%s\n" % type(e).__name__)
        # interpreter exit: unreferenced files are closed, errors are ignored; then stdout is flushed
        gc.collect()
        try:
            if sys.stdout is not None and not sys.stdout.closed:
                sys.stdout.flush()
        except (SimCrash, SimAbort, SimHang):
            raise
        except KeyboardInterrupt:
            status = 130
        except BaseException as e:
            status = 120
            p.error = p.error or "flush at exit: %s" % e
        if p.dead:                      # died inside of a destructor, where exceptions vanish
            raise SimCrash(p.dead)
        p.status = status
    except SimCrash:
        p.status = 137 if p.exit_code is None else p.exit_code
        p.error = "killed"
    except SimHang as e:
        p.status = "hang"
        p.error = str(e)
    except SimAbort as e:
        p.status = "abort"
        p.error = str(e)


def _stderr(text):
    if sys.stderr is None:
        return
    try:
        sys.stderr.write(text)
    except (SimCrash, SimAbort, SimHang):
        raise
    except BaseException:
        pass


def end_process(kernel, p):
    """The process is gone: drop what it holds, without effects."""
    gc.collect()
    if not p.dead:
        p.dead = "exited"
    kernel.close_all(p)


def tool_body(tool, extra=None):
    if tool in loader.TOOLS:
        def body():
            import importlib
            mod = importlib.import_module(loader.TOOLS[tool])
            mod.main()
    elif tool == "pause_host":
        def body():
            from gcodeutils.gcoder import GCode
            from gcodeutils.visit.iterator import GCodeIterator
            from gcodeutils.visit.pause_at_layer import PauseAtLayer
            program = GCode(sys.stdin.readlines())
            GCodeIterator(program).accept(PauseAtLayer(extra["layers"]))
            program.write(sys.stdout)
            sys.stdout.flush()
    elif tool in loader.HOSTS:
        def body():
            # what a program of a user would do
            from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
            from gcodeutils.gcoder import GCode
            from gcodeutils.stretch.stretch import SkeinforgeStretchFilter
            program = GCode(sys.stdin.readlines())
            GCodeToRelativeExtrusionFilter().filter(program)
            SkeinforgeStretchFilter(**extra).filter(program)
            program.write(sys.stdout)
            sys.stdout.flush()
    else:
        def body():
            code = loader.plugin_code(tool)
            scope = {"__name__": "plugin"}
            scope.update(extra)
            exec(code, scope)
    return body


def run_single(kernel, p, body):
    outer = Context.capture()
    outer_disable = logging.root.manager.disable
    logging.root.manager.disable = 0
    random.seed(12345)
    ctx = std_streams(kernel, p)
    try:
        with Patches(kernel):
            kernel.current = p
            try:
                ctx.restore()
                run_body(kernel, p, body)
                if not p.dead:
                    p.exit_snapshot = None
                ctx = None
                for h in list(logging.root.handlers):
                    logging.root.removeHandler(h)
                loader.take_modules()
                sys.stdin = sys.stdout = sys.stderr = None
                end_process(kernel, p)
                p.done = True
            finally:
                kernel.current = None
    finally:
        outer.restore()
        logging.root.manager.disable = outer_disable
    return p.status


def run_many(kernel, jobs, rate=0.3, seed=None):
    """jobs: list of (proc, body).  Every system call is a scheduling point."""
    outer = Context.capture()
    outer_disable = logging.root.manager.disable
    logging.root.manager.disable = 0
    random.seed(12345)
    kernel.multi = True
    if seed is not None:
        kernel.sched_rng = random.Random(seed)
    kernel.sched_rate = rate
    main_sem = threading.Semaphore(0)
    harness_errors = []

    def thread_main(p, body):
        p.sem.acquire()
        try:
            p.ctx.restore()
            p.ctx = None
            if kernel.stopping:
                p.status = "abort"
            else:
                run_body(kernel, p, body)
            for h in list(logging.root.handlers):
                logging.root.removeHandler(h)
            loader.take_modules()
            sys.stdin = sys.stdout = sys.stderr = None
            end_process(kernel, p)
        except BaseException as e:      # harness error
            harness_errors.append(e)
        p.done = True
        p.wait = None
        if all(q.done for q in kernel.procs):
            main_sem.release()
            return
        if kernel.stopping:
            nxt = next(q for q in kernel.procs if not q.done)
        else:
            nxt = kernel.pick(None)
            if nxt is None:
                kernel.stopping = "deadlock"
                nxt = next(q for q in kernel.procs if not q.done)
        kernel.current = nxt
        nxt.sem.release()

    old_stack = threading.stack_size()
    try:
        with Patches(kernel):
            for p, body in jobs:
                p.sem = threading.Semaphore(0)
                p.ctx = std_streams(kernel, p)
                p.thread = threading.Thread(target=thread_main, args=(p, body), daemon=True)
                p.thread.start()
            first = kernel.pick(None)
            kernel.current = first
            first.sem.release()
            main_sem.acquire()
            for p, body in jobs:
                p.thread.join()
            kernel.current = None
    finally:
        kernel.current = None
        outer.restore()
        logging.root.manager.disable = outer_disable
    if harness_errors:
        raise harness_errors[0]
