# encoding: utf-8
"""Threads of one process under a seeded scheduler, which may switch before every line the package executes."""
import sys
import threading

from . import loader


class Aborted(BaseException):
    pass


class Sim(object):
    """switches: sorted list of [tick, thread]; a tick is one executed source line of the package, in all threads."""

    def __init__(self, bodies, switches, faults=(), quantum=0, max_ticks=3000000):
        self.bodies = bodies
        self.switches = [list(s) for s in switches]
        self.pos = 0
        self.next = self.switches[0][0] if self.switches else None
        self.quantum = quantum
        self.tick = 0
        self.max_ticks = max_ticks
        self.n = len(bodies)
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.lines = [0] * self.n
        self.fired = {}
        self.faults = dict(((f["t"], f["line"]), f["kind"]) for f in faults)
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.main = threading.Semaphore(0)
        self.current = 0
        self.taken = []
        self.stopping = None

    def order(self):
        return [i for i in range(self.n) if not self.done[i]]

    def switch_to(self, me, want):
        alive = self.order()
        if not alive:
            self.main.release()
            return
        if want not in alive:
            want = alive[0] if me not in alive else me
        if want == me:
            return
        self.taken.append((self.tick, want))
        self.current = want
        self.sems[want].release()
        if not self.done[me]:
            self.sems[me].acquire()

    def tracer_for(self, me):
        sim = self
        faults = dict((line, kind) for (t, line), kind in self.faults.items() if t == me)
        quantum = self.quantum

        def local(frame, event, arg):
            if event != "line":
                return local
            tick = sim.tick
            sim.tick = tick + 1
            n = sim.lines[me]
            sim.lines[me] = n + 1
            if sim.stopping is not None or tick > sim.max_ticks:
                sim.stopping = "too many lines"
                raise Aborted()
            if sim.next is not None and tick >= sim.next:
                want = sim.switches[sim.pos][1]
                sim.pos += 1
                sim.next = sim.switches[sim.pos][0] if sim.pos < len(sim.switches) else None
                sim.switch_to(me, want)
            elif quantum and tick % quantum == 0:
                alive = sim.order()
                sim.switch_to(me, alive[(alive.index(me) + 1) % len(alive)])
            if faults and n in faults:
                kind = faults[n]
                sim.fired[kind] = sim.fired.get(kind, 0) + 1
                raise MemoryError("injected") if kind == "mem" else KeyboardInterrupt()
            return local

        def tracer(frame, event, arg):
            return local if loader.code_is_ours(frame.f_code) else None
        return tracer

    def thread(self, me):
        self.sems[me].acquire()
        try:
            if self.stopping is None:
                sys.settrace(self.tracer_for(me))
                try:
                    self.results[me] = self.bodies[me]()
                finally:
                    sys.settrace(None)
        except BaseException as e:
            self.errors[me] = e
        self.done[me] = True
        self.switch_to(me, self.order()[0] if self.order() else me)

    def run(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.sems[0].release()
        self.main.acquire()
        for t in ts:
            t.join()
        return self
