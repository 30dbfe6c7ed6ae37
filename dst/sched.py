"""Cooperative scheduler for caller threads: one runs, the others are parked.

Every source line of the library is a scheduling point; which thread runs
after it is decided by the scenario's preemption list alone."""
import threading

from . import seams
from .core import Violation
from .env import NoProgress, SimKill, _excluded_lines
from .seams import REAL


class Scheduler:
    def __init__(self, env, preempt, budget=3_000_000):
        self.env = env
        self.preempt = {}
        for s, t in preempt:
            self.preempt.setdefault(int(s), int(t))
        self.budget = budget
        self.step = 0
        self.current = 0
        self.alive = []
        self.sems = []
        self.kill = False
        self.failure = None
        self.switches = []
        self.spins = 0
        self.where = []
        self.rng_log = []
        self.injected = []
        self.inject = {}  # thread -> [countdown of lines, exception maker]

    # -- called from library threads
    def on_line(self, code, line):
        if self.kill:
            raise SimKill()
        self.step += 1
        self.spins = 0
        if self.step > self.budget:
            self.failure = Violation("no-progress", "threads did not finish within %d library steps" % self.budget)
            raise NoProgress()
        t = self.preempt.get(self.step)
        if t is not None:
            self.switch(t, code.co_name)
        if self.inject:
            f = self.inject.get(self.current)
            if f is not None and line not in _excluded_lines(code.co_filename):
                f[0] -= 1
                if f[0] <= 0:
                    del self.inject[self.current]
                    self.injected.append((self.current, code.co_name))
                    raise f[1]()

    def note_rng(self, stream, name):
        self.rng_log.append((self.env.thread_index(), stream, name))

    def pick(self, target):
        live = [i for i in self.alive if i != self.current]
        if not live:
            return None
        n = len(self.sems)
        for d in range(n):
            c = (target + d) % n
            if c in live:
                return c
        return None

    def switch(self, target, where):
        nxt = self.pick(target)
        if nxt is None:
            return
        me = self.current
        self.switches.append((self.step, me, nxt, where))
        self.current = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()
        if self.kill:
            raise SimKill()

    def blocked_yield(self):
        self.spins += 1
        if self.spins > 2 * len(self.sems) + 2:
            raise seams.Deadlock("every thread waits for a lock")
        nxt = self.pick(self.current + 1)
        if nxt is None:
            raise seams.Deadlock("the last thread waits for a lock")
        me = self.current
        self.current = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()
        if self.kill:
            raise SimKill()

    # -- called from the main thread
    def run(self, bodies):
        n = len(bodies)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        done = threading.Semaphore(0)
        errors = [None] * n

        def runner(i):
            self.sems[i].acquire()
            self.env._threads[threading.get_ident()] = i + 1
            try:
                if not self.kill:
                    bodies[i](i)
            except SimKill:
                pass
            except BaseException as e:  # noqa: BLE001
                errors[i] = e
            finally:
                self.alive.remove(i)
                if self.alive:
                    nxt = self.pick(i + 1)
                    self.switches.append((self.step, i, nxt, "end"))
                    self.current = nxt
                    self.sems[nxt].release()
                else:
                    done.release()

        ths = [threading.Thread(target=runner, args=(i,), daemon=True) for i in range(n)]
        self.env.sched = self
        for t in ths:
            t.start()
        self.current = 0
        self.sems[0].release()
        done.acquire()
        self.env.sched = None
        for t in ths:
            t.join()
        if self.failure is not None:
            raise self.failure
        for e in errors:
            if isinstance(e, seams.Deadlock):
                raise Violation("no-progress", "deadlock between caller threads: %s" % e)
            if e is not None:
                raise e
        return self
