"""Seeded cooperative scheduler: several tasks as threads of which exactly one
holds the baton.  The seeded generator picks who runs next at every yield
point, so that a schedule is a pure function of the seed."""
import random
import sys
import threading


class Killed(BaseException):
    """the task is abandoned where it stands"""


class Sched:
    def __init__(self, seed, grain, kill=()):
        self.r = random.Random(f"sched/{seed}")
        self.grain = grain              # mean number of yields kept running
        self.kill = dict(kill)          # task -> yield count at which it dies
        self.tasks = []
        self.switches = 0
        self.order = []                 # who ran, run length encoded
        self.main = threading.Semaphore(0)

    def add(self, fn, lines=False):
        t = Task(self, len(self.tasks), fn, lines)
        self.tasks.append(t)
        return t

    def run(self):
        for t in self.tasks:
            t.th.start()
        live = list(self.tasks)
        while live:
            t = live[self.r.randrange(len(live))]
            t.quota = self._quota()
            self.order.append(t.n)
            self.switches += 1
            t.baton.release()
            self.main.acquire()
            if t.done:
                t.th.join()
                live.remove(t)
        for t in self.tasks:
            if t.error is not None:
                raise t.error

    def _quota(self):
        if self.grain <= 1:
            return 1
        return 1 + int(self.r.expovariate(1./self.grain))


class Task:
    def __init__(self, sched, n, fn, lines):
        self.s, self.n, self.fn, self.lines = sched, n, fn, lines
        self.baton = threading.Semaphore(0)
        self.quota = 0
        self.yields = 0
        self.done = False
        self.killed = False
        self.error = None
        self.th = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        self.baton.acquire()
        try:
            if self.lines:
                sys.settrace(self._trace)
            try:
                self.fn(self.point)
            except Killed:
                self.killed = True
            finally:
                sys.settrace(None)
        except BaseException as e:                 # harness error
            self.error = e
        self.done = True
        self.s.main.release()

    def _trace(self, frame, event, arg):
        if "/extensisq/" not in frame.f_code.co_filename:
            return None
        if event == "line":
            self.point()
        return self._trace

    def point(self, *_):
        """a yield point"""
        self.yields += 1
        k = self.s.kill.get(self.n)
        if k is not None and self.yields >= k:
            sys.settrace(None)
            raise Killed()
        self.quota -= 1
        if self.quota > 0:
            return
        self.s.main.release()
        self.baton.acquire()
