"""
Controlled scheduler: the ranks of a parallel run are threads of which exactly one runs at a time; control
changes hands only at scheduling points (communication and file operations).  explore() enumerates every
schedule with at most `bound` deviations from the default one (keep running; else the lowest ready rank).
"""
import pickle
import threading

from asaptools.simplecomm import SimpleComm


class Deadlock(Exception):
    pass


class Killed(BaseException):
    pass


class Sched(object):
    def __init__(self, n, deviations):
        self.n = n
        self.dev = dict(deviations)      # {step: index into the list of enabled ranks}
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.ctl = threading.Semaphore(0)
        self.pred = [None] * n
        self.done = [False] * n
        self.result = [None] * n
        self.local = threading.local()
        self.steps = []                  # number of enabled ranks at every step
        self.trace = []
        self.kill = False

    # -- called from the rank threads
    def me(self):
        return getattr(self.local, "rank", None)

    def point(self, name, pred=None):
        r = self.me()
        if r is None:
            return
        self.pred[r] = pred
        self.trace.append((r, name))
        self.ctl.release()
        self.sem[r].acquire()
        if self.kill:
            raise Killed()

    def body(self, r, fn):
        self.local.rank = r
        self.sem[r].acquire()
        try:
            if self.kill:
                raise Killed()
            self.result[r] = ("ok", fn(r))
        except Killed:
            self.result[r] = ("killed", None)
        except BaseException as err:
            self.result[r] = ("error", err)
        self.done[r] = True
        self.ctl.release()

    # -- controller
    def run(self, fn):
        ts = [threading.Thread(target=self.body, args=(r, fn), daemon=True) for r in range(self.n)]
        for t in ts:
            t.start()
        current = None
        dead = None
        while not all(self.done):
            en = [r for r in range(self.n) if not self.done[r] and (self.pred[r] is None or self.pred[r]())]
            if not en:
                dead = [r for r in range(self.n) if not self.done[r]]
                break
            if current in en:
                en = [current] + [r for r in en if r != current]
            k = self.dev.get(len(self.steps), 0)
            assert k < len(en), "replay diverged"
            self.steps.append(len(en))
            current = en[k]
            self.pred[current] = None
            self.sem[current].release()
            self.ctl.acquire()
        if dead:
            self.kill = True
            for r in dead:
                self.sem[r].release()
            for r in dead:
                while not self.done[r]:
                    self.ctl.acquire()
        for t in ts:
            t.join()
        return dead


class Comm(SimpleComm):
    """A communicator of the simulated ranks with the semantics of asaptools' MPI one"""

    def __init__(self, sched, board, rank, size):
        super(Comm, self).__init__()
        self._s, self._b, self._r, self._n = sched, board, rank, size
        self._calls = 0
        self._syncs = 0

    def get_size(self):
        return self._n

    def get_rank(self):
        return self._r

    def is_manager(self):
        return self._r == 0

    def sync(self):
        self._syncs += 1
        k = ("sync", self._syncs)
        self._b.setdefault(k, set()).add(self._r)
        self._s.point("sync", lambda: len(self._b[k]) == self._n)

    def partition(self, data=None, func=None, involved=False, tag=0):
        self._calls += 1
        k = ("part", self._calls)
        op = func if func else lambda *x: x[0][x[1]::x[2]]
        if self._r == 0:
            first = 0 if involved else 1
            size = self._n - first
            self._b[k] = [None if r < first else pickle.dumps(op(data, r - first, size)) for r in range(self._n)]
            self._s.point("partition")
            return op(data, 0, size) if involved else None
        self._s.point("partition", lambda: k in self._b)
        return pickle.loads(self._b[k][self._r])


def children(dev, steps):
    """all schedules with one more deviation, after the last one"""
    last = max(dev) if dev else -1
    for i in range(last + 1, len(steps)):
        for alt in range(1, steps[i]):
            d = dict(dev)
            d[i] = alt
            yield d
