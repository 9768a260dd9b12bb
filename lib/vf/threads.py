"""A controlled scheduler for real threads: one runs at a time, from one switch point to the next."""
import threading
import time

READY, RUNNING, PAUSED, DONE = "ready", "running", "paused", "done"
_current = {}  # thread id -> task


class Stuck(Exception):
    """No thread can go on."""


class Task:
    def __init__(self, f):
        self.f, self.state, self.value, self.points, self.blocked, self.until, self.free = f, READY, None, 0, False, 0, False
        self.go = threading.Semaphore(0)
        self.stopped = threading.Semaphore(0)
        self.thread = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        _current[threading.get_ident()] = self
        self.go.acquire()
        try:
            self.value = ("value", self.f())
        except Exception as e:
            self.value = ("raises", f"{type(e).__name__}: {e}")
        except BaseException as e:
            self.value = ("panics", f"{type(e).__name__}: {e}")
        del _current[threading.get_ident()]
        self.state = DONE
        self.stopped.release()


def point():
    """A place where the running thread may be interrupted."""
    t = _current.get(threading.get_ident())
    if t is None:
        return
    t.points += 1
    if not t.free and t.points >= t.until:
        t.state = PAUSED
        t.stopped.release()
        t.go.acquire()
        t.state = RUNNING


def asleep(task):
    try:
        with open(f"/proc/self/task/{task.thread.native_id}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] == "S"
    except OSError:
        return False


class Scheduler:
    def __init__(self, fs, limit=30):
        self.tasks = [Task(f) for f in fs]
        self.end = time.time() + limit
        self.switches = 0
        self.blocks = 0
        for t in self.tasks:
            t.thread.start()

    def step(self, i, to=0):
        """Thread i runs to its next switch point (or its to-th), to its end, or until it waits for another one."""
        t = self.tasks[i]
        t.until = to
        if t.state == DONE:
            return False
        self.switches += 1
        if not t.blocked:
            t.go.release()
        t.blocked = False
        quiet = 0
        while not t.stopped.acquire(timeout=0.0005 if quiet == 0 else 0.003):
            quiet = quiet + 1 if asleep(t) else 0
            if quiet > 6:
                t.blocked = True
                self.blocks += 1
                return False
            if time.time() > self.end:
                raise Stuck("a thread does not end")
        return True

    def free(self, i):
        """Thread i runs to its end without further interruption (or until it waits)."""
        t = self.tasks[i]
        t.free = True
        while t.state != DONE and self.step(i):
            pass

    def finish(self):
        while any(t.state != DONE for t in self.tasks):
            before = [t.state for t in self.tasks]
            for i, t in enumerate(self.tasks):
                if t.state != DONE:
                    self.free(i)
            if [t.state for t in self.tasks] == before and time.time() > self.end:
                raise Stuck("the threads wait for each other")
        return [t.value for t in self.tasks]


def interleavings(counts):
    """All sequences that hold i counts[i] times."""
    if not any(counts):
        yield ()
        return
    for i, n in enumerate(counts):
        if n:
            for rest in interleavings(counts[:i] + (n - 1,) + counts[i + 1:]):
                yield (i,) + rest
