"""A baton scheduler: real threads, exactly one of them runs at any time, and the scenario decides which.

Threads hand the baton back at scheduling points: explicit ones (the simulated network) or, if asked for, every few lines of
the code under test (sys.settrace). The choices are a list of numbers in the scenario; where it ends, the running thread goes on
(or the first one that can)."""
import sys
import threading


class Killed(BaseException):
    """Unwinds the threads of a run that is over."""


class Sched:
    def __init__(self, choices, ctx=None, limit=200000):
        self.choices = list(choices)
        self.pos = 0
        self.ctx = ctx
        self.threads = []
        self.main = threading.Semaphore(0)
        self.current = None
        self.dead = False
        self.order = []
        self.switches = 0
        self.context = None    # saves and restores what belongs to a thread (random streams)
        self.limit = limit

    def spawn(self, name, fn):
        t = _Thread(self, name, fn)
        self.threads.append(t)
        return t

    def run(self):
        """Run all threads to their end; raises the first error a thread ended with."""
        for t in self.threads:
            t.start()
        last = None
        while True:
            ready = [t for t in self.threads if not t.done]
            if not ready:
                break
            if self.pos < len(self.choices):
                pick = ready[self.choices[self.pos] % len(ready)]
                self.pos += 1
            else:
                pick = last if last in ready else ready[0]
            self.switches += last is not None and last is not pick
            last = pick
            self.order.append(pick.name)
            if len(self.order) > self.limit:
                self.kill()
                raise RuntimeError("the schedule does not end")
            self.current = pick
            if self.context is not None and pick.context is not None:
                self.context.restore(pick.context)
            pick.sem.release()
            self.main.acquire()
            self.current = None
            if self.context is not None and not pick.done:
                pick.context = self.context.save()
            if pick.error is not None:
                self.kill()
                raise pick.error
        for t in self.threads:
            t.join()
        if self.ctx is not None:
            self.ctx.schedule(self.order[:2000])

    def kill(self):
        self.dead = True
        for t in self.threads:
            if not t.done:
                t.sem.release()
        for t in self.threads:
            if t.ident is not None:
                t.join(5)

    def point(self):
        """Called by a thread of the simulation: others may run here."""
        t = self.current
        if t is None or threading.current_thread() is not t:
            return
        self.main.release()
        t.sem.acquire()
        if self.dead:
            raise Killed()


class _Thread(threading.Thread):
    def __init__(self, sched, name, fn):
        super().__init__(name=name, daemon=True)
        self.sched, self.fn = sched, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.context = None
        self.error = None

    def run(self):
        self.sem.acquire()
        try:
            if not self.sched.dead:
                self.fn()
        except Killed:
            pass
        except BaseException as exc:  # pylint: disable=broad-except
            self.error = exc
        finally:
            self.done = True
            sys.settrace(None)
            self.sched.main.release()


class lines:  # pylint: disable=invalid-name
    """Scheduling points inside the code under test: after each given number of lines of files below a path."""

    def __init__(self, sched, path, gaps):
        self.sched, self.path, self.gaps = sched, path, list(gaps)
        self.left = self.gaps.pop(0) if self.gaps else None

    def __enter__(self):
        if self.left is not None:
            sys.settrace(self._call)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)

    def _call(self, frame, event, arg):  # pylint: disable=unused-argument
        if self.path in frame.f_code.co_filename:
            return self._line
        return None

    def _line(self, frame, event, arg):  # pylint: disable=unused-argument
        if event == "line" and self.left is not None:
            self.left -= 1
            if self.left <= 0:
                self.left = self.gaps.pop(0) if self.gaps else None
                self.sched.point()
        return self._line
