"""Threads that run one at a time; the trace decides who and for how long.

Every executed line of pyphs is a point where the running thread may be parked
and another released.  Nothing but the plan chooses."""
import sys
import threading

from .runtime import PKG, HarnessError


class Baton:
    """plan: list of [lines, k]: after so many lines of pyphs executed by the
    running thread, the k-th (modulo) of the other live threads goes on."""

    def __init__(self, plan, limit=120.0):
        self.plan = [list(p) for p in plan]
        self.limit = limit
        self.switches = []
        self.lines = 0
        self.error = None

    def run(self, bodies):
        try:
            # compiled loops report lines irregularly
            import pypyjit
            pypyjit.set_param('off')
        except ImportError:
            pass
        n = len(bodies)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.left = self.plan[0][0] if self.plan else None
        done = threading.Semaphore(0)
        out = [None] * n

        def main(i, body):
            self._park(i)
            try:
                if self.error is None:
                    sys.settrace(self._tracer(i))
                    try:
                        out[i] = ('ok', body())
                    finally:
                        sys.settrace(None)
            except BaseException as ex:             # noqa
                import traceback
                out[i] = ('exc', ex, traceback.format_exc())
            self.alive.remove(i)
            if self.alive:
                self.sem[self.alive[0]].release()
            done.release()
        threads = [threading.Thread(target=main, args=(i, b), daemon=True)
                   for i, b in enumerate(bodies)]
        for t in threads:
            t.start()
        self.sem[0].release()
        for _ in threads:
            if not done.acquire(timeout=self.limit):
                raise HarnessError('threads stuck')
        return out

    def _park(self, i):
        if not self.sem[i].acquire(timeout=self.limit):
            self.error = 'stuck'

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == 'line':
                self.lines += 1
                if self.left is not None:
                    self.left -= 1
                    if self.left <= 0:
                        self._switch(i, frame)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(PKG):
                return local
            return None
        return tracer

    def _switch(self, i, frame):
        _, k = self.plan.pop(0)
        self.left = self.plan[0][0] if self.plan else None
        others = [a for a in self.alive if a != i]
        if not others:
            return
        j = others[k % len(others)]
        self.switches.append((i, j, frame.f_code.co_name, frame.f_lineno))
        self.sem[j].release()
        self._park(i)
