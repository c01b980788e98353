"""Controlled scheduler for real Python threads: preemption-bounded
exploration of every interleaving at line granularity.

The code under test creates threads through a module-level `threading`
reference; the explorer substitutes a namespace whose Thread runs its target
under sys.settrace and blocks at every scheduling point until chosen.
"""
import sys
import threading as _t
import types


class Divergence(Exception):
    pass


class Scheduler:
    def __init__(self, prefix, filename):
        self.prefix = list(prefix)
        self.filename = filename
        self.cv = _t.Condition()
        self.workers = []
        self.points = []       # (enabled ids, chosen position, running enabled)
        self.current = None
        self.error = None

    # -- Thread facade ----------------------------------------------------
    def namespace(self):
        sched = self

        class Thread:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None,
                         daemon=None):
                self.id = None
                self.target, self.args, self.kwargs = target, args, kwargs or {}
                self.done = False
                self.started = False
                self.exc = None

            def start(self):
                self.started = True
                self.id = len(sched.workers)
                sched.workers.append(self)
                self.t = _t.Thread(target=sched._body, args=(self,), daemon=True)

            def join(self, timeout=None):
                sched.run_all()
                if self.exc is not None:
                    raise self.exc

            def is_alive(self):
                return not self.done
        ns = types.SimpleNamespace(**{k: getattr(_t, k) for k in dir(_t)
                                      if not k.startswith('__')})
        ns.Thread = Thread
        return ns

    def _body(self, w):
        root = getattr(w.target, '__code__', None)

        def local(frame, event, arg):
            if event == 'line':
                self.point(w)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename != self.filename:
                return None
            if frame.f_code is root:
                return local
            self.point(w)
            return None
        with self.cv:
            while self.current is not w:
                self.cv.wait()
        sys.settrace(tracer)
        try:
            w.target(*w.args, **w.kwargs)
        except BaseException as e:   # noqa
            w.exc = e
        finally:
            sys.settrace(None)
        with self.cv:
            w.done = True
            self.current = None
            self.cv.notify_all()

    def point(self, w):
        with self.cv:
            self.current = None
            self.yielder = w
            self.cv.notify_all()
            while self.current is not w:
                self.cv.wait()

    def run_all(self):
        todo = [w for w in self.workers if not w.done]
        if not todo:
            return
        for w in todo:
            w.t.start()
        last = None
        while True:
            live = [w for w in todo if not w.done]
            if not live:
                break
            if last is not None and not last.done:
                en = [last] + [w for w in live if w is not last]
                running = True
            else:
                en, running = live, False
            i = len(self.points)
            c = self.prefix[i] if i < len(self.prefix) else 0
            if c >= len(en):
                raise Divergence(f'choice {c} of {len(en)} at point {i}')
            self.points.append((len(en), c, running))
            last = en[c]
            with self.cv:
                self.current = last
                self.cv.notify_all()
                while self.current is not None:
                    self.cv.wait()
        for w in todo:
            w.t.join()


def explore(body, filename, bound, check, max_runs=10**9):
    """body(namespace) runs the code once; check(result, choices) judges it.
    Explores every schedule with at most `bound` preemptions.
    Returns (schedules, scheduling points, longest)."""
    stats = [0, 0, 0]

    def run(prefix):
        s = Scheduler(prefix, filename)
        r = body(s.namespace())
        stats[0] += 1
        stats[1] += len(s.points)
        stats[2] = max(stats[2], len(s.points))
        check(r, [c for _, c, _ in s.points])
        return s.points

    stack = [([], 0)]
    while stack:
        prefix, used = stack.pop()
        pts = run(prefix)
        if len(pts) < len(prefix):
            raise Divergence('shorter than its prefix')
        cost = 0
        for i, (n, c, running) in enumerate(pts):
            if i >= len(prefix):
                for alt in range(1, n):
                    nc = cost + (1 if running else 0)
                    if nc <= bound:
                        stack.append(([p[1] for p in pts[:i]] + [alt], nc))
            if running and c > 0:
                cost += 1
        if stats[0] >= max_runs:
            raise RuntimeError('schedule cap reached')
    return tuple(stats)
