"""
Baton scheduler: real threads, exactly one of which runs at any time. At every seam the running thread hands the baton to a
thread chosen by the seeded PRNG of the plan, so the interleaving is a function of the plan only.
"""
import threading


class Sched(object):

    def __init__(self, rng, tr, switch=0.5, max_steps=200000):
        self.rng, self.tr, self.switch, self.max_steps = rng, tr, switch, max_steps
        self.sems = {}
        self.runnable = []
        self.current = None
        self.done = threading.Semaphore(0)
        self.errors = {}
        self.results = {}
        self.steps = 0
        self.switches = 0
        self.order = []

    def spawn(self, name, fn):
        self.sems[name] = threading.Semaphore(0)
        self.runnable.append(name)

        def body():
            self.sems[name].acquire()
            try:
                self.results[name] = fn()
            except BaseException as e:          # noqa: the thread's fate is part of the history
                self.errors[name] = e
            self._finish(name)
        t = threading.Thread(target=body, name='sim-' + name, daemon=True)
        t.start()

    def _finish(self, name):
        self.runnable.remove(name)
        self.tr.log('thread-end', name, type(self.errors[name]).__name__ if name in self.errors else 'ok')
        if not self.runnable:
            self.current = None
            self.done.release()
            return
        nxt = self.rng.choice(self.runnable)
        self.current = nxt
        self.sems[nxt].release()

    def me(self):
        n = threading.current_thread().name
        return n[4:] if n.startswith('sim-') else None

    def yield_point(self, what='', always=False):
        name = self.me()
        if name is None or name != self.current:
            return
        self.steps += 1
        if len(self.runnable) > 1 and (always or self.rng.random() < self.switch):
            nxt = self.rng.choice([r for r in self.runnable if r != name] if always else self.runnable)
            if nxt != name:
                self.switches += 1
                self.tr.log('switch', name, '->', nxt, what)
                self.current = nxt
                self.sems[nxt].release()
                self.sems[name].acquire()

    def run(self):
        if not self.runnable:
            return
        first = self.rng.choice(self.runnable)
        self.current = first
        self.sems[first].release()
        self.done.acquire()
        self.tr.probe('context-switches', self.switches)
