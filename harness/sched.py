"""Controlled scheduling of threads at line or byte code granularity.

Each thread only runs while it holds the baton. At each event (line or opcode)
of the library code, the scheduler may hand the baton to another thread. A
thread blocked on a lock (no event for some time) loses the baton."""
import sys, threading, time
from . import fw


class Scheduler(object):
    def __init__(self, rng, tasks, opcodes=False, p=.1, points=None,
                 max_events=200000):
        self.rng, self.opcodes, self.p = rng, opcodes, p
        self.points = points  # Set of event ranks at which to switch, or None
        self.n = len(tasks)
        self.tasks = tasks
        self.sems = [threading.Semaphore(0) for _ in tasks]
        self.alive = [True]*self.n
        self.current = None
        self.mutex = threading.Lock()
        self.events = 0
        self.switches = 0
        self.steals = 0
        self.errors = [None]*self.n
        self.results = [None]*self.n
        self.places = set()
        self.signature = 0
        self.files = {}
        self.max_events = max_events

    # -------------------------------------------------- tracing

    def global_trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        ok = self.files.get(name)
        if ok is None:
            ok = self.files[name] = name.startswith(fw.PKG)
        if not ok:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local_trace

    def local_trace(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.event(frame)
        return self.local_trace

    def event(self, frame):
        me = self.tid.i
        if self.current != me:  # Unblocked after having lost the baton
            self.sems[me].acquire()
        self.events += 1
        if self.events > self.max_events:
            return
        if self.points is not None:
            switch = self.events in self.points
        else:
            switch = self.rng.random() < self.p
        if switch:
            others = [i for i in range(self.n) if self.alive[i] and i != me]
            if others:
                nxt = self.rng.choice(others)
                self.switches += 1
                where = (frame.f_code.co_name, frame.f_lineno)
                self.places.add(where)
                self.signature = hash((self.signature, me, nxt, where))
                self.give(nxt)
                self.sems[me].acquire()

    def give(self, i):
        with self.mutex:
            self.current = i
        self.sems[i].release()

    # -------------------------------------------------- threads

    def body(self, i):
        self.tid.i = i
        self.sems[i].acquire()
        sys.settrace(self.global_trace)
        try:
            self.results[i] = self.tasks[i]()
        except BaseException as e:
            import traceback
            self.errors[i] = (e, traceback.format_exc()[-1500:])
        finally:
            sys.settrace(None)
        self.alive[i] = False
        with self.mutex:
            mine = self.current == i
            others = [k for k in range(self.n) if self.alive[k]]
            if mine and others:
                self.current = k = self.rng.choice(others)
                self.sems[k].release()

    def run(self, timeout=60.):
        "True if all the threads ended."
        self.tid = threading.local()
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True)
                   for i in range(self.n)]
        for t in threads:
            t.start()
        self.give(self.rng.randrange(self.n))
        end = time.time() + timeout
        last = -1
        idle = 0
        while any(t.is_alive() for t in threads):
            for t in threads:
                if t.is_alive():
                    t.join(.004)
                    break
            if self.events == last:
                idle += 1
                if idle >= 3:  # The thread with the baton is blocked
                    idle = 0
                    with self.mutex:
                        others = [k for k in range(self.n)
                                  if self.alive[k] and k != self.current]
                        if others:
                            self.steals += 1
                            self.current = k = self.rng.choice(others)
                            self.sems[k].release()
            else:
                idle = 0
                last = self.events
            if time.time() > end:
                return False
        return True
