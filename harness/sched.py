"""Controlled scheduling of threads at the source lines of the agent.

Every controlled thread parks before each line of an agent file (and wherever `point()` is called); a policy picks which
thread continues. A thread that does not come back to a parking point within `grace` seconds is taken to be blocked (on
a lock, a future, ...) and another one is picked; it is looked at again later. This only chooses schedules - whatever
happens is a real execution of the real code.
"""
import sys
import threading
import time

from boot import DEEP_DIR


class Controlled(threading.Thread):
    """A thread under control."""

    def __init__(self, sched, name, func, files):
        super().__init__(name=name, daemon=True)
        self.sched, self.func, self.files = sched, func, files
        self.go = threading.Semaphore(0)
        self.state = 'new'
        self.steps = 0
        self.where = None
        self.error = None
        self.free = False

    def run(self):
        """Run the function with the parking tracer."""
        self.sched.local.thread = self
        self.park('start')
        sys.settrace(self._global)
        try:
            self.func()
        except BaseException as e:  # noqa
            self.error = e
        finally:
            sys.settrace(None)
            self.state = 'done'
            self.sched.wake.release()

    def _global(self, frame, event, arg):
        return self._local if self.files(frame.f_code.co_filename) else None

    def _local(self, frame, event, arg):
        if event == 'line':
            self.park((frame.f_code.co_filename[len(DEEP_DIR):], frame.f_lineno))
        return self._local

    def park(self, where):
        """Stop here until the scheduler lets this thread continue."""
        if self.free:
            return
        self.steps += 1
        self.where = where
        self.state = 'parked'
        self.sched.wake.release()
        self.go.acquire()
        self.state = 'running'


class Scheduler:
    """Runs controlled threads one at a time."""

    def __init__(self, policy, files=None, grace=0.15, limit=20.0):
        self.policy = policy
        self.files = files or (lambda f: f.startswith(DEEP_DIR))
        self.grace = grace
        self.limit = limit
        self.threads = []
        self.wake = threading.Semaphore(0)
        self.local = threading.local()
        self.log = []
        self.stuck = False

    def add(self, name, func):
        """Add a thread."""
        thread = Controlled(self, name, func, self.files)
        self.threads.append(thread)
        return thread

    def point(self, where):
        """Explicit parking point, for use in stand-ins called by the agent."""
        thread = getattr(self.local, 'thread', None)
        if thread is not None:
            thread.park(where)

    def run(self):
        """Run all threads to completion; returns True if they all completed."""
        end = time.monotonic() + self.limit
        for thread in self.threads:
            thread.start()
        current = None
        while True:
            live = [t for t in self.threads if t.state != 'done']
            if not live:
                break
            if time.monotonic() > end:
                self.stuck = True
                break
            # threads that were let go and are still running
            running = [t for t in live if t.state in ('running', 'new')]
            if running and (current in running or any(t.state == 'new' for t in running)):
                if self.wake.acquire(timeout=self.grace):
                    continue
                current = None    # blocked: let another one run
            parked = [t for t in live if t.state == 'parked']
            if not parked:
                self.wake.acquire(timeout=self.grace)
                continue
            current = self.policy(parked, self)
            current.state = 'running'
            current.go.release()
        for thread in self.threads:
            thread.free = True
            thread.go.release()
        for thread in self.threads:
            thread.join(0.5 if self.stuck else 5)
        return not self.stuck


def switch_at(order, switches):
    """Policy: run order[0]; after `switches[i]` steps of the current thread go to the next one in `order` (cyclic)."""
    state = {'idx': 0, 'steps': 0, 'sw': list(switches)}

    def policy(parked, sched):
        names = [t.name for t in parked]
        if state['sw'] and state['steps'] >= state['sw'][0]:
            state['sw'].pop(0)
            state['steps'] = 0
            state['idx'] += 1
        for off in range(len(order)):
            name = order[(state['idx'] + off) % len(order)]
            if name in names:
                if off:
                    state['idx'] += off
                    state['steps'] = 0
                state['steps'] += 1
                return parked[names.index(name)]
        return parked[0]

    return policy


def random_policy(rng, stay=0.9):
    """Policy: mostly stay with the current thread, sometimes switch."""
    state = {'cur': None}

    def policy(parked, sched):
        if state['cur'] in parked and rng.random() < stay:
            return state['cur']
        state['cur'] = rng.choice(parked)
        return state['cur']

    return policy
