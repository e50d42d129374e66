"""Record the event stream Python delivers together with what the agent does at each event.

The recorder is the real trace function; it hands every event to the agent exactly as CPython would (the global trace
function for `call`, and for the other events whatever trace function the agent last returned for that frame).
"""
import gc
import os
import sys
import threading


class Local:
    """Trace function of one frame."""

    __slots__ = ('rec', 'agent', 'act', 'parent')

    def __init__(self, rec):
        self.rec, self.agent, self.act, self.parent = rec, None, None, None

    def __call__(self, frame, event, arg):
        agent = self.agent
        result = self.rec.step(frame, event, arg, agent, self)
        if result is not None:
            self.agent = result
        return self


class Recorder:
    """Master trace function."""

    made = 0

    def __init__(self, rig, capture=None):
        # what an earlier program left behind may not be finalised in the middle of the next one
        gc.disable()
        Recorder.made += 1
        if Recorder.made % 25 == 0:
            gc.collect()
        self.rig = rig
        self.agent = rig.handler.trace_call
        self.capture = capture          # capture(event dict, frame, event, arg) before the agent runs
        self.after = None
        self.events = []
        self.raised = []
        self.tl = threading.local()
        self.acts = 0
        self.lock = threading.Lock()
        self.names = {}
        rig.effects.listener = self.effect

    def effect(self, item):
        """Attribute an effect to the event being processed."""
        current = getattr(self.tl, 'current', None)
        item['event'] = current['i'] if current is not None else None
        if current is not None:
            current['acts'].append(item)

    def thread_name(self):
        """Stable small name of the thread."""
        name = threading.current_thread().name
        return name

    def __call__(self, frame, event, arg):
        """Global trace function (call events)."""
        local = frame.f_trace
        if not isinstance(local, Local) or local.rec is not self:
            local = Local(self)
        with self.lock:
            self.acts += 1
            local.act = self.acts
        stack = self.tl.__dict__.setdefault('stack', [])
        local.parent = stack[-1] if stack else 0
        stack.append(local.act)
        result = self.step(frame, event, arg, self.agent, local)
        if result is not None:
            local.agent = result
        return local

    def step(self, frame, event, arg, agent, local):
        """One event."""
        code = frame.f_code
        record = {'k': event, 'f': os.path.basename(code.co_filename), 'l': frame.f_lineno, 'n': code.co_name,
                  'th': self.thread_name(), 'a': local.act, 'p': local.parent, 'acts': []}
        with self.lock:
            record['i'] = len(self.events)
            self.events.append(record)
        if self.capture is not None:
            self.capture(record, frame, event, arg)
        result = None
        if agent is not None:
            outer = getattr(self.tl, 'current', None)
            self.tl.current = record
            try:
                result = agent(frame, event, arg)
            except BaseException as e:  # noqa
                self.raised.append((record, repr(e)))
            finally:
                self.tl.current = outer
        if event == 'return':
            stack = self.tl.__dict__.setdefault('stack', [])
            if stack and stack[-1] == local.act:
                stack.pop()
        if self.after is not None:
            self.after(record, frame, event, arg)
        return result

    def run(self, func, *args):
        """Run func in a fresh thread under this tracer, with new threads traced too."""
        box = {}

        def body():
            sys.settrace(self)
            try:
                box['value'] = func(*args)
            except BaseException as e:  # noqa
                box['error'] = e
            finally:
                sys.settrace(None)

        old = threading.gettrace()
        threading.settrace(self)
        try:
            thread = threading.Thread(target=body, name='main')
            thread.run = body
            thread.start()
            thread.join(120)
        finally:
            threading.settrace(old)
        if thread.is_alive():
            raise TimeoutError('host program did not finish')
        return box
