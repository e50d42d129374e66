"""A real agent that follows a service and the code; what it reports and acts on is recorded (C12, C13)."""
import sys
import threading
from concurrent.futures import Future

import rig as R
from deep.api.deep import Deep
from deep.api.resource import Resource
from deep.api.tracepoint.tracepoint_config import MetricDefinition
from deep.config import ConfigService
from deep.poll import LongPoll
from deep.processor.trigger_handler import TriggerHandler
from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
from graphs import host
from net import Net, Service, FakeError
from rig import Tp, metric

PROGRAM = '''def first(v):
    a = v  # 2
    b = a + 1  # 3
    c = b  # 4
    return c  # 5
def second(v):
    d = v  # 7
    return d  # 8
def main(v):
    first(v)
    second(v)
'''
FILE = '/app/src/host12.py'


class Odd(BaseException):
    """No Exception."""


class Held:
    """A task handler that runs the tasks when (and in the order) it is told to."""

    def __init__(self):
        self.tasks, self.lock, self.closed = [], threading.Lock(), False

    def submit_task(self, task, *args):
        """Keep the task."""
        future = Future()
        with self.lock:
            self.tasks.append((task, args, future))
        return future

    def take(self, newest=False):
        """Take a pending task."""
        with self.lock:
            if not self.tasks:
                return None
            return self.tasks.pop(-1 if newest else 0)

    @staticmethod
    def work(item):
        """Run a task."""
        task, args, future = item
        try:
            future.set_result(task(*args))
        except BaseException as e:  # noqa
            future.set_exception(e)

    def run(self, newest=False):
        """Run one."""
        item = self.take(newest)
        if item is not None:
            self.work(item)
        return item is not None

    def drain(self):
        """Run all."""
        while self.run():
            pass

    def open(self):
        """Nothing to open."""

    def flush(self, *args):
        """Run all."""
        self.drain()


class Point:
    """A tracepoint and the effects that it has on one run of the program."""

    def __init__(self, label, line, log=None, watches=(), metrics=(), accept=True, method=None, collect=True, extra=None):
        self.label, self.line, self.watches, self.metrics = label, line, list(watches), list(metrics)
        self.args = {'fire_count': '-1', 'fire_period': '0'}
        self.args.update(extra or {})
        if not collect:
            self.args['snapshot'] = 'no_collect'
        if log is not None:
            self.args['log_msg'] = log
        if method is not None:
            self.args['method_name'] = method
        if accept is not True:
            self.args['condition'] = 'v == %d' % (1 if accept else 2)
        self.accept, self.log, self.collect, self.method = accept is not False, log, collect, method

    def effects(self):
        """What it does, as texts."""
        if not self.accept:
            return []
        res = []
        where = 'call %s' % self.method if self.method else 'line %d' % self.line
        if self.collect:
            res.append('snapshot %s %s %s' % (where, sorted(self.args.items()), self.watches))
        if self.log is not None:
            res.append('log %s %s' % (where, '[deep] ' + self.log))
        res += ['metric %s %s' % (where, m) for m in self.metrics]
        return res

    def proto(self, tp_id):
        """As the service sends it."""
        return Tp(tp_id, 'host12.py', self.line, self.args, self.watches, [metric(m) for m in self.metrics]).proto()

    def definitions(self):
        """As given in code."""
        return [MetricDefinition(m, 'COUNTER') for m in self.metrics]


class Agent:
    """The services of an agent: poll, configuration, trigger handler."""

    def __init__(self, tasks=None):
        self.answers, self.events = [], []
        self.net = Net(self.answer)
        self.grpc = Service(self.net, self.metadata)
        self.effects = R.Effects()
        self.config = ConfigService({})
        self.config.plugins = [R.plugin(R.RecordingLogger, self.effects), R.plugin(R.RecordingMetrics, self.effects)]
        self.config.resource = Resource.create()
        self.tasks = tasks or Held()
        self.deep = Deep(self.config)
        self.config.set_task_handler(self.tasks)
        self.poller = LongPoll(self.config, self.grpc)
        self.handler = TriggerHandler(self.config, R.RecordingPush(self.effects))
        self.ns = host(PROGRAM, FILE)
        self.broken_metadata = None
        self.polls = 0

    def metadata(self):
        """Metadata, or a failure."""
        if self.broken_metadata is not None:
            error, self.broken_metadata = self.broken_metadata, None
            raise error
        return [('a', 'b')]

    def answer(self, call):
        """The service."""
        request = PollRequest.FromString(call.request)
        self.polls += 1
        self.events.append({'k': 'poll', 'hash': request.current_hash})
        what = self.answers.pop(0)
        if isinstance(what, BaseException):
            raise what
        return what

    def poll(self, kind, tps=(), hash_=''):
        """One poll that gets an answer of the kind; tps: (id, Point)."""
        event = {'k': 'failed'}
        if kind == 'update':
            self.answers.append(PollResponse(ts_nanos=1, current_hash=hash_, response_type=ResponseType.UPDATE,
                                             response=[p.proto(i) for i, p in tps]).SerializeToString())
            event = {'k': 'update', 'hash': hash_, 'tps': [p.effects() for _, p in tps]}
        elif kind == 'nochange':
            self.answers.append(PollResponse(ts_nanos=2, current_hash=hash_, response_type=ResponseType.NO_CHANGE,
                                             response=[p.proto(i) for i, p in tps]).SerializeToString())
            event = {'k': 'nochange'}
        elif kind == 'error':
            self.answers.append(FakeError())
        elif kind == 'odd':
            self.answers.append(Odd('odd'))
        elif kind == 'garbage':
            self.answers.append(b'\xff\xff\xff\xff garbage \x07')
        elif kind == 'unknown':
            self.answers.append(PollResponse(ts_nanos=3, current_hash='other', response_type=7,
                                             response=[p.proto(i) for i, p in tps]).SerializeToString())
        elif kind == 'none':
            self.answers.append(None)
        elif kind == 'auth':
            self.broken_metadata = ValueError('no token')
        try:
            self.poller.poll()
        except BaseException as e:  # noqa
            # the timer contains it; but an answer that is fine must not fail
            if kind in ('update', 'nochange'):
                self.events.append({'k': 'raised', 'what': kind + ' ' + type(e).__name__})
        self.answers.clear()
        self.events.append(event)

    def register(self, handle, point, path='host12.py'):
        """Register in code; returns the handle."""
        args, watches, metrics = dict(point.args), list(point.watches), point.definitions()
        kept = (dict(args), list(watches), list(metrics))
        more = {}
        if watches or point.log:
            more['watches'] = watches
        if metrics or point.log:
            more['metrics'] = metrics
        registration = self.deep.register_tracepoint(path, point.line, args, **more)
        self.events.append({'k': 'register', 'h': handle, 'tp': point.effects()})
        if (args, watches, metrics) != kept:
            self.events.append({'k': 'raised', 'what': 'register changes the values of its caller'})
        # the caller may do with its own values what it likes
        args.clear(), watches.append('later'), metrics.clear()
        return registration

    def unregister(self, handle, registration):
        """Unregister."""
        try:
            registration.unregister()
        except BaseException as e:  # noqa
            self.events.append({'k': 'raised', 'what': 'unregister ' + type(e).__name__})
        self.events.append({'k': 'unregister', 'h': handle})

    def acts(self):
        """What the agent does on one run of the program."""
        start = len(self.effects.items)
        seen = {}
        place = ['']
        handler = self.handler

        def tracer(frame, event, arg):
            if frame.f_code.co_filename == FILE:
                before = len(self.effects.items)
                place[0] = 'line %d' % frame.f_lineno if event == 'line' else '%s %s' % (event, frame.f_code.co_name)
                handler.trace_call(frame, event, arg)
                for item in self.effects.items[before:]:
                    text = describe(item)
                    if text is not None:
                        text = text.replace(' ', ' ' + place[0] + ' ', 1)
                        seen[text] = seen.get(text, 0) + 1
            return tracer

        def body():
            sys.settrace(tracer)
            try:
                self.ns['main'](1)
            finally:
                sys.settrace(None)

        thread = threading.Thread(target=body)
        thread.start()
        thread.join()
        del self.effects.items[start:]
        self.events.append({'k': 'acts', 'acts': [{'e': k, 'n': n} for k, n in sorted(seen.items())]})


def describe(item):
    """Text of an effect."""
    if item['kind'] == 'snapshot':
        tp = item['snapshot'].tracepoint
        return 'snapshot %s %s' % (sorted((k, str(v)) for k, v in tp.args.items()), [str(w) for w in tp.watches])
    if item['kind'] == 'log':
        return 'log ' + item['msg']
    if item['kind'] == 'metric':
        return 'metric ' + item['name']
    return None


def random_point(rng, label):
    """A random tracepoint."""
    collect = rng.random() < 0.5
    log = label if rng.random() < 0.7 or not collect else None
    return Point(label, rng.choice([2, 3, 3, 3, 7]), log=log, watches=rng.sample(['v', 'v + 1', 'len("a")'], rng.randint(0, 2)) if collect else (),
                 metrics=['m_%s_%d' % (label, k) for k in range(rng.choice([0, 0, 1, 2]))], accept=rng.choice([True, True, True, 'yes', False]),
                 method=rng.choice([None, None, None, 'second']), collect=collect)
