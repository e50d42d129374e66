"""An agent that is shut down and started again while the service and the registrations go on (C12, C13)."""
import sys
import threading

import deep.utils
import rig as R
from c12 import versions
from configs import FILE, PROGRAM, describe, random_point
from deep.api.deep import Deep
from deep.config import ConfigService
from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
from graphs import host
from net import FakeError, Net, bounded, wait_for


class World:
    """The service: it has a version, and sends it to those that report another."""

    def __init__(self, content):
        self.content, self.version, self.reachable, self.polls = content, 1, True, 0
        self.sent = []
        self.blocks = None      # the answer to the next poll arrives when this is set
        self.blocked = threading.Event()
        self.late = None

    def answer(self, call):
        """Answer a call."""
        if call.kind != 'poll':
            return b''
        self.polls += 1
        request = PollRequest.FromString(call.request)
        if not self.reachable:
            raise FakeError()
        gate, self.blocks = self.blocks, None
        version = self.version
        if gate is not None:
            self.late = threading.current_thread()
            self.blocked.set()
            gate.wait(30)
        if request.current_hash == 'hash-%d' % version:
            return PollResponse(ts_nanos=5, current_hash=request.current_hash, response_type=ResponseType.NO_CHANGE).SerializeToString()
        self.sent.append(version)
        return PollResponse(ts_nanos=5, current_hash='hash-%d' % version, response_type=ResponseType.UPDATE,
                            response=[p.proto(i) for i, p in self.content[version]]).SerializeToString()


class Acts:
    """What an agent does on a run of the program."""

    def __init__(self, deep, config):
        self.deep, self.ns, self.effects = deep, host(PROGRAM, FILE), R.Effects()
        config.plugins = [R.plugin(R.RecordingLogger, self.effects), R.plugin(R.RecordingMetrics, self.effects)]
        deep.trigger_handler._push_service = R.RecordingPush(self.effects)

    def __call__(self):
        """Run the program."""
        seen = {}

        def tracer(frame, event, arg):
            if frame.f_code.co_filename == FILE:
                before = len(self.effects.items)
                place = 'line %d' % frame.f_lineno if event == 'line' else '%s %s' % (event, frame.f_code.co_name)
                self.deep.trigger_handler.trace_call(frame, event, arg)
                for item in self.effects.items[before:]:
                    text = describe(item)
                    if text:
                        text = text.replace(' ', ' ' + place + ' ', 1)
                        seen[text] = seen.get(text, 0) + 1
            return tracer
        sys.settrace(tracer)
        try:
            self.ns['main'](1)
        finally:
            sys.settrace(None)
        return seen


def want_of(points):
    """What it has to do."""
    want = {}
    for point in points:
        for text in point.effects():
            want[text] = want.get(text, 0) + 1
    return want


def lives(check, rng, count):
    """Several lives of one agent."""
    stop = getattr(deep.utils, 'STOP_TIMEOUT', None)
    if stop is not None:
        deep.utils.STOP_TIMEOUT = 0.05
    try:
        for n in range(count):
            if check.late() or not one(check, rng, n):
                break
            check.traces += 1
    finally:
        if stop is not None:
            deep.utils.STOP_TIMEOUT = stop


def one(check, rng, n):
    """One agent."""
    content = versions(rng, 4)
    for v in content:
        content[v] = content[v] or [('only%d' % v, random_point(rng, 'only%d' % v))]
    world = World(content)
    history = []
    with Net(world.answer):
        config = ConfigService({'POLL_TIMER': 0.01, 'PLUGINS': []})
        agent = Deep(config)
        live, gone, serial = [], [], 0

        def fail(what, **more):
            check.violation(what, dict(more, history=history, live=[str(p.effects()) for p, _ in live]))
            return False

        def settles(what, *versions_):
            acts = Acts(agent, config)
            wants = [want_of([p for _, p in (content[v] if v else ())] + [p for p, _ in live]) for v in versions_]
            if wait_for(lambda: acts() in wants, 8):
                return True
            got = acts()
            return fail(what, got=got, missing={k: v for k, v in wants[0].items() if got.get(k) != v}, extra={k: v for k, v in got.items() if wants[0].get(k) != v})

        known = {0}       # versions that it can have
        try:
            for life in range(rng.choice([2, 2, 3])):
                world.reachable = rng.random() < (0.7 if life == 0 else 0.4)
                if rng.random() < 0.5:
                    world.version = min(world.version + 1, 4)
                history.append('start, service %s, version %d' % ('answers' if world.reachable else 'fails', world.version))
                how, error = bounded(agent.start)
                if how != 'done':
                    return fail('the agent does not start', how=how, error=repr(error))
                if not world.reachable:
                    at = world.polls
                    wait_for(lambda: world.polls > at + 1, 10)
                    if not settles('started again without a service: not what it had and what is registered', *sorted(known, reverse=True)):
                        return False
                for _ in range(rng.randint(0, 3)):
                    if rng.random() < 0.7 or not live:
                        serial += 1
                        point = random_point(rng, 'code%d' % serial)
                        live.append((point, agent.register_tracepoint('host12.py', point.line, dict(point.args), list(point.watches), point.definitions())))
                        history.append('register %d' % serial)
                    else:
                        point, handle = live.pop(rng.randrange(len(live)))
                        handle.unregister()
                        gone.append(handle)
                        history.append('unregister ' + point.label)
                if rng.random() < 0.7:
                    world.reachable = True
                if world.reachable:
                    history.append('service answers')
                    if not settles('the agent does not act on the latest configuration', world.version):
                        return False
                    known = {world.version}
                late = None
                if world.reachable and rng.random() < 0.5:
                    # a poll is answered after the shutdown
                    world.blocked.clear()
                    world.version = min(world.version + 1, 4)
                    late = world.blocks = threading.Event()
                    if not world.blocked.wait(10):
                        return fail('polling does not continue')
                    known = known | {world.version}
                    history.append('version %d is answered late' % world.version)
                history.append('shutdown')
                how, error = bounded(agent.shutdown, limit=20)
                if how != 'done':
                    return fail('the shutdown does not return', how=how, error=repr(error))
                if late is not None:
                    late.set()
                    world.late.join(10)
                while live and rng.random() < 0.4:
                    point, handle = live.pop(rng.randrange(len(live)))
                    handle.unregister()
                    gone.append(handle)
                    history.append('unregister %s while it is down' % point.label)
                if gone and rng.random() < 0.4:
                    rng.choice(gone).unregister()
            world.reachable = True
            history.append('start')
            how, error = bounded(agent.start)
            if how != 'done':
                return fail('the agent does not start', how=how, error=repr(error))
            return settles('the agent does not act on the latest configuration, after another start', world.version)
        finally:
            world.blocks = None
            bounded(agent.shutdown, limit=10)
