"""C14: hooks installed once, restored exactly; shutdown always completes; nothing happens afterwards."""
import os
import queue
import random
import sys
import threading
import types

from deep.api.deep import Deep
from deep.api.plugin import Plugin, ResourceProvider, SnapshotDecorator, TracepointLogger
from deep.api.resource import Resource
from deep.config import ConfigService
from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
from graphs import host
from net import Net, FakeError, bounded, wait_for
from rig import Installed, Tp

FAULTS = {'always': 'Untouched', 'resave': 'Restored', 'late': ['NoLateActs', 'Complete'], 'aborts': ['Complete', 'Restored'], 'disabledrestore': 'Untouched',
          'sysonly': 'Restored', 'clear': 'Restored', 'noflush': 'Complete'}
SOURCE = '''def work(wait):
    x = 1
    wait()
    y = 2  # T
    return y
'''
FILE = '/app/src/host14.py'


class Odd(BaseException):
    """No Exception."""


def hook_a(frame, event, arg):
    """A hook of the host."""


def hook_b(frame, event, arg):
    """Another hook of the host."""


def hook_x(frame, event, arg):
    """A hook of another thread."""


HOOKS = {'none': None, 'A': hook_a, 'B': hook_b}


class World:
    """What the plugins of the agent see (one life at a time)."""

    now = None

    def __init__(self):
        self.effects, self.downs, self.fail, self.ups = 0, {}, {}, 0
        self.logs = 0
        self.lock = threading.Lock()

    def act(self, log=False):
        """The agent did something."""
        with self.lock:
            self.effects += 1
            self.logs += log


def down(plugin):
    """A plugin is shut down."""
    name = type(plugin).__name__
    world = World.now
    world.downs[name] = world.downs.get(name, 0) + 1
    error = world.fail.get(name)
    if error is not None:
        raise error


class First(ResourceProvider):
    """Provides a resource."""

    def resource(self):
        """A resource."""
        return Resource.create({'from': 'first'})

    def shutdown(self):
        """Count."""
        down(self)


class Second(TracepointLogger):
    """Records the log."""

    def order(self):
        """Before the built in ones."""
        return -5

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        """Count."""
        World.now.act(log=True)

    def shutdown(self):
        """Count."""
        down(self)


class Third(SnapshotDecorator):
    """Decorates."""

    def decorate(self, snapshot_id, context):
        """Count."""
        World.now.act()

    @property
    def shutdown(self):
        """Count (it can fail before there is a function to call)."""
        if World.now.fail.get('Third') is not None:
            down(self)
        return lambda: down(self)


module = types.ModuleType('plugins14')
for _cls in (First, Second, Third):
    setattr(module, _cls.__name__, _cls)
sys.modules['plugins14'] = module
PLUGINS = ['plugins14.First', 'plugins14.Second', 'plugins14.Third']


class Thread14:
    """A thread that does what it is told to."""

    def __init__(self, trace=None):
        self.inbox, self.outbox = queue.Queue(), queue.Queue()
        self.thread = threading.Thread(target=self.body, args=(trace,), daemon=True)
        self.thread.start()

    def body(self, trace):
        """Loop."""
        if trace is not None:
            sys.settrace(trace)
        while True:
            func = self.inbox.get()
            if func is None:
                return
            try:
                self.outbox.put(('done', func()))
            except BaseException as e:  # noqa
                self.outbox.put(('raised', e))

    def send(self, func):
        """Start something."""
        self.inbox.put(func)

    def result(self, limit=40):
        """Its result."""
        try:
            return self.outbox.get(timeout=limit)
        except queue.Empty:
            return ('stuck', None)

    def call(self, func, limit=40):
        """Do something."""
        self.send(func)
        return self.result(limit)

    def end(self):
        """End."""
        self.inbox.put(None)


class Life:
    """One agent, driven step by step."""

    def __init__(self, rng, enabled, fails, settings, through_env):
        self.rng, self.enabled, self.fails = rng, enabled, fails
        self.world = World.now = World()
        self.net = Net(self.answer)
        self.ns = host(SOURCE, FILE)
        self.polls_fail = False
        self.slow = rng.random() < 0.4
        for name in ('First', 'Second', 'Third'):
            if name in fails:
                self.world.fail[name] = rng.choice([ValueError('no'), Odd('no'), SystemExit(2)])
        self.alien_hook = rng.choice([None, hook_x])
        self.main = Thread14()
        self.other = Thread14(self.alien_hook)
        self.workers = []
        self.events = []
        self.through_env = through_env
        config = {'PLUGINS': PLUGINS, 'POLL_TIMER': 0.004, 'IN_APP_INCLUDE': [], 'APP_ROOT': '/app'}
        config.update(settings)
        self.config = ConfigService(config)
        self.installed = Installed(self.config)
        self.deep = Deep(self.config)
        self.installed.rest(self.config)
        self.hash = ''

    def answer(self, call):
        """The service."""
        if call.kind == 'send':
            if self.slow:
                threading.Event().wait(0.01)
            if 'delivery' in self.fails:
                raise self.rng.choice([FakeError(), ValueError('send'), Odd('send')])
            return b''
        request = PollRequest.FromString(call.request)
        if 'service' in self.fails and request.current_hash == 'h':
            raise FakeError()
        update = request.current_hash != 'h'
        tps = [Tp('tp', 'host14.py', 4, {'fire_count': '-1', 'fire_period': '0', 'log_msg': 'hit'}).proto()] if update else ()
        return PollResponse(ts_nanos=1, current_hash='h', response=tps,
                            response_type=ResponseType.UPDATE if update else ResponseType.NO_CHANGE).SerializeToString()

    @staticmethod
    def name(hook, deep):
        """Name of a hook."""
        for name, known in HOOKS.items():
            if hook is known:
                return name
        if getattr(hook, '__self__', None) is deep.trigger_handler:
            return 'agent'
        return 'agent' if 'deep' in getattr(hook, '__module__', '') else 'other'

    def hooks(self):
        """The hooks of the process, seen by the main thread."""
        self.ns['work'](lambda: None) if False else None
        return sys.gettrace(), threading.gettrace()

    def step(self, op, arg):
        """One step; adds an event."""
        before, polls = self.world.effects, len(self.net.of('poll'))
        how, error = 'done', None
        if op == 'sys':
            self.main.call(lambda: sys.settrace(HOOKS[arg]))
        elif op == 'thr':
            self.main.call(lambda: threading.settrace(HOOKS[arg]))
        elif op == 'start':
            how, error = self.main.call(self.deep.start)
            if how == 'done':
                wait_for(lambda: self.installed.count > 0, 5)
                wait_for(lambda: len(self.net.of('poll')) > polls, 5)
        elif op == 'stop':
            if 'close' in self.fails:
                for channel in self.net.channels:
                    channel.close = self.broken_close
            how, error = (self.other if arg == 'other' else self.main).call(self.deep.shutdown)
            unsent = self.world.logs - len(self.net.of('send'))
            if arg == 'other':
                # the thread that started gets its hook back the next time that it does something
                self.main.call(lambda: self.ns['work'](lambda: None))
        elif op == 'hit':
            if arg == 'here':
                self.main.call(lambda: self.ns['work'](lambda: None))
            else:
                # a thread that lives on, inside of a traced function
                worker = Thread14()
                gate = threading.Event()
                worker.call(lambda: self.ns['work'](lambda: None))
                worker.send(lambda: self.ns['work'](lambda: gate.wait(60)))
                self.workers.append((worker, gate))
        if op != 'stop':
            unsent = 0
        if op == 'stop':
            # threads that are inside of a traced function go on
            polls = len(self.net.of('poll'))
            after = self.world.effects
            for worker, gate in self.workers:
                gate.set()
                worker.result(10)
                worker.call(lambda: self.ns['work'](lambda: None), 10)
                worker.end()
            self.workers = []
            self.main.call(lambda: self.ns['work'](lambda: None))
            threading.Event().wait(0.02)
            before = after
        _, (sys_hook, thr_hook) = self.main.call(self.hooks)
        _, alien = self.other.call(sys.gettrace)
        self.events.append({
            'op': op, 'arg': arg, 'sys': self.name(sys_hook, self.deep), 'thr': self.name(thr_hook, self.deep),
            'alien': 'same' if alien is self.alien_hook else 'changed', 'effects': self.world.effects - before,
            'polls': len(self.net.of('poll')) - polls, 'downs': [self.world.downs.get(n, 0) for n in ('First', 'Second', 'Third')],
            'unsent': unsent, 'raised': repr(error) if how == 'raised' else '', 'returned': how != 'stuck'})
        return how != 'stuck'

    @staticmethod
    def broken_close():
        """A channel that cannot be closed."""
        raise ValueError('cannot close')

    def run(self, ops):
        """Live."""
        sys_hook, thr_hook = self.rng.choice(list(HOOKS)), self.rng.choice(list(HOOKS))
        old = threading.gettrace()
        self.main.call(lambda: sys.settrace(HOOKS[sys_hook]))
        threading.settrace(HOOKS[thr_hook])
        try:
            with self.net:
                for op in ops:
                    if not self.step(op['op'], op['arg']):
                        break
                bounded(self.deep.shutdown, limit=10)
        finally:
            threading.settrace(old)
            for worker, gate in self.workers:
                gate.set()
                worker.end()
            self.main.end()
            self.other.end()
        return {'sys': sys_hook, 'thr': thr_hook, 'enabled': self.enabled, 'events': self.events}


OFF = [True, 'True', 'true', '1', 'yes']
ON = [None, False, 'False', 'false', '0', 'no', '']


def live(check, cases, rng, ident, enabled, ops):
    """One life."""
    if check.late():
        return
    fails = set()
    if rng.random() < 0.6:
        fails = set(rng.sample(['First', 'Second', 'Third', 'delivery', 'service', 'close'], rng.choice([1, 1, 2, 3])))
    value = rng.choice(ON if enabled else OFF)
    settings, env = {}, {}
    through_env = rng.random() < 0.3 and not isinstance(value, (bool, type(None)))
    if through_env:
        env['DEEP_NO_TRACE'] = value
    elif value is not None or rng.random() < 0.5:
        settings['NO_TRACE'] = value
    os.environ.update(env)
    try:
        life = Life(rng, enabled, fails, settings, through_env)
        case = life.run(ops)
    finally:
        for key in env:
            del os.environ[key]
    case.update(id=ident, what={'fails': sorted(fails), 'NO_TRACE': repr(value), 'env': through_env, 'ops': [o['op'] + ' ' + o['arg'] for o in ops]})
    cases.append(case)


def random_ops(rng, enabled, length):
    """A random life."""
    ops, up = [], False
    for _ in range(length):
        choice = rng.choice(['start', 'stop', 'hit', 'hit', 'sys', 'thr'])
        if choice in ('sys', 'thr') and up and enabled:
            choice = 'hit'
        arg = ''
        if choice in ('sys', 'thr'):
            arg = rng.choice(list(HOOKS))
        elif choice == 'stop':
            arg = rng.choice(['here', 'here', 'other'])
            up = False
        elif choice == 'start':
            up = True
        elif choice == 'hit':
            arg = rng.choice(['here', 'new'])
        ops.append({'op': choice, 'arg': arg})
    return ops


def cycle_ops(lives):
    """The steps of an agent that is started and shut down several times."""
    ops = []
    for one in lives:
        for what in ('sys', 'thr'):
            if one[what] != 'keep':
                ops.append({'op': what, 'arg': one[what]})
        ops.append({'op': 'start', 'arg': ''})
        if one['hit'] != 'none':
            ops.append({'op': 'hit', 'arg': one['hit']})
        ops.append({'op': 'stop', 'arg': one['how']})
    return ops


def nested(check, rng):
    """Two agents, one inside of the other: each puts back what it found; starts at the same time install once."""
    for n in range(check.pick(6, 40)):
        World.now = World()
        net = Net(lambda call: PollResponse(response_type=ResponseType.NO_CHANGE).SerializeToString())
        main = Thread14()
        old = threading.gettrace()
        sys_hook, thr_hook = rng.choice(list(HOOKS)), rng.choice(list(HOOKS))
        main.call(lambda: sys.settrace(HOOKS[sys_hook]))
        threading.settrace(HOOKS[thr_hook])
        try:
            with net:
                first, second = [Deep(ConfigService({'PLUGINS': [], 'POLL_TIMER': 0.5})) for _ in range(2)]
                seen = []

                def look():
                    seen.append((sys.gettrace(), threading.gettrace()))

                for func in (look, first.start, look, second.start, look, second.shutdown, look, first.shutdown, look):
                    if main.call(func)[0] != 'done':
                        check.violation('starting or shutting down a second agent does not work', {'step': func.__name__})
                        return
                if seen[0] != seen[4] or seen[1] != seen[3]:
                    check.violation('the trace hooks are not those from before the start', {'nested': True, 'seen': repr(seen)})
                # at the same time
                third = Deep(ConfigService({'PLUGINS': [], 'POLL_TIMER': 0.5}))
                threads = [Thread14() for _ in range(3)]
                calls = len(net.of('poll'))
                for t in threads:
                    t.send(third.start)
                for t in threads:
                    if t.result()[0] != 'done':
                        check.violation('repeated starts at the same time do not come back', {})
                        return
                if len(net.of('poll')) != calls + 1:
                    check.violation('repeated starts do something', {'polls': len(net.of('poll')) - calls})
                main.call(third.shutdown)
                if threading.gettrace() is not HOOKS[thr_hook]:
                    check.violation('the trace hooks are not those from before the start', {'started by several threads': True})
                for t in threads:
                    t.end()
        finally:
            threading.settrace(old)
            main.end()
        check.traces += 1


def hangs(check, rng):
    """The service never answers a poll (and, in the thorough tier, a delivery): the shutdown is complete all the same."""
    for what in ['poll', 'send'] if check.thorough else ['poll']:
        gate, calls = threading.Event(), {'poll': 0, 'send': 0}

        def answer(call):
            calls[call.kind] += 1
            if call.kind == what and calls[what] > (1 if what == 'poll' else 0):
                gate.wait(200)
            update = calls['poll'] <= 1
            tps = [Tp('tp', 'host14.py', 4, {'fire_count': '-1', 'fire_period': '0'}).proto()] if update else ()
            return PollResponse(current_hash='h', response=tps, response_type=ResponseType.UPDATE if update else ResponseType.NO_CHANGE).SerializeToString() \
                if call.kind == 'poll' else b''

        World.now = World()
        main, old = Thread14(), threading.gettrace()
        threading.settrace(hook_a)
        try:
            with Net(answer):
                config = ConfigService({'PLUGINS': PLUGINS, 'POLL_TIMER': 0.01})
                installed = Installed(config)
                deep = Deep(config)
                installed.rest(config)
                main.call(lambda: sys.settrace(hook_b))
                main.call(deep.start)
                wait_for(lambda: installed.count > 0, 5)
                ns = host(SOURCE, FILE)
                main.call(lambda: ns['work'](lambda: None))
                wait_for(lambda: calls[what] > (1 if what == 'poll' else 0), 5)
                how, error = main.call(deep.shutdown, limit=120)
                _, seen = main.call(sys.gettrace, 5)
                if how != 'done' or seen is not hook_b or threading.gettrace() is not hook_a or sorted(World.now.downs.values()) != [1, 1, 1]:
                    check.violation('a shutdown is not complete when the service does not answer', {
                        'never answered': what, 'shutdown': how, 'error': repr(error), 'hooks': [repr(seen), repr(threading.gettrace())], 'plugins': World.now.downs})
        finally:
            gate.set()
            threading.settrace(old)
            main.end()
        check.traces += 1


def run(check):
    rng = random.Random(check.seed * 2741 + 14)
    const = dict(Hooks='{"none", "A"}', Plugins='{"p", "q"}', MaxStarts=2, MaxPending=check.pick(1, 2), MaxHost=check.pick(1, 2))
    for enabled in ('TRUE', 'FALSE'):
        check.model('Lifecycle', 'enabled=' + enabled, spec='Fair', invariants=['Complete', 'Running', 'NoLateActs'], properties=['Restored', 'Untouched', 'Completes'],
                    constants=dict(const, Enabled=enabled, Fault='"none"'))
    for fault, names in FAULTS.items():
        off = fault in ('always', 'disabledrestore')
        check.model('Lifecycle', 'faulty: ' + fault, expect=names, invariants=['Complete', 'NoLateActs'], properties=['Restored', 'Untouched'],
                    constants=dict(const, Enabled='FALSE' if off else 'TRUE', Fault='"%s"' % fault))
    lives = check.generate('LifecycleGen', 'lives', 'LIFE', constraints=['Emit'], workers=4, constants=dict(
        Steps=check.pick(4, 5), Hooks='{"none", "A"}', Enabled='{TRUE, FALSE}'))
    check.notes['generated_lives'] = len(lives)
    cases = []
    for n, one in enumerate(rng.sample(lives, min(len(lives), check.pick(350, 6000)))):
        live(check, cases, rng, 'gen%d' % n, one['enabled'], one['ops'])
    cycles = check.generate('LifecycleCycles', 'cycles', 'CYCLES', constraints=['Emit'], workers=4, constants=dict(
        Lives=2, Hooks='{"none", "A", "B"}', Enabled='{TRUE, FALSE}' if check.thorough else '{TRUE}'))
    check.notes['generated_cycles'] = len(cycles)
    for n, one in enumerate(rng.sample(cycles, min(len(cycles), check.pick(200, 4000)))):
        live(check, cases, rng, 'cyc%d' % n, one['enabled'], cycle_ops(one['lives']))
    for n in range(check.pick(100, 2000)):
        enabled = rng.random() < 0.65
        live(check, cases, rng, 'rnd%d' % n, enabled, random_ops(rng, enabled, rng.randint(5, 12)))
    nested(check, rng)
    hangs(check, rng)
    failing = check.judge('LifecycleJudge', cases)
    by_id = {c['id']: c for c in cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
    check.sample(cases[0])
    check.assumptions += ['the host does not replace the hooks while the agent has them installed',
                          'after a shutdown by another thread the thread that started gets its hook back at its next traced event']
