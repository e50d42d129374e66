"""C20: loading plugins, and lives of agents whose plugins fail."""
import importlib.abc
import importlib.machinery
import os
import random
import sys
import threading
import types

import boot  # noqa: F401

from deep.api.attributes import BoundedAttributes
from deep.api.deep import Deep
from deep.api.plugin import ResourceProvider, SnapshotDecorator, TracepointLogger, Plugin, load_plugins
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import SpanProcessor, Span
from deep.api.resource import Resource
from deep.config import ConfigService
from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot
from graphs import host
from net import Net, bounded, wait_for
from rig import Installed, Tp

FAULTS = {'keepsinactive': 'LoadsTheGood', 'missingstops': 'LoadsTheGood', 'brokenescapes': 'Lives', 'unsorted': 'Ordered', 'clears': 'OnlyItsOwn'}
FAULTS.update({'escape ' + c: 'Lives' for c in ('resource', 'shutdown')})
FAULTS.update({'escape ' + c: ['OnlyItsOwn', 'Delivered', 'SpansClosed'] for c in ('decorate', 'open', 'metric', 'log')})
FAULTS.update({'break ' + c: 'OnlyItsOwn' for c in ('resource', 'decorate', 'open', 'metric', 'shutdown')})
FAULTS['break close'] = FAULTS['escape close'] = 'SpansClosed'
INVARIANTS = ['LoadsTheGood', 'Ordered', 'OnlyItsOwn', 'SpansClosed', 'Delivered']
BUILTIN = ['OTelPlugin', 'PythonPlugin', 'PrometheusPlugin', 'OTelMetrics']
ROLES = {'resource': ResourceProvider, 'decorate': SnapshotDecorator, 'log': TracepointLogger, 'span': SpanProcessor, 'metric': MetricProcessor}
MODULE = 'plugins20'


# ---- faults ----------------------------------------------------------------------------------------------------------
class Odd(BaseException):
    """No Exception."""


class Mute(Exception):
    """Cannot be shown."""

    def __str__(self):
        raise ValueError('no text')

    __repr__ = __str__


def errors():
    """Kinds of failures."""
    return [ValueError('no'), Odd('no'), Mute(), SystemExit(3), StopIteration(), GeneratorExit(), RecursionError('deep'), MemoryError(), KeyError('k'),
            ImportError('x'), AttributeError('y'), AssertionError(), OSError(5, 'io'), UnicodeDecodeError('utf-8', b'x', 0, 1, 'z')]


class World:
    """What the plugins of this life do."""

    calls = []
    fails = None
    lock = threading.Lock()
    hit = 0

    @classmethod
    def call(cls, name, callback, odd=None):
        """A callback of a plugin: fails if it is to fail."""
        with cls.lock:
            n = sum(1 for c in cls.calls if c['p'] == name and c['c'] == callback)
            item = {'p': name, 'c': callback, 'at': cls.hit, 'n': n, 'how': 'ok'}
            cls.calls.append(item)
            how = cls.fails(name, callback, n) if cls.fails else None
        if how is None:
            return n, None
        if how == 'odd':
            if odd is None:
                return n, None
            item['how'] = 'odd'
            return n, odd
        item['how'] = 'raise'
        raise how


class Traced(Span):
    """A span of a plugin."""

    def __init__(self, owner, name, method):
        self.owner, self._n, self.method = owner, name, method

    name = property(lambda self: self._n)
    trace_id = property(lambda self: 't')
    span_id = property(lambda self: 's')

    def add_attribute(self, key, value):
        """Ignore."""

    def add_event(self, name, attributes=None):
        """Ignore."""

    def close(self):
        """Close."""
        World.call(self.owner, 'close2' if self.method else 'close')


class Base(Plugin):
    """What all the plugins have."""

    label = ''
    place = 0
    special = ''
    named = None

    def __init__(self, name=None, config=None):
        super().__init__(self.named or name, config)

    def order(self):
        """The declared order."""
        if self.special == 'order raises':
            raise errors()[World.hit % 3]
        return self.place

    def is_active(self):
        """Is it on."""
        if self.special == 'active raises':
            raise Odd('no')
        if self.special == 'inactive':
            return False
        return super().is_active()

    def shutdown(self):
        """Stop."""
        World.call(self.label, 'shutdown')


class Unshown(Base):
    """Cannot be shown."""

    def __repr__(self):
        raise ValueError('no text')

    __str__ = __repr__


def _resource(self):
    n, odd = World.call(self.label, 'resource', 'odd')
    if odd:
        return random.choice(['text', {'a': 'b'}, 7, [1]])
    return Resource({'r.' + self.label: 'yes', 'r.shared': self.label})


def _decorate(self, snapshot_id, context):
    n, odd = World.call(self.label, 'decorate', 'odd')
    if odd:
        return random.choice(['text', 7, [1], object()])
    return BoundedAttributes(attributes={'d.%s.%d' % (self.label, n): 'yes'})


def _log(self, log_msg, tp_id, ctx_id):
    World.call(self.label, 'log2' if tp_id == 'only' else 'log')


def _span(self, name, context_id, tracepoint_id):
    method = tracepoint_id == 'method'
    n, odd = World.call(self.label, 'open2' if method else 'open', 'odd')
    if odd:
        return random.choice(['text', 7, object()])
    return Traced(self.label, name, method)


def _metric(self, name, labels, namespace, help_string, unit, value):
    World.call(self.label, 'metric')


BODIES = {'resource': {'resource': _resource}, 'decorate': {'decorate': _decorate}, 'log': {'log_tracepoint': _log},
          'span': {'create_span': _span, 'current_span': lambda self: None},
          'metric': {'counter': _metric, 'gauge': _metric, 'histogram': _metric, 'summary': _metric, 'clear': lambda self: None}}


def make(module, label, roles, place=0, special='', unshown=False, named=None):
    """A plugin class in the module."""
    body = {'label': label, 'place': place, 'special': special, '__module__': MODULE, 'named': named}
    for role in roles:
        body.update(BODIES[role])
    if special == 'ctor raises':
        def ctor(self, name=None, config=None):
            raise random.choice(errors())
        body['__init__'] = ctor
    elif special == 'ctor signature':
        body['__init__'] = lambda self: None
    elif special == 'abstract':
        body.pop('resource', None)
        cls = type(label, (ResourceProvider,), {'__module__': MODULE})
        setattr(module, label, cls)
        return cls
    elif special == 'no class':
        setattr(module, label, random.choice([5, 'text', None, lambda: None, object()]))
        return None
    elif special == 'no plugin':
        setattr(module, label, type(label, (), {'__init__': lambda self, config=None: None}))
        return None
    elif special == 'no attribute':
        return None
    cls = type(label, (Unshown if unshown else Base,) + tuple(ROLES[r] for r in roles), body)
    setattr(module, label, cls)
    return cls


class Bad(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Modules that cannot be imported."""

    def find_spec(self, fullname, path, target=None):
        """Find."""
        if fullname.startswith('broken20'):
            return importlib.machinery.ModuleSpec(fullname, self)
        return None

    def create_module(self, spec):
        """Create."""
        return None

    def exec_module(self, module):
        """Fail."""
        kinds = [ImportError('no'), SystemExit(1), SyntaxError('x'), Odd('no'), Mute(), ValueError('x')]
        raise kinds[len(module.__name__) % len(kinds)]


sys.meta_path.insert(0, Bad())
ORDERS = [0, 0, 0, 1, 2, -1, -5, 100, 1.5, -0.5, 0.25, True, 2 ** 40, float('inf'), float('-inf')]
SKIPS = ['ctor raises', 'ctor signature', 'abstract', 'no class', 'no plugin', 'no attribute', 'active raises', 'inactive', 'off', 'off', 'missing', 'import', 'no dot',
         'no text']
OFF = [False, 'False', 'false', 'FALSE', 'no', '0']
ON = [True, 'True', 'true', 'TRUE', '1', 'yes', None]


def some_plugins(rng, count, config, env):
    """Configured plugins; returns (names, descriptions)."""
    module = types.ModuleType(MODULE)
    sys.modules[MODULE] = module
    names, items = [], []
    for index in range(count):
        label = 'P%d' % index
        roles = rng.sample(list(ROLES), rng.choice([1, 1, 2, 3, 5]))
        kind = rng.random()
        place = rng.choice(ORDERS)
        item = {'name': label, 'cond': 'ok', 'place': place, 'roles': roles}
        full = MODULE + '.' + label
        if kind < 0.3:
            special = rng.choice(SKIPS)
            item['cond'] = 'skip'
            if special == 'missing':
                full = rng.choice(['no.such.thing.', 'deep.api.plugin.', 'deep.no_such.', MODULE + '.deeper.', '..']) + label
            elif special == 'import':
                full = 'broken20' + 'x' * rng.randint(0, 5) + '.' + label
            elif special == 'no dot':
                full = label
            elif special == 'no text':
                full = rng.choice([None, 5, '', b'a.b'])
            elif special == 'off':
                make(module, label, roles, place)
                key = ('PLUGIN_%s' % label).upper()
                if rng.random() < 0.5:
                    config[key] = rng.choice(OFF)
                    if rng.random() < 0.2:
                        config[key] = lambda value=config[key]: value
                else:
                    env['DEEP_' + key] = rng.choice([o for o in OFF if isinstance(o, str)])
            else:
                make(module, label, roles, place, special)
        elif kind < 0.36:
            item['cond'] = 'either'
            item['place'] = 0
            if rng.random() < 0.5:
                make(module, label, roles, 0, 'order raises')
            else:
                make(module, label, roles, rng.choice([None, 'x', [], object(), float('nan'), 10 ** 400]))
        else:
            # names do not have to be unique
            named = rng.choice(['twin', 'twin', 'a name', '\xfc', label.lower()]) if rng.random() < 0.3 else None
            make(module, label, roles, place, unshown=rng.random() < 0.1, named=named)
            if rng.random() < 0.2 and not named:
                key = ('PLUGIN_%s' % label).upper()
                if rng.random() < 0.5:
                    config[key] = rng.choice(ON)
                else:
                    env['DEEP_' + key] = rng.choice([o for o in ON if isinstance(o, str)])
        names.append(full)
        items.append(item)
    return names, items


def ranks(items):
    """Orders as small integers."""
    places = sorted({item['place'] for item in items})
    return [{'name': item['name'], 'cond': item['cond'], 'order': places.index(item['place']), 'roles': item['roles']} for item in items]


class Environ:
    """Variables for a while."""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        """Set."""
        os.environ.update(self.env)

    def __exit__(self, *args):
        """Remove."""
        for key in self.env:
            os.environ.pop(key, None)


class Missing:
    """Dependencies that are not installed, for a while."""

    def __init__(self, packages):
        self.packages, self.saved = packages, {}

    def __enter__(self):
        """Hide."""
        for name in list(sys.modules):
            if any(name == p or name.startswith(p + '.') for p in self.packages) or (self.packages and name in PLUGIN_MODULES):
                self.saved[name] = sys.modules.pop(name)
        for package in self.packages:
            sys.modules[package] = None

    def __exit__(self, *args):
        """Show again."""
        if self.packages:
            for name in list(sys.modules):
                if any(name == p or name.startswith(p + '.') for p in self.packages) or name in PLUGIN_MODULES:
                    sys.modules.pop(name)
            sys.modules.update(self.saved)


PLUGIN_MODULES = ('deep.api.plugin.otel', 'deep.api.plugin.metric.prometheus_metrics', 'deep.api.plugin.metric.otel_metrics')
NEEDS = {'OTelPlugin': ['opentelemetry'], 'PrometheusPlugin': ['prometheus_client'], 'OTelMetrics': ['opentelemetry'], 'PythonPlugin': []}


def loads(rng, n):
    """load_plugins with some plugins."""
    config, env = {}, {}
    names, items = some_plugins(rng, rng.choice([0, 1, 2, 3, 4, 6, 8]), config, env)
    missing = rng.choice([[], [], ['opentelemetry'], ['prometheus_client'], ['opentelemetry', 'prometheus_client']])
    off = [b for b in BUILTIN if rng.random() < 0.3]
    for builtin in off:
        key = 'PLUGIN_' + builtin.upper()
        if rng.random() < 0.5:
            config[key] = rng.choice(OFF)
        else:
            env['DEEP_' + key] = 'False'
    builtins = [{'name': b, 'cond': 'skip' if b in off or set(NEEDS[b]) & set(missing) else 'ok', 'place': 0, 'roles': []} for b in BUILTIN]
    case = {'id': 'load%d' % n, 'kind': 'load', 'plugins': ranks(builtins + items), 'raised': '', 'got': []}
    World.calls, World.fails, World.hit = [], None, rng.randint(0, 2)
    with Environ(env), Missing(missing):
        how, value = bounded(lambda: load_plugins(ConfigService(config), rng.choice([names, tuple(names)]) if names or rng.random() < 0.5 else None))
        if how != 'done':
            case['raised'] = how + ' ' + type(value).__name__
        else:
            case['got'] = [getattr(p, 'label', '') or type(p).__name__ for p in value]
    return case


# ---- lives -----------------------------------------------------------------------------------------------------------
SOURCE = '''def work(hit):
    x = hit
    y = x + 1  # everything
    z = y + 1  # only
    other(z)
    return z


def other(v):
    w = v
    return w
'''
FILE = '/app/src/host20.py'
METRICS = [['COUNTER', 'GAUGE'], ['HISTOGRAM', 'SUMMARY'], ['COUNTER'], ['GAUGE', 'COUNTER', 'SUMMARY']]
ALWAYS = {'fire_count': '-1', 'fire_period': '0'}


def life(ident, names, items, config, env, fails, hits, rng, builtin=(), sick=False):
    """A life of an agent."""
    kinds = rng.choice(METRICS)
    metric_name = rng.choice(['m', 'bad name', 'a.b', '', '1', 'm' * 300]) if builtin else 'm'
    metrics = [{'name': '%s%d' % (metric_name, i), 'type_': kind, 'labels': [('a', 'static', 'x')] if rng.random() < 0.5 else [('bad label!', 'static', 'x')]}
               for i, kind in enumerate(kinds)]
    tps = [Tp('all', 'host20.py', 3, dict(ALWAYS, log_msg='y {x}', span='line'), ['x'], metrics),
           Tp('only', 'host20.py', 4, dict(ALWAYS, log_msg='z {y}', snapshot='no_collect')),
           Tp('method', 'host20.py', 0, dict(ALWAYS, span='method', method_name='other', snapshot='no_collect'))]

    def answer(call):
        if call.kind == 'send':
            return b''
        update = PollRequest.FromString(call.request).current_hash != 'h'
        return PollResponse(ts_nanos=1, current_hash='h', response=[tp.proto() for tp in tps] if update else (),
                            response_type=ResponseType.UPDATE if update else ResponseType.NO_CHANGE).SerializeToString()
    settings = dict(config, PLUGINS=names, POLL_TIMER=0.005, APP_ROOT='/app', IN_APP_INCLUDE=[])
    for b in BUILTIN:
        settings['PLUGIN_' + b.upper()] = 'True' if b in builtin else 'False'
    if 'PythonPlugin' in builtin:
        # it is a logger as well
        items = [dict(item, roles=[r for r in item['roles'] if r != 'log']) for item in items]
    expand = {'span': ['open', 'open2'], 'log': ['log', 'log2']}
    described = [dict(item, roles=['shutdown'] + [e for r in item['roles'] for e in expand.get(r, [r])]) for item in ranks(items)]
    case = {'id': ident, 'kind': 'life', 'plugins': described, 'hits': hits, 'started': False, 'ran': False, 'startraised': '', 'stopraised': '', 'hostraised': '',
            'metrics': len(kinds), 'snapshots': [], 'builtin': True, 'winner': '', 'resource': []}
    World.calls, World.fails, World.hit = [], fails, 0
    service = ConfigService(settings)
    installed = Installed(service)
    agent = Deep(service)
    installed.rest(service)
    ns = host(SOURCE, FILE)

    def visit():
        try:
            value = ns['work'](World.hit)
            if value != World.hit + 2:
                case['hostraised'] = repr(value)
        except BaseException as e:
            case['hostraised'] = type(e).__name__

    def body():
        try:
            agent.start()
        except BaseException as e:
            case['startraised'] = type(e).__name__
        try:
            case['started'] = wait_for(lambda: installed.count > 0, 5 if not case['startraised'] else 0)
            if case['started']:
                case['ran'] = True
                for hit in range(1, hits + 1):
                    World.hit = hit
                    thread = threading.Thread(target=visit)
                    thread.start()
                    thread.join(10)
        finally:
            World.hit = -1
            try:
                agent.shutdown()
            except BaseException as e:
                case['stopraised'] = type(e).__name__
    old = threading.gettrace()
    undo = sicken() if sick else lambda: None
    try:
        with Environ(env), Net(answer) as net:
            how, error = bounded(body)
    finally:
        undo()
        threading.settrace(old)
    if how != 'done':
        case['stopraised'] = how
    order = {}
    snapshots = [Snapshot.FromString(c.request) for c in net.of('send')]
    common = None
    for snapshot in snapshots:
        attributes = {kv.key: kv.value.string_value for kv in snapshot.attributes}
        resource = {kv.key: kv.value.string_value for kv in snapshot.resource}
        marks = [key.split('.') for key in attributes if key.startswith('d.')]
        case['snapshots'].append([{'p': mark[1], 'n': int(mark[2])} for mark in marks])
        mine = {key[2:] for key in resource if key.startswith('r.') and key != 'r.shared'}
        common = mine if common is None else common & mine
        order[resource.get('r.shared', '')] = True
        if 'PythonPlugin' in builtin and ('thread_name' not in attributes or 'python_version' not in resource):
            case['builtin'] = False
    case['resource'] = sorted(common or ())
    case['winner'] = next(iter(order), '') if len(order) <= 1 else 'several'
    case['calls'] = list(World.calls)
    return case


def sicken():
    """The libraries behind the plugins of the agent fail."""
    from opentelemetry import trace
    saved = trace.get_current_span, trace.get_tracer

    def fail(*args, **kwargs):
        raise ValueError('sick')
    trace.get_current_span = trace.get_tracer = fail

    def undo():
        trace.get_current_span, trace.get_tracer = saved
    return undo


CALLBACKS = {'open': ('open', 'open2'), 'close': ('close', 'close2'), 'log': ('log', 'log2')}


def generated(rng, n, one):
    """A life that TLC generated."""
    module = types.ModuleType(MODULE)
    sys.modules[MODULE] = module
    names, items = [], []
    for index, place in enumerate(one['order'], 1):
        make(module, 'P%d' % index, list(ROLES), place, named='twin' if n % 3 == 0 else None)
        names.append('%s.P%d' % (MODULE, index))
        items.append({'name': 'P%d' % index, 'cond': 'ok', 'place': place, 'roles': list(ROLES)})
    failing = set()
    for p, callback in one['failing']:
        for c in CALLBACKS.get(callback, (callback,)):
            failing.add(('P%d' % p, c))
    kinds = errors()
    error = rng.choice(kinds)
    return life('gen%d' % n, names, items, {}, {}, lambda name, callback, k: error if (name, callback) in failing else None, 2, rng)


def random_life(rng, n):
    """A life with random plugins and failures."""
    config, env = {}, {}
    names, items = some_plugins(rng, rng.choice([1, 2, 3, 3, 4, 6]), config, env)
    share = rng.choice([0.0, 0.2, 0.5, 1.0])
    plan = {}

    def fails(name, callback, k):
        if (name, callback) not in plan:
            plan[(name, callback)] = (rng.choice(['always', 'first', 'odd', 'later']) if rng.random() < share else 'never', rng.choice(errors() + ['odd'] * 4))
        when, how = plan[(name, callback)]
        due = {'always': True, 'first': k == 0, 'odd': k % 2 == 1, 'later': k > 0, 'never': False}[when]
        return how if due else None
    builtin = [b for b in BUILTIN if rng.random() < 0.5] if rng.random() < 0.4 else []
    return life('rnd%d' % n, names, items, config, env, fails, rng.randint(1, 3), rng, builtin, bool(builtin) and rng.random() < 0.5)


def run(check):
    rng = random.Random(check.seed * 7919 + 20)
    const = dict(N='2', Orders='{0, 1}', Conditions='{"ok", "off", "missing", "broken"}', Hits='2', MaxFaults=check.pick('2', '4'))
    check.model('Plugins', 'two plugins', invariants=INVARIANTS, properties=['Lives'], constants=dict(const, Fault='"none"'))
    check.model('Plugins', 'three plugins', invariants=INVARIANTS, constants=dict(const, N='3', Conditions=check.pick('{"ok", "off"}', '{"ok", "off", "missing"}'), MaxFaults=check.pick('1', '2'), Hits='1', Fault='"none"'))
    for fault, names in FAULTS.items():
        check.model('Plugins', 'faulty: ' + fault, expect=names, invariants=[] if names == 'Lives' else INVARIANTS, properties=['Lives'] if names == 'Lives' else [],
                    constants=dict(const, MaxFaults='1', Hits='1', Fault='"%s"' % fault))
    lives = check.generate('PluginsGen', 'lives', 'LIFE', constraints=['Emit'], constants=dict(N='2', Orders='{0, 1}', MaxFaults=check.pick('2', '3')))
    check.notes['generated_lives'] = len(lives)
    cases = []
    for n in range(check.pick(1500, 20000)):
        cases.append(loads(rng, n))
    chosen = [one for one in lives if len(one['failing']) < 2]
    rest = [one for one in lives if len(one['failing']) >= 2]
    chosen += rng.sample(rest, min(len(rest), check.pick(200, 1500)))
    for n, one in enumerate(chosen):
        if check.late():
            break
        cases.append(generated(rng, n, one))
    for n in range(check.pick(300, 4000)):
        if check.late():
            break
        cases.append(random_life(rng, n))
    failing = check.judge('PluginsJudge', cases)
    by_id = {c['id']: c for c in cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
    check.notes['lives'] = sum(1 for c in cases if c['kind'] == 'life')
    check.sample(cases[-1])
