"""C18: the bounded attribute store, the merging of resources and the resource that polls and snapshots carry."""
import os
import random
import sys
import threading
import types

from boot import DEEP_DIR

from deep.api.attributes import BoundedAttributes
from deep.api.deep import Deep
from deep.api.plugin import ResourceProvider
from deep.api.resource import Resource
from deep.config import ConfigService
import deep.version
from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot
from graphs import host
from net import Net, bounded, wait_for
from rig import Installed, Tp
from sched import Scheduler, random_policy, switch_at

STORE_FAULTS = {'newest': ['OldestFirst', 'Kept'], 'nocount': 'Counted', 'countall': 'Counted', 'offbyone': 'Bounded', 'badremoves': ['Kept', 'Counted'],
                'keepsplace': ['OldestFirst', 'ByAge'], 'thaws': 'FrozenStays'}
MERGE_FAULTS = {'first': 'Precedence', 'replace': ['Precedence', 'Complete'], 'noname': 'Complete', 'lastfirst': 'Precedence', 'operand': 'Pure'}


# ---- values ----------------------------------------------------------------------------------------------------------
class Strange:
    """No attribute value."""


class Pieces(list):
    """A list of the host."""


class Raw(bytes):
    """Bytes of the host."""


def codes(text):
    """Text as code points."""
    return [ord(c) for c in text]


def encode(value):
    """A value, for the specification."""
    if value is None:
        return {'t': 'none'}
    if isinstance(value, bool):
        return {'t': 'bool', 'r': repr(value)}
    if isinstance(value, int):
        return {'t': 'int', 'r': repr(value)}
    if isinstance(value, float):
        return {'t': 'float', 'r': repr(value)}
    if isinstance(value, str):
        return {'t': 'str', 'c': codes(value)}
    if isinstance(value, bytes):
        return {'t': 'bytes', 'b': list(value)}
    if isinstance(value, (list, tuple)):
        return {'t': 'seq', 'i': [encode(v) for v in value]}
    return {'t': 'bad', 'w': type(value).__name__}


def stored(value):
    """A stored value: a sequence has to be frozen."""
    if isinstance(value, list):
        return {'t': 'unfrozen', 'w': repr(value)}
    return encode(value)


TEXTS = ['', 'a', 'value', 'longer than the limit', 'h\xe9\u20ac', '\U0001f600\U0001f601x', ' spaced ', 'x' * 40, 'tab\t', '0']
BYTES = [b'', b'abc', 'h\xe9\u20ac\U0001f600'.encode(), b'\xff', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80', b'\xf0\x9f\x98\x80z', b'\xc0\x80', b'ok\x81', b'x' * 30,
         b'\xf4\x90\x80\x80', b'\xe0\x80\x80']
BYTES += [Raw(b) for b in BYTES[:6]]


def scalar(rng):
    """A value that may be an element."""
    return rng.choice([
        lambda: rng.choice(TEXTS), lambda: rng.choice(TEXTS), lambda: rng.choice(BYTES), lambda: rng.choice([0, 1, -7, 10 ** 20, 2 ** 63]),
        lambda: rng.choice([0.0, -2.5, 1e300, float('inf')]), lambda: rng.choice([True, False]), lambda: None])()


def value_of(rng):
    """Any value."""
    kind = rng.random()
    if kind < 0.5:
        return scalar(rng)
    if kind < 0.62:
        return rng.choice([Strange(), {}, {'a': 1}, {1}, [{}], [[1]], ('a', ('b',)), object, 3j, [Strange()], iter([1])])
    first = scalar(rng)
    items = [first]
    for _ in range(rng.randint(0, 3)):
        other = scalar(rng) if rng.random() < 0.25 else rng.choice([first, None, first])
        if isinstance(first, (str, bytes)) and rng.random() < 0.5:
            other = rng.choice(TEXTS + BYTES)
        items.append(other)
    if rng.random() < 0.1:
        items = []
    return rng.choice([list, tuple, Pieces])(items)


def key_of(rng, names):
    """Any key."""
    return rng.choice(names) if rng.random() < 0.92 else rng.choice(['', None, 1, 0, b'k', ('k',), 2.5, True])


def key_json(key):
    """A key, for the specification."""
    return {'s': key} if isinstance(key, str) else {'s': '', 'w': repr(key)}


def kv_json(kvs):
    """Keys and values."""
    return [{'k': key_json(k), 'v': encode(v)} for k, v in kvs]


# ---- the store -------------------------------------------------------------------------------------------------------
class Pairs:
    """Something with items() (what merge_in and the constructor take)."""

    def __init__(self, kvs):
        self.kvs = kvs

    def items(self):
        """The pairs."""
        return list(self.kvs)

    def __len__(self):
        return len(self.kvs)


def content(store):
    """What is in the store."""
    return [{'k': k, 'v': stored(store[k])} for k in store]


class Recorder:
    """Drives one store and records."""

    def __init__(self, cap, limit, frozen, made, through):
        self.case = {'kind': 'steps', 'cap': -1 if cap is None else cap, 'limit': -1 if limit is None else limit, 'frozen': frozen, 'steps': []}
        self.given = []
        raised = ''
        try:
            self.given.append(made)
            source = BoundedAttributes(attributes=Pairs(made)) if through == 'store' else Pairs(made) if through == 'pairs' else dict(made)
            self.store = BoundedAttributes(max_length=cap, attributes=source, immutable=frozen, max_value_len=limit)
        except Exception as e:
            raised, self.store = repr(e), BoundedAttributes(max_length=cap, immutable=frozen, max_value_len=limit)
        self.note('make', made, raised)

    def note(self, op, kvs, raised=''):
        """Record a step."""
        store = self.store
        self.case['steps'].append({'op': op, 'kv': kv_json(kvs), 'raised': raised, 'ent': content(store), 'dropped': store.dropped})
        if len(store) != len(list(store)) or dict(store.items()) != {k: store[k] for k in store} or dict(store.copy()) != {k: store[k] for k in store}:
            self.case['steps'][-1]['ent'].append({'k': 'inconsistent', 'v': {'t': 'none'}})

    def do(self, op, kvs=()):
        """One operation."""
        store, raised = self.store, ''
        try:
            if op == 'set':
                store[kvs[0][0]] = kvs[0][1]
            elif op == 'del':
                del store[kvs[0][0]]
            elif op == 'pop':
                store.pop(kvs[0][0], None)
            elif op == 'popitem':
                store.popitem()
            elif op == 'clear':
                store.clear()
            elif op == 'default':
                store.setdefault(kvs[0][0], kvs[0][1])
            elif op == 'update':
                store.update(dict(kvs))
            elif op == 'merge':
                store.merge_in(Pairs(kvs))
            elif op == 'copy':
                # what was read out, changed
                copy = store.copy()
                copy['other'] = 1
                copy.clear()
                keys = list(store)
                keys.append('other')
                other = BoundedAttributes(attributes=store, immutable=False)
                other['other'] = 1
                other.clear()
            elif op == 'given':
                # what was given, changed
                for made in self.given:
                    for _, value in made:
                        if isinstance(value, list):
                            value.append('later')
                            value[0] = 'later'
                        elif isinstance(value, dict):
                            value['later'] = 1
        except Exception as e:
            raised = repr(e)[:200]
        if op in ('set', 'default', 'update', 'merge'):
            self.given.append(kvs)
        self.note(op, kvs, raised)


def fresh(kvs):
    """Dictionaries have each key once, in the order of the first."""
    return list(dict(kvs).items())


def random_history(rng, length):
    """A history with all kinds of values."""
    names = rng.choice([['a', 'b', 'c'], ['a', 'b', 'c', 'd', 'e', 'f'], ['k%d' % i for i in range(12)], ['\xe9', '\u20ac', ' ', 'a.b', 'a']])
    cap = rng.choice([None, 0, 1, 1, 2, 2, 3, 3, 4, 7])
    limit = rng.choice([None, None, 0, 1, 2, 3, 5, 20])

    def some(n, hashable=True):
        return [(key_of(rng, names), value_of(rng)) for _ in range(n)]
    through = rng.choice(['pairs', 'dict', 'pairs'])
    made = some(rng.choice([0, 0, 1, 3, 6]))
    if through == 'dict':
        made = fresh(made)
    frozen = rng.random() < 0.25
    recorder = Recorder(cap, limit, frozen, made, through)
    for _ in range(length):
        op = rng.choice(['set'] * 8 + ['del', 'del', 'pop', 'popitem', 'clear', 'default', 'update', 'merge', 'merge', 'copy', 'given'])
        if op == 'clear' and rng.random() < 0.7:
            op = 'set'
        kvs = some(rng.randint(0, 4) if op in ('merge', 'update') else 1)
        if op in ('del', 'pop'):
            present = list(recorder.store)
            kvs = [(rng.choice(present) if present and rng.random() < 0.7 else rng.choice(names), None)]
        if op == 'update':
            kvs = fresh(kvs)
        if op == 'default' and not isinstance(kvs[0][0], str):
            op = 'set'
        recorder.do(op, kvs)
    return recorder.case


def replay(rng, one):
    """A history that TLC generated."""
    limit = rng.choice([None, 2])
    values = {0: rng.choice([None, Strange(), b'\xff', [1, 'a']]), 1: 'one', 2: ['two', b'2']}
    recorder = Recorder(None if one['cap'] < 0 else one['cap'], limit, False, [], 'dict')
    for op in one['ops']:
        value = values[op['v'] if op['op'] == 'set' else 1]
        if isinstance(value, list):
            value = list(value)
        kvs = [('k%d' % op['k'], value)]
        if op['op'] in ('popitem', 'clear', 'copy'):
            kvs = []
        recorder.do(op['op'], kvs)
    return recorder.case


def threads(rng, n):
    """Two threads change a store at the same time."""
    cap = rng.choice([1, 2, 2, 3, None])
    names = ['a', 'b', 'c', 'd']
    start = [(k, 1) for k in rng.sample(names, rng.randint(0, 3))]
    store = BoundedAttributes(max_length=cap, attributes=Pairs(start), immutable=False)
    case = {'kind': 'threads', 'cap': -1 if cap is None else cap, 'limit': -1, 'frozen': False, 'start': {'ent': content(store), 'dropped': store.dropped}}
    plans = []
    for who in (2, 3):
        plan = []
        for _ in range(rng.randint(1, 2)):
            op = rng.choice(['set', 'set', 'set', 'pop', 'merge'])
            size = rng.randint(1, 2) if op == 'merge' else 1
            plan.append((op, [(k, who) for k in rng.sample(names, size)]))
        plans.append(plan)
    errors, most = [], [len(store)]

    def run(plan):
        for op, kvs in plan:
            if op == 'merge':
                for k, v in kvs:
                    store.merge_in({k: v})
                    most[0] = max(most[0], len(store))
            elif op == 'pop':
                try:
                    del store[kvs[0][0]]
                except KeyError:
                    pass
            else:
                store[kvs[0][0]] = kvs[0][1]
            most[0] = max(most[0], len(store))
    order = ['one', 'two']
    rng.shuffle(order)
    policy = switch_at(order, [rng.randint(1, 14) for _ in range(rng.randint(1, 3))]) if rng.random() < 0.8 else random_policy(rng, 0.7)
    sched = Scheduler(policy, files=lambda f: f.startswith(os.path.join(DEEP_DIR, 'api', 'attributes')), grace=0.02)
    controlled = [sched.add('one', lambda: run(plans[0])), sched.add('two', lambda: run(plans[1]))]
    done = sched.run()
    for t in controlled:
        if t.error is not None:
            errors.append(repr(t.error))
    if not done:
        errors.append('stuck')
    # a merge puts one key after the other
    flat = [[{'op': 'set' if op == 'merge' else op, 'kv': kv_json([kv])} for op, kvs in plan for kv in kvs] for plan in plans]
    case.update(id='thr%d' % n, one=flat[0], two=flat[1], ent=content(store), dropped=store.dropped, most=most[0], raised=' '.join(errors))
    return case


# ---- resources -------------------------------------------------------------------------------------------------------
NAMES = {'lang': 'telemetry.sdk.language', 'sdk': 'telemetry.sdk.name', 'version': 'telemetry.sdk.version', 'service': 'service.name',
         'exe': 'process.executable.name', 'python': 'python', 'deep': 'deep', 'number': deep.version.__version__, 'unknown': 'unknown_service:'}
NAMES_JSON = {k: codes(v) for k, v in NAMES.items()}
KEYS = ['a', 'b', 'c.d', '\xe9', 'service.name', 'service.version', 'telemetry.sdk.name', 'telemetry.sdk.language', 'telemetry.sdk.version',
        'process.executable.name', 'python_version']
SCHEMAS = ['', '', None, 'https://s/1', 'https://s/2']


def pairs_json(pairs):
    """Pairs for the judge: keys as code points."""
    return [{'k': codes(k), 'v': encode(v)} for k, v in pairs]


def attributes(rng, most=5, clean=False):
    """Attributes of a source."""
    res = {}
    for _ in range(rng.randint(0, most)):
        key = rng.choice(KEYS)
        if key in ('service.name', 'process.executable.name'):
            res[key] = rng.choice(['svc', 'other', '', 'x y', 'caf\xe9'])
        else:
            res[key] = rng.choice(TEXTS) if clean or rng.random() < 0.6 else value_of(rng)
    return res


def quote(rng, text):
    """A value, some of it escaped."""
    out = ''
    for char in text:
        if char in ',%' or rng.random() < 0.3:
            out += ''.join(('%%%02X' if rng.random() < 0.5 else '%%%02x') % b for b in char.encode())
        else:
            out += char
    return out


def environment(rng):
    """Text of DEEP_RESOURCE_ATTRIBUTES."""
    items = []
    for _ in range(rng.randint(0, 5)):
        kind = rng.random()
        key = rng.choice(KEYS + ['A B', ''])
        value = quote(rng, rng.choice(['v', '', 'w x', 'a=b', 'a,b', 'h\xe9', '\u20ac9', '100%', 'svc', '\U0001f600', ' lead', 'x;y', '"q"']))
        if kind > 0.85:
            # characters that mean something elsewhere
            value = rng.choice(['1.0+build', 'a+b c', '+', 'x&y', '%', '%4', '%zz', '50%', '%%41', 'a\\n', "it's", '#1', '$HOME', '%41+%2B', 'a?b', '~'])
        if kind < 0.15:
            items.append(rng.choice(['', ' ', 'novalue', ';', '=', '==']))
        else:
            pad = rng.choice(['', '', ' ', '\t'])
            items.append(pad + key + pad + '=' + rng.choice(['', '', ' ']) + value + pad)
    text = ','.join(items)
    if rng.random() < 0.1:
        text += ','
    return text


def set_env(rng):
    """The variables, and how the case describes them."""
    env = {'set': rng.random() < 0.75, 'text': []}
    name = {'set': rng.random() < 0.5, 'text': []}
    for key in ('DEEP_RESOURCE_ATTRIBUTES', 'DEEP_SERVICE_NAME'):
        os.environ.pop(key, None)
    if env['set']:
        text = environment(rng)
        os.environ['DEEP_RESOURCE_ATTRIBUTES'] = text
        env['text'] = codes(text)
    if name['set']:
        text = rng.choice(['', 'from env', 'caf\xe9', 'a=b', '  x', 'from env'])
        os.environ['DEEP_SERVICE_NAME'] = text
        name['text'] = codes(text)
    return env, name


def schema_json(schema):
    """A schema."""
    return codes(schema or '')


def state(resource):
    """Everything of a resource, to see whether it changes."""
    attrs = resource.attributes
    return [(k, type(attrs[k]).__name__, repr(attrs[k])) for k in attrs], resource.schema_url, attrs.dropped


def resource_pairs(resource):
    """The attributes of a resource, for the judge."""
    return [{'k': codes(k), 'v': stored(v)} for k, v in resource.attributes.items()]


def merges(rng, n):
    """A chain of merges."""
    chain, raised = [], ''
    for _ in range(rng.randint(2, 4)):
        chain.append((attributes(rng), rng.choice(SCHEMAS)))
    case = {'id': 'mrg%d' % n, 'kind': 'merge', 'chain': [{'pairs': [], 'schema': schema_json(s)} for _, s in chain], 'got': {'pairs': [], 'schema': []}, 'same': True}
    try:
        made = [Resource(a, s) for a, s in chain]
        for one, item in zip(made, case['chain']):
            item['pairs'] = resource_pairs(one)
        before = [state(r) for r in made]
        res, partial = made[0], []
        for other in made[1:]:
            first = state(res)
            new = res.merge(other)
            case['same'] &= state(res) == first
            partial.append((new, state(new)))
            res = new
        # the result cannot be changed, and changing what the operands were made of changes nothing
        for a, _ in chain:
            for value in a.values():
                if isinstance(value, list):
                    value.append('later')
            a['later'] = 1
        for change in (lambda: res.attributes.__setitem__('later', 1), lambda: res.attributes.__delitem__(next(iter(res.attributes), 'a')),
                       lambda: res.attributes.merge_in({'later': 1})):
            try:
                change()
            except Exception:
                pass
        case['same'] &= before == [state(r) for r in made] and all(state(r) == s for r, s in partial)
        case['got'] = {'pairs': resource_pairs(res), 'schema': schema_json(res.schema_url)}
    except Exception as e:
        raised = repr(e)
    case['raised'] = raised
    return case


def creates(rng, n):
    """Resource.create with the environment, and plugins merged by hand."""
    env, name = set_env(rng)
    code, schema = attributes(rng), rng.choice(SCHEMAS)
    given = dict(code)
    case = {'id': 'crt%d' % n, 'kind': 'client', 'names': NAMES_JSON, 'env': env, 'name': name, 'plugins': [], 'seen': [], 'same': True, 'raised': '',
            'code': {'pairs': pairs_json(code.items()), 'schema': schema_json(schema)}}
    try:
        made = Resource.create(code, schema) if rng.random() < 0.9 or code or schema else Resource.create()
        case['same'] = list(code) == list(given) and all(code[k] is given[k] for k in code)
        case['seen'].append({'from': 'create', 'pairs': resource_pairs(made)})
    except Exception as e:
        case['raised'] = repr(e)
    return case


class World:
    """What the plugins of the next agent provide."""

    plans = {}


def provider(index):
    """A plugin class."""
    class Provider(ResourceProvider):
        """Provides what the plan says."""

        def order(self):
            """As planned."""
            return World.plans[index]['order']

        def resource(self):
            """As planned."""
            return World.plans[index]['make']()

    Provider.__name__ = Provider.__qualname__ = 'Provider%d' % index
    return Provider


module = types.ModuleType('plugins18')
for _i in range(4):
    setattr(module, 'Provider%d' % _i, provider(_i))
sys.modules['plugins18'] = module


class Odd(BaseException):
    """No Exception."""


def broken(rng):
    """A plugin that does not work."""
    def raises():
        raise rng.choice([ValueError('no'), Odd('no')])
    return rng.choice([raises, raises, lambda: 'text', lambda: {'a': 'b'}, lambda: 7])


SOURCE = '''def work():
    x = 1
    return x  # T
'''
FILE = '/app/src/host18.py'


def from_wire(value):
    """A value of a message."""
    which = value.WhichOneof('value')
    if which is None:
        return {'t': 'none'}
    got = getattr(value, which)
    if which == 'array_value':
        return {'t': 'seq', 'i': [from_wire(v) for v in got.values]}
    if which == 'kvlist_value':
        return {'t': 'bad', 'w': 'kvlist'}
    return encode(got)


def wire_pairs(resource):
    """The attributes of a message."""
    return [{'k': codes(kv.key), 'v': from_wire(kv.value)} for kv in resource.attributes]


def small(value):
    """Is the value sent as what it is (C08 says what becomes of the others)."""
    if isinstance(value, (list, tuple)):
        return all(small(v) for v in value)
    return isinstance(value, bool) or not isinstance(value, int) or -2 ** 63 <= value < 2 ** 63


def agents(check, rng, n):
    """A whole agent; its polls and snapshots."""
    env, name = set_env(rng)
    plans, order = {}, []
    for index in range(rng.randint(0, 4)):
        kind = rng.random()
        item = {'order': rng.choice([0, 0, -3, 5, 1.5, 100, -0.5]), 'index': index}
        if kind < 0.12:
            item.update(make=broken(rng), broken=True, pairs=[], schema=[])
        elif kind < 0.2:
            item.update(make=lambda: None, broken=True, pairs=[], schema=[])
        else:
            attrs, schema = {k: v for k, v in attributes(rng).items() if small(v)}, rng.choice(SCHEMAS)
            resource = Resource(attrs, schema)
            item.update(make=lambda r=resource: r, broken=False, pairs=pairs_json(attrs.items()), schema=schema_json(schema), resource=resource)
        plans[index] = item
        order.append(item)
    World.plans = plans
    before = [state(i['resource']) for i in order if 'resource' in i]
    order.sort(key=lambda item: item['order'])
    builtin = rng.random() < 0.2
    settings = {'PLUGINS': ['plugins18.Provider%d' % i for i in range(len(plans))], 'POLL_TIMER': 0.01, 'APP_ROOT': '/app', 'IN_APP_INCLUDE': [],
                'PLUGIN_PYTHONPLUGIN': 'True' if builtin else 'False', 'PLUGIN_OTELPLUGIN': 'False'}
    case = {'id': 'agt%d' % n, 'kind': 'client', 'names': NAMES_JSON, 'env': env, 'name': name, 'seen': [], 'same': True, 'raised': '',
            'code': {'pairs': [], 'schema': []}}
    tp = Tp('tp', 'host18.py', 3, {'fire_count': '-1', 'fire_period': '0'})

    def answer(call):
        if call.kind == 'send':
            return b''
        update = PollRequest.FromString(call.request).current_hash != 'h'
        return PollResponse(ts_nanos=1, current_hash='h', response=[tp.proto()] if update else (),
                            response_type=ResponseType.UPDATE if update else ResponseType.NO_CHANGE).SerializeToString()
    config = ConfigService(settings)
    installed = Installed(config)
    agent = Deep(config)
    installed.rest(config)
    ns = host(SOURCE, FILE)
    old = threading.gettrace()

    def life():
        agent.start()
        try:
            wait_for(lambda: installed.count > 0, 5)
            thread = threading.Thread(target=ns['work'])
            thread.start()
            thread.join(5)
            wait_for(lambda: len(net.of('poll')) > 1, 5)
        finally:
            agent.shutdown()
    with Net(answer) as net:
        how, error = bounded(life)
    threading.settrace(old)
    if how != 'done':
        case['raised'] = how + ' ' + repr(error)
    polls, sends = net.of('poll')[:2], net.of('send')[:1]
    for call in polls:
        case['seen'].append({'from': 'a poll', 'pairs': wire_pairs(PollRequest.FromString(call.request).resource)})
    for call in sends:
        case['seen'].append({'from': 'a snapshot', 'pairs': wire_pairs(_snapshot(call.request))})
    if not polls or not sends:
        case['raised'] += ' polls=%d snapshots=%d' % (len(polls), len(sends))
    items = [{'broken': i['broken'], 'pairs': i['pairs'], 'schema': i['schema']} for i in order]
    if builtin:
        # its place among plugins of the same order is open, so it is only switched on when no other has its key
        import platform
        clash = any(kv['k'] == codes('python_version') for i in items for kv in i['pairs'])
        if clash:
            return None
        items.append({'broken': False, 'pairs': pairs_json([('python_version', platform.python_version())]), 'schema': []})
    case['plugins'] = items
    case['same'] = before == [state(i['resource']) for i in sorted((i for i in order if 'resource' in i), key=lambda i: i['index'])]
    return case


def _snapshot(data):
    """The resource of a snapshot (a list of attributes)."""
    message = Snapshot.FromString(data)

    class Holder:
        attributes = message.resource

    return Holder


def run(check):
    rng = random.Random(check.seed * 3571 + 18)
    deep_ops = check.pick(5, 6)
    for cap in ('{-1, 0}', '{1, 2}'):
        const = dict(Keys='{1, 2, 3}', Values='{"v"}', Bad='{"x"}', Caps=cap, MaxOps=deep_ops)
        check.model('Attributes', 'caps ' + cap, invariants=['Bounded', 'Once', 'Valid', 'OldestFirst', 'ByAge', 'Counted'], properties=['FrozenStays', 'Kept'],
                    constants=dict(const, Fault='"none"'))
    const = dict(Keys='{1, 2, 3}', Values='{"v"}', Bad='{"x"}', Caps='{2}', MaxOps=5)
    for fault, names in STORE_FAULTS.items():
        check.model('Attributes', 'faulty: ' + fault, expect=names, invariants=['Bounded', 'OldestFirst', 'Counted', 'ByAge'], properties=['FrozenStays', 'Kept'],
                    constants=dict(const, Fault='"%s"' % fault))
    const = dict(Keys='{"sdk", "service"}', Vals='{"a", "b"}', Schemas='{"", "s", "t"}', MaxPlugins=check.pick(1, 2))
    check.model('ResourceMerge', 'merge', invariants=['Complete', 'Precedence'], properties=['Pure'], constants=dict(const, Fault='"none"'))
    const['MaxPlugins'] = 1
    for fault, names in MERGE_FAULTS.items():
        check.model('ResourceMerge', 'faulty: ' + fault, expect=names, invariants=['Complete', 'Precedence'], properties=['Pure'], constants=dict(const, Fault='"%s"' % fault))
    histories = check.generate('AttributesGen', 'histories', 'OPS', constraints=['Emit'], workers=4, constants=dict(
        Keys='{1, 2, 3}', Vals='{0, 1, 2}', Caps='{-1, 0, 1, 2}', Steps=check.pick(4, 5), Kinds='{"set", "del", "popitem"}'))
    check.notes['generated_histories'] = len(histories)
    cases = []
    for n, one in enumerate(rng.sample(histories, min(len(histories), check.pick(4000, 40000)))):
        cases.append(dict(replay(rng, one), id='gen%d' % n))
    for n in range(check.pick(1500, 20000)):
        cases.append(dict(random_history(rng, rng.randint(2, 14)), id='rnd%d' % n))
    for n in range(check.pick(400, 4000)):
        if check.late():
            break
        cases.append(threads(rng, n))
    report(check, 'AttributesJudge', cases)
    check.sample(cases[-1])
    keep = dict(os.environ)
    try:
        cases = [merges(rng, n) for n in range(check.pick(800, 8000))]
        cases += [creates(rng, n) for n in range(check.pick(1200, 12000))]
        for n in range(check.pick(150, 1500)):
            if check.late():
                break
            case = agents(check, rng, n)
            if case is not None:
                cases.append(case)
    finally:
        for key in ('DEEP_RESOURCE_ATTRIBUTES', 'DEEP_SERVICE_NAME'):
            os.environ.pop(key, None)
            if key in keep:
                os.environ[key] = keep[key]
    report(check, 'ResourceJudge', cases)
    check.sample(cases[-1])
    check.assumptions += ['a resource with a schema that contradicts the one there is leaves the resource as it was (as documented)',
                          'a store without any room may count an invalid value as dropped', 'the exception with which a modification is rejected is open']


def report(check, module_name, cases):
    """Judge and report."""
    failing = check.judge(module_name, cases)
    by_id = {c['id']: c for c in cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
