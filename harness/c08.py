"""C08: messages carry every field of a snapshot, and every request the metadata of the auth provider."""
import os
import random
import sys
import threading
import types
from concurrent import futures

import grpc

import c06
import graphs
import values
from c18 import Pairs
from configs import Held
from deep.api.attributes import BoundedAttributes
from deep.api.auth import AuthProvider
from deep.api.deep import Deep
from deep.api.resource import Resource
from deep.api.tracepoint import EventSnapshot, StackFrame, TracePointConfig, Variable, VariableId, WatchResult
from deep.config import ConfigService
from deep.push import PushService
from deep.task import TaskHandler
from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, SnapshotResponse, WatchSource
from net import Net, Service, bounded, wait_for
from rig import Tp

FAULTS = {'rejects': 'Delivered', 'default': 'Intact', 'swap': 'Intact', 'stale': 'Authorised', 'anyway': 'Authorised', 'early': 'Authorised', 'noauth': 'Authorised'}


# ---- a snapshot and a message, for the specification -------------------------------------------------------------------
def text(value):
    """Text."""
    if value is None:
        return {'none': True}
    value = str.__str__(value) if isinstance(value, str) else str(value)
    try:
        value.encode('utf-8')
        return {'s': value}
    except UnicodeEncodeError:
        bad = [i for i, c in enumerate(value) if 0xd800 <= ord(c) <= 0xdfff]
        return {'pre': value[:bad[0]], 'post': value[bad[-1] + 1:]}


def value_json(value):
    """An attribute value."""
    if value is None:
        return {'t': 'none'}
    if isinstance(value, bool):
        return {'t': 'bool', 'r': repr(value)}
    if isinstance(value, str):
        return {'t': 'str', 'x': text(value)}
    if isinstance(value, int):
        return {'t': 'int' if -2 ** 63 <= value < 2 ** 63 else 'big', 'r': str(value)}
    if isinstance(value, float):
        return {'t': 'float', 'r': repr(value)}
    if isinstance(value, bytes):
        return {'t': 'bytes', 'r': repr(value)}
    return {'t': 'seq', 'i': [value_json(v) for v in value]}


def any_json(value):
    """An attribute value of a message."""
    which = value.WhichOneof('value')
    if which is None:
        return {'t': 'none'}
    if which == 'array_value':
        return {'t': 'seq', 'i': [any_json(v) for v in value.array_value.values]}
    if which == 'kvlist_value':
        return {'t': 'kvlist'}
    return value_json(getattr(value, which))


def varid(v):
    """An id."""
    return {'id': v.vid, 'name': text(v.name), 'mods': list(v.modifiers), 'orig': text(v.original_name)}


def attributes(pairs):
    """Attributes."""
    return [{'k': text(k), 'v': value_json(v)} for k, v in pairs]


def want_json(s):
    """What there is to send."""
    tp = s.tracepoint
    return {
        'id': '%032x' % s.id, 'ts': str(s.ts_nanos), 'duration': str(s.duration_nanos), 'negative': s.duration_nanos < 0,
        'tp': {'id': text(tp.id), 'path': text(tp.path), 'line': str(tp.line_no), 'args': [{'k': text(k), 'v': text(v)} for k, v in tp.args.items()],
               'watches': [text(w) for w in tp.watches]},
        'frames': [{
            'file': text(f.file_name), 'short': text(f.short_path), 'method': text(f.method_name), 'line': str(f.line_number or 0), 'class': text(f.class_name),
            'async': bool(f.is_async), 'column': str(f.column_number or 0), 'tfile': text(f.transpiled_file_name), 'tline': str(f.transpiled_line_number or 0),
            'tcolumn': str(f.transpiled_column_number or 0), 'app': bool(f.app_frame), 'vars': [varid(v) for v in f.variables]} for f in s.frames],
        'table': [{'k': k, 'v': {'type': text(v.type), 'value': text(v.value), 'hash': v.hash, 'trunc': bool(v.truncated), 'kids': [varid(c) for c in v.children]}}
                  for k, v in sorted(s.var_lookup.items())],
        'watches': [{'expr': text(w.expression), 'source': w.source, 'good': [] if w.result is None else [varid(w.result)], 'error': text(w.error)}
                    for w in s.watches],
        'attrs': attributes(s.attributes.items()), 'resource': attributes(s.resource.attributes.items()), 'log': text(s.log_msg)}


def optional(message, field):
    """An optional text."""
    return {'s': getattr(message, field)} if message.HasField(field) else {'none': True}


def wire_varid(v):
    """An id of a message."""
    return {'id': v.ID, 'name': {'s': v.name}, 'mods': list(v.modifiers), 'orig': optional(v, 'original_name')}


def got_json(data):
    """What a message says."""
    m = Snapshot.FromString(data)
    tp = m.tracepoint

    def pairs(kvs):
        return [{'k': {'s': kv.key}, 'v': any_json(kv.value)} for kv in kvs]
    return {
        'id': m.ID.hex(), 'ts': str(m.ts_nanos), 'duration': str(m.duration_nanos),
        'tp': {'id': {'s': tp.ID}, 'path': {'s': tp.path}, 'line': str(tp.line_number), 'args': [{'k': {'s': k}, 'v': {'s': v}} for k, v in tp.args.items()],
               'watches': [{'s': w} for w in tp.watches]},
        'frames': [{
            'file': {'s': f.file_name}, 'short': optional(f, 'short_path'), 'method': {'s': f.method_name}, 'line': str(f.line_number), 'class': optional(f, 'class_name'),
            'async': f.is_async, 'column': str(f.column_number), 'tfile': optional(f, 'transpiled_file_name'), 'tline': str(f.transpiled_line_number),
            'tcolumn': str(f.transpiled_column_number), 'app': f.app_frame, 'vars': [wire_varid(v) for v in f.variables]} for f in m.frames],
        'table': [{'k': k, 'v': {'type': {'s': v.type}, 'value': {'s': v.value}, 'hash': v.hash, 'trunc': v.truncated, 'kids': [wire_varid(c) for c in v.children]}}
                  for k, v in sorted(m.var_lookup.items())],
        'watches': [{'expr': {'s': w.expression}, 'source': WatchSource.Name(w.source),
                     'good': [wire_varid(w.good_result)] if w.WhichOneof('result') == 'good_result' else [],
                     'error': {'s': w.error_result} if w.WhichOneof('result') == 'error_result' else {'none': True}} for w in m.watches],
        'attrs': pairs(m.attributes), 'resource': pairs(m.resource), 'log': optional(m, 'log_msg')}


# ---- snapshots made by hand ------------------------------------------------------------------------------------------
WORDS = ['', 'a', 'word', 'two words', 'gr\xfc\xdf', '\u4e2d\u6587', '\U0001f600', 'nul\x00byte', 'line\nbreak\r\t', '\x1b[0m', '\ufeff', '\u202e', 'x' * 1024, '%s %d {}',
         '\ud800', 'pre\udc80post', '\udfff end', 'a\ud83d\ude00b', '\\ud800', 'None', '"quoted"', "it's", '\x7f\x80\xff', '\uffff', 'e\u0301', 'surro\udce9gate']


def word(rng):
    """Any text."""
    return rng.choice(WORDS) if rng.random() < 0.8 else ''.join(rng.choice(WORDS) for _ in range(3))


def plain(rng):
    """Text that can be encoded."""
    return rng.choice([w for w in WORDS if 's' in text(w)])


def attribute(rng):
    """An attribute value."""
    return rng.choice([
        lambda: word(rng), lambda: rng.choice([0, 1, -1, 2 ** 31, 2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1, 10 ** 30]),
        lambda: rng.choice([0.0, -0.0, 1.5, 1e308, 5e-324, float('inf'), float('-inf'), 0.1]), lambda: rng.choice([True, False]),
        lambda: [word(rng) for _ in range(rng.randint(0, 3))], lambda: [1, None, 2], lambda: (0.5,), lambda: [True, False], lambda: [None], lambda: [2 ** 64, 1],
        lambda: b'bytes', lambda: []])()


def made(rng):
    """A snapshot with anything in it."""
    ids = [str(i) for i in range(1, 1 + rng.choice([0, 1, 2, 5, 9]))] or ['1']

    def some_id():
        return VariableId(rng.choice(ids), word(rng), rng.choice([None, [], ['private'], ['a', 'b']]), rng.choice([None, None, word(rng)]))

    def ids_of(most):
        return [some_id() for _ in range(rng.randint(0, most))]
    table = {i: Variable(word(rng), word(rng), str(rng.randrange(10 ** 15)), ids_of(4), rng.random() < 0.4) for i in ids if rng.random() < 0.9}
    frames = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        more = {}
        if rng.random() < 0.5:
            more = dict(is_async=rng.random() < 0.5, column_number=rng.choice([0, 3, 2 ** 31]), transpiled_file_name=rng.choice([None, plain(rng)]),
                        transpiled_line_number=rng.choice([0, 9]), transpiled_column_number=rng.choice([0, 7]))
        frames.append(StackFrame(word(rng), rng.choice([None, word(rng)]), word(rng), rng.choice([0, 1, 77, 2 ** 32 - 1]), ids_of(3), rng.choice([None, word(rng)]),
                                 app_frame=rng.random() < 0.5, **more))
    tp = TracePointConfig(word(rng), word(rng), rng.choice([0, 1, 5000, 2 ** 32 - 1, -1]), {word(rng) + str(i): word(rng) for i in range(rng.randint(0, 4))},
                          [word(rng) for _ in range(rng.randint(0, 3))], [])
    resource = Resource({(word(rng) or 'k') + str(i): attribute(rng) for i in range(rng.randint(0, 4))}, rng.choice([None, 'https://s']))
    snapshot = EventSnapshot(tp, rng.choice([0, 1, 1_700_000_000_123_456_789, 2 ** 63 - 1, 2 ** 64 - 1]), resource, frames, table)
    for _ in range(rng.randint(0, 4)):
        source = rng.choice(['WATCH', 'LOG', 'METRIC', 'CAPTURE'])
        good = rng.random() < 0.6
        snapshot.add_watch_result(WatchResult(source, word(rng), some_id() if good else None, None if good else word(rng)))
    snapshot.attributes.merge_in(Pairs([((word(rng) or 'k') + str(i), attribute(rng)) for i in range(rng.randint(0, 5))]))
    if rng.random() < 0.3:
        snapshot.merge_var_lookup({'x%d' % i: Variable(word(rng), word(rng), '1', [], False) for i in range(rng.choice([1, 2, 300]))})
    if rng.random() < 0.6:
        snapshot.log_msg = word(rng)
    if rng.random() < 0.7:
        snapshot.complete()
    return snapshot


class Nobody:
    """Takes what other properties are about."""

    def violation(self, *args, **kwargs):
        """Ignore."""


TAKEN = []


class Tap(graphs.Scene):
    """Keeps the snapshots that were collected."""

    def cases(self, ident):
        """None."""
        TAKEN.extend(i['snapshot'] for i in self.rig.effects.items if i['kind'] == 'snapshot')
        return []


def collected(rng, n):
    """Snapshots that the collector makes of strange programs."""
    del TAKEN[:]
    original, graphs.Scene = graphs.Scene, Tap
    try:
        c06.one(Nobody(), rng, n, [])
    finally:
        graphs.Scene = original
    for snapshot in TAKEN:
        if rng.random() < 0.5:
            snapshot.attributes.merge_in({'k%d' % i: attribute(rng) for i in range(rng.randint(0, 3))})
    return list(TAKEN)


def big(rng):
    """A huge table."""
    snapshot = made(rng)
    snapshot.merge_var_lookup({'b%d' % i: Variable('str', word(rng) * 3, str(i), [VariableId('b%d' % (i + 1), 'n%d' % i)], i % 2 == 0) for i in range(3000)})
    return snapshot


class Sender:
    """A push service and what arrives."""

    def __init__(self, pooled):
        self.auth = [['k', 'v1'], ['other', 'v2'], ['k', 'v0'], ['empty', '']]
        self.net = Net(lambda call: SnapshotResponse().SerializeToString())
        self.tasks = TaskHandler() if pooled else Held()
        self.push = PushService(Service(self.net, [tuple(kv) for kv in self.auth]), self.tasks)

    def send(self, snapshots, ident):
        """Hand over, deliver; the cases."""
        cases, by_id = [], {}
        for n, snapshot in enumerate(snapshots):
            case = {'id': '%s#%d' % (ident, n), 'kind': 'message', 'want': want_json(snapshot), 'got': [], 'meta': [], 'auth': self.auth, 'raised': ''}
            try:
                self.push.push_snapshot(snapshot)
            except BaseException as e:
                case['raised'] = repr(e)
            by_id[case['want']['id']] = case
            cases.append(case)
        if isinstance(self.tasks, Held):
            self.tasks.drain()
        else:
            self.tasks.flush(30)
        for call in self.net.of('send'):
            got = got_json(call.request)
            # a message with an id that nobody knows counts for the first snapshot without a message
            case = by_id.get(got['id']) or next((c for c in cases if not c['got']), cases[0])
            case['got'].append(got)
            case['meta'].append([list(m) for m in call.metadata or []])
        return cases


# ---- lives of the connection -------------------------------------------------------------------------------------------
class Supply:
    """What the provider of the current life does."""

    now = None

    def __init__(self, what):
        self.what, self.broken, self.given, self.slow, self.count = what, False, [], False, 0


class Provider(AuthProvider):
    """A provider of the user."""

    def provide(self):
        """As planned."""
        plan = Supply.now
        if plan.slow:
            threading.Event().wait(0.01)
        if plan.broken:
            raise ValueError('no token')
        plan.count += 1
        token = [('token', '%s-%d' % (plan.what, plan.count)), ('x-%d' % plan.count, 'caf%C3%A9')]
        if plan.count % 2:
            # a key can be there more than once
            token += [('token', 'second'), ('scope', ''), ('token', '%s-%d' % (plan.what, plan.count))]
        token = [] if plan.what == 'empty' else token
        plan.given.append([[k, v] for k, v in token])
        return tuple(token) if plan.what == 'tuple' else token


module = types.ModuleType('auth08')
module.Provider = Provider
sys.modules['auth08'] = module
PROVIDERS = {'none': None, 'blank': '', 'basic': 'deep.api.auth.BasicAuthProvider', 'half': 'deep.api.auth.BasicAuthProvider', 'list': 'auth08.Provider',
             'tuple': 'auth08.Provider', 'empty': 'auth08.Provider'}
USERS = ['user', 'us er', 'caf\xe9', '\U0001f600', 'a:b', '', 'x' * 100, 'u', 'us', 'use', '\xff\xfe', '\u4e2d']


def meta_json(pairs):
    """Metadata."""
    return [{'k': k, 'v': [ord(c) for c in v]} for k, v in pairs or ()]


def small_snapshot():
    """A snapshot."""
    return EventSnapshot(TracePointConfig('tp', 'a.py', 1, {}, [], []), 1, Resource({'a': 'b'}), [], {})


def lives(rng, ident, ops):
    """Play a history."""
    now = {}
    through_env = rng.random() < 0.3

    def setting(key):
        return lambda: now.get(key)
    custom = {'SERVICE_AUTH_PROVIDER': setting('provider'), 'POLL_TIMER': 3600, 'PLUGINS': [], 'NO_TRACE': True,
              'SERVICE_SECURE': rng.choice([True, False, 'False'])}
    if not through_env:
        custom.update(SERVICE_USERNAME=setting('user'), SERVICE_PASSWORD=setting('password'))

    def answer(call):
        return PollResponse(response_type=ResponseType.NO_CHANGE).SerializeToString() if call.kind == 'poll' else b''
    found, life, raised = [], None, ''
    with Net(answer) as net:
        agent = Deep(ConfigService(custom))

        def attempt(func):
            try:
                func()
            except Exception:
                pass

        def poll():
            life['asked'] += 1
            attempt(agent.poll.poll)

        def snap():
            life['snaps'] += 1
            agent.push.push_snapshot(small_snapshot())

        def end():
            how, _ = bounded(agent.shutdown, limit=40)
            for call in net.calls:
                life['requests'].append({'k': 'poll' if call.kind == 'poll' else 'snapshot', 'meta': meta_json(call.metadata)})
            life['sent'] = len(net.of('send'))
            life['polls'] = len(net.of('poll'))
            life['supplied'] = [meta_json(g) for g in Supply.now.given]
            found.append(life)
            return how == 'done'
        for op in ops:
            if op['op'] == 'start':
                what = op['arg']
                del net.calls[:]
                Supply.now = Supply(what)
                now.clear()
                now['provider'] = PROVIDERS[what]
                for key in ('DEEP_SERVICE_USERNAME', 'DEEP_SERVICE_PASSWORD'):
                    os.environ.pop(key, None)
                user, password = rng.choice(USERS), rng.choice(USERS)
                if what in ('basic', 'half'):
                    if what == 'half':
                        user, password = rng.choice([(user, None), (None, password), (None, None)])
                    now['user'], now['password'] = user, password
                    if through_env:
                        for key, value in (('DEEP_SERVICE_USERNAME', user), ('DEEP_SERVICE_PASSWORD', password)):
                            if value is not None:
                                os.environ[key] = value
                Supply.now.slow = rng.random() < 0.4
                # when it is broken from the start the requests cannot go out
                Supply.now.broken = broken = rng.random() < 0.15
                life = {'provider': 'none' if what == 'blank' else what, 'user': [ord(c) for c in user or ''], 'password': [ord(c) for c in password or ''],
                        'requests': [], 'snaps': 0, 'asked': 1, 'fails': broken}
                bounded(agent.start, limit=30)
            elif op['op'] == 'stop':
                end()
                life = None
            elif op['op'] == 'poll':
                poll()
            elif op['op'] == 'snap':
                snap()
            elif op['op'] == 'both':
                # at the same time, and before anything was cached
                threads = [threading.Thread(target=f) for f in rng.sample([poll, snap], 2)]
                for t in threads:
                    t.start()
                for t in threads:
                    t.join(20)
            elif op['op'] == 'breaks':
                Supply.now.broken = life['fails'] = True
            elif op['op'] == 'works':
                Supply.now.broken = False
        if life is not None:
            end()
    for key in ('DEEP_SERVICE_USERNAME', 'DEEP_SERVICE_PASSWORD'):
        os.environ.pop(key, None)
    return {'id': ident, 'kind': 'lives', 'lives': found, 'raised': raised}


def concurrent_first(rng, n):
    """The very first requests of a connection, at the same time, with a provider that takes its time."""
    from deep.grpc import GRPCService
    Supply.now = Supply('list')
    Supply.now.slow = True
    config = ConfigService({'SERVICE_AUTH_PROVIDER': 'auth08.Provider', 'SERVICE_SECURE': False})
    config.resource = Resource.create()
    with Net(lambda call: PollResponse().SerializeToString() if call.kind == 'poll' else b'') as net:
        from deep.poll import LongPoll
        connection = GRPCService(config)
        connection.start()
        tasks = TaskHandler()
        push = PushService(connection, tasks)
        poller = LongPoll(config, connection)
        life = {'provider': 'list', 'user': [], 'password': [], 'snaps': 2, 'asked': 2, 'fails': False}
        threads = [threading.Thread(target=f) for f in (poller.poll, lambda: push.push_snapshot(small_snapshot()), poller.poll, lambda: push.push_snapshot(small_snapshot()))]
        rng.shuffle(threads)
        for t in threads:
            t.start()
            threading.Event().wait(rng.choice([0, 0.002, 0.006]))
        for t in threads:
            t.join(20)
        tasks.flush(20)
        life['requests'] = [{'k': 'poll' if c.kind == 'poll' else 'snapshot', 'meta': meta_json(c.metadata)} for c in net.calls]
        life.update(sent=len(net.of('send')), polls=len(net.of('poll')), supplied=[meta_json(g) for g in Supply.now.given])
    return {'id': 'first%d' % n, 'kind': 'lives', 'lives': [life], 'raised': ''}


# ---- a real connection ---------------------------------------------------------------------------------------------------
def loopback(rng, snapshots):
    """Through grpc itself."""
    seen = []

    class Handler(grpc.GenericRpcHandler):
        """Takes everything."""

        def service(self, details):
            """A method."""
            kind = details.method.rsplit('/', 1)[-1]

            def call(request, context):
                seen.append((kind, request, [[k, v] for k, v in context.invocation_metadata()]))
                return PollResponse(response_type=ResponseType.NO_CHANGE).SerializeToString() if kind == 'poll' else b''
            return grpc.unary_unary_rpc_method_handler(call)
    server = grpc.server(futures.ThreadPoolExecutor(4), options=[('grpc.max_receive_message_length', -1)])
    server.add_generic_rpc_handlers((Handler(),))
    port = server.add_insecure_port('127.0.0.1:0')
    if not port:
        return []
    server.start()
    user, password = rng.choice(USERS), rng.choice(USERS)
    agent = Deep(ConfigService({'SERVICE_URL': '127.0.0.1:%d' % port, 'SERVICE_SECURE': 'False', 'POLL_TIMER': 0.05, 'PLUGINS': [], 'NO_TRACE': True,
                                'SERVICE_AUTH_PROVIDER': PROVIDERS['basic'], 'SERVICE_USERNAME': user, 'SERVICE_PASSWORD': password}))
    cases = []
    try:
        bounded(agent.start, limit=30)
        for n, snapshot in enumerate(snapshots):
            cases.append({'id': 'grpc%d' % n, 'kind': 'message', 'want': want_json(snapshot), 'got': [], 'meta': [], 'auth': [], 'raised': ''})
            agent.push.push_snapshot(snapshot)
        wait_for(lambda: len([s for s in seen if s[0] == 'send']) >= len(snapshots), 20)
        bounded(agent.shutdown, limit=40)
    finally:
        server.stop(None)
    by_id = {c['want']['id']: c for c in cases}
    life = {'provider': 'basic', 'user': [ord(c) for c in user], 'password': [ord(c) for c in password], 'snaps': len(snapshots), 'asked': 1, 'fails': False,
            'requests': [], 'supplied': []}
    for kind, request, meta in list(seen):
        meta = [kv for kv in meta if kv[0] != 'user-agent']
        life['requests'].append({'k': 'poll' if kind == 'poll' else 'snapshot', 'meta': meta_json(meta)})
        if kind == 'send':
            got = got_json(request)
            if got['id'] in by_id:
                by_id[got['id']]['got'].append(got)
    life.update(sent=len([s for s in seen if s[0] == 'send']), polls=len([s for s in seen if s[0] == 'poll']))
    return cases + [{'id': 'grpc', 'kind': 'lives', 'lives': [life], 'raised': ''}]


def run(check):
    rng = random.Random(check.seed * 4177 + 8)
    const = dict(Fields='{"a", "b"}', Providers='{"none", "p"}', MaxSnaps=2, MaxLives=2, MaxPolls=check.pick(2, 3))
    check.model('Wire', 'delivery', invariants=['Authorised', 'Intact', 'Delivered'], constants=dict(const, Fault='"none"'))
    for fault, names in FAULTS.items():
        check.model('Wire', 'faulty: ' + fault, expect=names, invariants=['Authorised', 'Intact', 'Delivered'], constants=dict(const, MaxPolls=2, Fault='"%s"' % fault))
    histories = check.generate('WireGen', 'lives', 'LINE', constraints=['Emit'], workers=4, constants=dict(
        Steps=check.pick(5, 6), Providers='{"none", "basic", "list"}'))
    check.notes['generated_lives'] = len(histories)
    cases = []
    for n in range(check.pick(1200, 15000)):
        cases += Sender(n % 4 == 0).send([made(rng) for _ in range(rng.choice([1, 1, 3]))], 'made%d' % n)
    for n in range(check.pick(160, 2500)):
        if check.late():
            break
        snapshots = collected(rng, n)
        if snapshots:
            cases += Sender(n % 4 == 0).send(snapshots, 'collected%d' % n)
    for n in range(check.pick(3, 20)):
        cases += Sender(n % 2 == 0).send([big(rng)], 'big%d' % n)
    check.notes['snapshots'] = len(cases)
    check.sample(cases[0])
    for n, ops in enumerate(rng.sample(histories, min(len(histories), check.pick(500, 6000)))):
        if check.late():
            break
        for op in ops:
            if op['op'] == 'start':
                op['arg'] = rng.choice({'none': ['none', 'blank', 'half'], 'list': ['list', 'tuple', 'list', 'empty']}.get(op['arg'], [op['arg']]))
        cases.append(lives(rng, 'lives%d' % n, ops))
    check.sample(cases[-1])
    for n in range(check.pick(40, 400)):
        cases.append(concurrent_first(rng, n))
    for n in range(check.pick(2, 10)):
        some = [made(rng) for _ in range(15)] + [big(rng)] + collected(rng, n)
        found = loopback(rng, some)
        check.notes['through_grpc'] = check.notes.get('through_grpc', 0) + len(found)
        cases += [dict(c, id='%s.%d' % (c['id'], n)) for c in found]
    failing = check.judge('WireJudge', cases, chunk=150)
    by_id = {c['id']: c for c in cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
    check.assumptions += ['text that cannot be encoded (lone surrogates) is sent with what stands before and after it unchanged',
                          'an integer that no field of a message can hold is sent as its text', 'a duration below zero (the clock was changed) may be sent as zero',
                          'the metadata of a request is what the provider supplied at any time in this life of the agent']
