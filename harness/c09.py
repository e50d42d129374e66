"""C09: delivery runs off the application thread, exactly once, and flush really drains."""
import random
import sys
import threading

import rig as R
from deep.push import PushService
from deep.task import TaskHandler
from deep.api.tracepoint.eventsnapshot import EventSnapshot
from graphs import host
from net import Net, Service, FakeError, wait_for
from rig import Rig, Tp
from sched import Scheduler, switch_at, random_policy

FAULTS = {'race': 'Drained', 'dropped': 'RunMeansRun', 'inline': 'OnlyWorkers', 'retry': 'AtMostOnce', 'queuedonly': 'Drained',
          'failstops': 'NeverRaises', 'workerdies': 'temporal'}
LIMIT = 20


class Odd(BaseException):
    """An error that is no Exception."""


ERRORS = {'error': lambda: ValueError('boom'), 'base': lambda: Odd('odd'), 'exit': lambda: SystemExit(3), 'interrupt': lambda: KeyboardInterrupt(),
          'rpc': lambda: FakeError()}


class Recorder:
    """What happens to the tasks of one handler."""

    def __init__(self, handler):
        self.handler, self.events, self.lock = handler, [], threading.Lock()
        self.apps, self.gates, self.count, self.flushes = set(), {}, 0, 0
        self.alien = []

    def add(self, e, n, **more):
        """Record."""
        with self.lock:
            self.events.append(dict({'e': e, 'n': n, 'worker': True}, **more))

    def body(self, n, kind, gate):
        """A task."""
        def task(*args):
            me = threading.current_thread()
            self.add('run', n, worker=me not in self.apps)
            try:
                if gate is not None:
                    gate.wait(60)
                if args != (n, 'arg'):
                    self.alien.append(args)
                if kind in ERRORS:
                    raise ERRORS[kind]()
                if kind == 'slow':
                    threading.Event().wait(0.003)
                return n
            finally:
                self.add('end', n)
        return task

    def submit(self, kind, gated=False):
        """Hand over a task."""
        with self.lock:
            self.apps.add(threading.current_thread())
            self.count += 1
            n = self.count
            gate = self.gates[n] = threading.Event() if gated else None
        self.add('sub', n)
        try:
            self.handler.submit_task(self.body(n, kind, gate), n, 'arg')
        except BaseException:  # noqa
            self.add('ref', n)
            return n, False
        self.add('acc', n)
        return n, True

    def flush(self):
        """Flush."""
        with self.lock:
            self.apps.add(threading.current_thread())
            self.flushes += 1
            n = self.flushes
        self.add('fl', n)
        try:
            self.handler.flush()
        except BaseException as e:  # noqa
            self.add('raised', n, error=repr(e))
            return
        self.add('flr', n)

    def settle(self):
        """Wait until every accepted task has ended; nothing may be left."""
        def done():
            with self.lock:
                ended = {e['n'] for e in self.events if e['e'] == 'end'}
                return {e['n'] for e in self.events if e['e'] == 'acc'} <= ended
        wait_for(done, LIMIT)
        self.add('settled', 0)

    def case(self, ident, what):
        """For TLC."""
        with self.lock:
            return {'id': ident, 'trace': list(self.events), 'what': what}


def spawn(func, *args):
    """Start a thread."""
    thread = threading.Thread(target=func, args=args, daemon=True)
    thread.start()
    return thread


def generated(check, cases, scheds):
    """Schedules from the specification; after every step a flush has returned exactly when it has to."""
    for n, sched in enumerate(scheds):
        rec = Recorder(TaskHandler())
        threads = []
        numbers = {}
        for step in sched:
            what = step['what']
            if what in ('submit', 'refused'):
                numbers[step['n']], ok = rec.submit(step['kind'], gated=True)
                if ok == (what == 'refused'):
                    check.violation('work is accepted after closing, or refused before', {'schedule': sched, 'step': step})
            elif what == 'release':
                rec.gates[numbers[step['n']]].set()
            else:
                threads.append(spawn(rec.flush))
                wait_for(lambda: sum(1 for e in rec.events if e['e'] == 'fl') >= step['n'], 5)
                if not step['returned']:
                    # it has to be inside the flush before the next step, else the refusals are not due
                    blocked(threads[-1])
            if step['flushes'] and step['returned']:
                if not wait_for(lambda: not any(t.is_alive() for t in threads), LIMIT):
                    check.violation('a flush does not return although everything has finished', {'schedule': sched, 'step': step})
                    break
            elif step['flushes'] and any(e['e'] == 'flr' for e in rec.events):
                check.violation('a flush returned before everything that was accepted has finished', {'schedule': sched, 'step': step})
                break
        for gate in rec.gates.values():
            gate.set()
        rec.settle()
        cases.append(rec.case('gen%d' % n, sched))


def blocked(thread):
    """Wait until the thread does not move any more (at most a moment)."""
    last, same = None, 0
    for _ in range(150):
        frame = sys._current_frames().get(thread.ident)
        if frame is None:
            return
        at = (id(frame), frame.f_lasti)
        same = same + 1 if at == last else 0
        if same >= 3:
            return
        last = at
        threading.Event().wait(0.002)


def random_runs(check, cases, rng):
    """Threads that hand over tasks of every kind while others flush."""
    for n in range(check.pick(150, 2500)):
        rec = Recorder(TaskHandler())
        kinds = ['ok', 'slow'] + list(ERRORS)
        threads = []
        plan = [[rng.choice(kinds) for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 4))]
        for part in plan:
            threads.append(spawn(lambda p=part: [rec.submit(k) for k in p]))
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.5:
                for t in threads:
                    t.join(LIMIT)
            threads.append(spawn(rec.flush))
        for t in threads:
            t.join(LIMIT)
        if any(t.is_alive() for t in threads):
            check.violation('handing over or flushing does not return', {'plan': plan, 'events': rec.events[-20:]})
            continue
        rec.submit('ok')
        rec.settle()
        if rec.alien:
            check.violation('a task does not get its arguments', {'args': repr(rec.alien[:3])})
        cases.append(rec.case('rnd%d' % n, plan))


def schedules(check, cases, rng):
    """Every preemption point of handing over against flushing."""
    total = 0
    shapes = {'submit-flush': ['s', 'f'], 'flush-submit': ['f', 's'], 'submit-submit': ['s', 's'], 'flush-flush': ['f', 'f'],
              'submit-submit-flush': ['s', 's', 'f'], 'fail-flush': ['e', 'f'], 'flush-fail': ['f', 'e']}

    def one(ident, shape, policy):
        rec = Recorder(TaskHandler())
        rec.submit('slow')
        sched = Scheduler(policy, grace=0.05)
        for i, s in enumerate(shape):
            sched.add(str(i + 1), {'s': lambda: rec.submit('ok'), 'e': lambda: rec.submit('error'), 'f': rec.flush}[s])
        if not sched.run():
            check.violation('handing over and flushing at the same time do not return', {'shape': shape, 'case': ident})
            return 0
        rec.settle()
        cases.append(rec.case(ident, shape))
        return max(t.steps for t in sched.threads)

    for name, shape in shapes.items():
        order = [str(i + 1) for i in range(len(shape))]
        steps = one('sched-%s-base' % name, shape, switch_at(order, []))
        for k in range(1, steps + 2):
            one('sched-%s-%d' % (name, k), shape, switch_at(order, [k, 10 ** 6]))
            total += 1
            if len(shape) > 2 or check.thorough:
                for j in range(1, steps + 2, check.pick(3, 1)):
                    one('sched-%s-%d-%d' % (name, k, j), shape, switch_at(order, [k, j, 10 ** 6]))
                    total += 1
    for n in range(check.pick(60, 1500)):
        shape = [rng.choice('ssef') for _ in range(rng.randint(2, 4))]
        one('schedr-%d' % n, shape, random_policy(random.Random(rng.random()), rng.choice([0.3, 0.6, 0.9])))
        total += 1
    check.notes['controlled_schedules'] = total


def volume(check, cases, rng):
    """Many tasks; nothing gets lost."""
    for n in range(check.pick(3, 20)):
        rec = Recorder(TaskHandler())
        rec.apps.add(threading.current_thread())
        count = rng.choice([200, 400])
        done = []
        for k in range(count):
            rec.handler.submit_task(lambda k=k: (done.append(k), 1 / (k % 5) if k % 5 < 1 else 0))
        rec.handler.flush()
        if sorted(done) != list(range(count)):
            check.violation('a flush returned before everything that was accepted has finished', {
                'tasks': count, 'done': len(done), 'missing': sorted(set(range(count)) - set(done))[:10]})


def backlog(check, rng):
    """The workers are behind by far; the application does not do their work, and a flush waits for the first as for the last."""
    for count in check.pick([rng.randint(600, 900), 2500], [rng.randint(300, 900), 1500, 5000, 20000]):
        handler = TaskHandler()
        gate, done, threads = threading.Event(), [], set()
        held = rng.choice([0, 1])

        def task(k):
            threads.add(threading.current_thread())
            gate.wait(60)
            if k <= held:
                threading.Event().wait(0.2)
            done.append(k)
            if k % 7 == 3:
                raise ERRORS[rng.choice(sorted(ERRORS))]()

        def app():
            for k in range(count):
                if threading.current_thread() in threads:
                    break
                handler.submit_task(task, k)
        thread = spawn(app)
        # a task that runs here would wait for the gate
        thread.join(30)
        if thread.is_alive() or thread in threads:
            check.violation('a task is not run by a worker', {'tasks that wait': count, 'run on the thread of the application': thread in threads})
            gate.set()
            continue
        state = {}

        def flush():
            try:
                handler.flush()
            except BaseException as e:  # noqa
                state['raised'] = repr(e)
            state['done'] = len(done)
        flusher = spawn(flush)
        blocked(flusher)
        if not flusher.is_alive():
            check.violation('a flush returned before everything that was accepted has finished', {'tasks': count, 'done': 0})
        gate.set()
        flusher.join(60)
        if flusher.is_alive() or 'raised' in state:
            check.violation('a flush does not return although everything has finished', {'tasks': count, 'raised': state.get('raised')})
        elif state['done'] != count:
            check.violation('a flush returned before everything that was accepted has finished', {
                'tasks': count, 'done': state['done'], 'missing': sorted(set(range(count)) - set(done))[:10]})
        check.traces += 1


# ---- snapshots ---------------------------------------------------------------------------------------------------------
SOURCE = '''def work(v, other):
    a = [v, v + 1]
    b = {'k': v}  # T
    return a
'''


class Probe:
    """A snapshot that tells which thread reads it, and may fail to be read."""

    def __init__(self, snapshot, log, fail=None):
        self.__dict__.update(_snapshot=snapshot, _log=log, _fail=fail)

    def __getattr__(self, name):
        if name in ('var_lookup', 'frames', 'watches'):
            self._log.append(threading.current_thread())
            if self._fail is not None:
                raise self._fail
        return getattr(self._snapshot, name)


def snapshots(rng, count):
    """Real snapshots."""
    rig = Rig(log=False, metrics=0, spans=0)
    rig.install([Tp('tp', 'push09.py', 3, {'fire_count': '-1', 'fire_period': '0'}, ['v', 'nope'])])
    ns = host(SOURCE, '/app/push09.py')
    for k in range(count):
        rig.run(ns['work'], k, rng.random())
    real = [i['snapshot'] for i in rig.effects.items]
    # there is not much in these
    for k in range(count // 4):
        like = rng.choice(real)
        frames = rng.choice([[], [], like.frames[:1]])
        snapshot = EventSnapshot(like.tracepoint, like.ts_nanos, like.resource, frames, rng.choice([{}, dict(like.var_lookup)]))
        if k % 2:
            snapshot.complete()
        real.append(snapshot)
    return real


def delivered(check, ident, net, pushed, apps, conversions, failing, what):
    """Every snapshot that could be converted was sent once, off the application."""
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot
    seen = {}
    for call in net.of('send'):
        message = Snapshot.FromString(call.request)
        seen.setdefault(bytes(message.ID), []).append(call)
        if call.thread in apps:
            check.violation('a snapshot is sent on the thread of the application', {'case': ident, 'what': what})
        if not call.finished:
            check.violation('a flush returned while a snapshot is still being sent', {'case': ident, 'what': what})
    if any(c in apps for c in conversions):
        check.violation('a snapshot is converted on the thread of the application', {'case': ident, 'what': what})
    for snapshot in pushed:
        got = len(seen.pop(snapshot.id.to_bytes(16, 'big'), []))
        want = 0 if snapshot.id in failing else 1
        if got != want:
            check.violation('a snapshot is not sent exactly once' if got == 0 else 'a snapshot is sent more than once', {
                'case': ident, 'sent': got, 'what': what, 'snapshots': len(pushed)})
    if seen:
        check.violation('a snapshot is sent that was not handed over', {'case': ident, 'what': what, 'ids': [k.hex() for k in seen]})


def pushes(check, rng):
    """Snapshots handed to the push service from several threads; conversion and sending fail for some."""
    pool = snapshots(rng, 24)
    for n in range(check.pick(120, 1500)):
        plan = {}
        order = rng.sample(pool, rng.randint(1, 10))
        conversions, failing = [], set()
        metadata_fails = {'left': rng.choice([0, 0, 0, 1])}

        def answer(call):
            from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot
            how = plan.get(bytes(Snapshot.FromString(call.request).ID), 'ok')
            if how == 'slow':
                threading.Event().wait(0.002)
            elif how in ERRORS:
                raise ERRORS[how]()
            return b''

        net = Net(answer)
        service = Service(net, [('key', 'value')])
        handler = TaskHandler()
        push = PushService(service, handler)
        parts = [[] for _ in range(rng.randint(1, 3))]
        for snapshot in order:
            how = rng.choice(['ok', 'ok', 'slow', 'convert', 'error', 'rpc', 'base', 'exit'])
            fail = None
            if how == 'convert':
                fail = rng.choice([ValueError('x'), Odd('x'), KeyError('k')])
                failing.add(snapshot.id)
            plan[snapshot.id.to_bytes(16, 'big')] = how
            rng.choice(parts).append(Probe(snapshot, conversions, fail))
        apps, raised = set(), []

        def app(part):
            apps.add(threading.current_thread())
            for probe in part:
                try:
                    push.push_snapshot(probe)
                except BaseException as e:  # noqa
                    raised.append(repr(e))

        threads = [spawn(app, part) for part in parts]
        for t in threads:
            t.join(LIMIT)
        # threads that have ended give their identity to others
        flusher = spawn(handler.flush)
        flusher.join(LIMIT)
        if any(t.is_alive() for t in threads) or flusher.is_alive():
            check.violation('handing over or flushing does not return', {'what': repr(plan)})
            continue
        if raised:
            check.violation('handing over a snapshot raises', {'errors': raised, 'what': repr(plan)})
        late = Probe(order[0], [], None)
        try:
            push.push_snapshot(late)
            check.violation('work is accepted after closing', {'what': 'push_snapshot after flush'})
        except BaseException:  # noqa
            pass
        delivered(check, 'push%d' % n, net, order, apps, conversions, failing, repr(sorted(plan.values())))
        check.traces += 1


def end_to_end(check, rng):
    """Threads of an application hit tracepoints while the service does not answer."""
    from deep.api.resource import Resource
    from deep.config import ConfigService
    from deep.grpc import convert_response
    from deep.processor.trigger_handler import TriggerHandler
    for n in range(check.pick(20, 300)):
        gate = threading.Event()
        blocked = rng.random() < 0.7
        fails = rng.random() < 0.5
        counter = [0]

        def answer(call):
            if blocked:
                gate.wait(60)
            counter[0] += 1
            if fails and counter[0] % 3 == 0:
                raise FakeError()
            return b''

        net = Net(answer)
        handler = TaskHandler()
        config = ConfigService({})
        config.plugins = []
        config.resource = Resource.create()
        trigger = TriggerHandler(config, PushService(Service(net), handler))
        stage = rng.choice([None, None, 'line_capture', 'method_capture', 'method_end'])
        args = {'fire_count': '-1', 'fire_period': '0'}
        if stage:
            args['stage'] = stage
        tps = [Tp('tp%d' % k, 'push09.py', 3, args, ['v', 'other']) for k in range(rng.randint(1, 3))]
        trigger.new_config(convert_response([t.proto() for t in tps]))
        ns = host(SOURCE, '/app/push09.py')
        hits = [rng.randint(1, 5) for _ in range(rng.randint(1, 4))]
        apps, results = set(), []

        def app(count):
            apps.add(threading.current_thread())
            sys.settrace(trigger.trace_call)
            try:
                results.append([ns['work'](k, None) for k in range(count)])
            finally:
                sys.settrace(None)

        threads = [spawn(app, count) for count in hits]
        for t in threads:
            t.join(LIMIT)
        what = {'hits': hits, 'stage': stage, 'tracepoints': len(tps), 'service blocks': blocked, 'service fails': fails}
        if any(t.is_alive() for t in threads):
            check.violation('the application waits for the delivery of a snapshot', what)
            gate.set()
            continue
        gate.set()
        flusher = spawn(handler.flush)
        flusher.join(LIMIT)
        if flusher.is_alive():
            check.violation('a flush does not return although everything has finished', what)
            continue
        calls = net.of('send')
        if not all(c.finished for c in calls):
            check.violation('a flush returned while a snapshot is still being sent', what)
        if len(calls) != sum(hits) * len(tps) or len({c.request for c in calls}) != len(calls):
            check.violation('a snapshot is not sent exactly once', dict(what, sent=len(calls), want=sum(hits) * len(tps)))
        if any(c.thread in apps for c in calls):
            check.violation('a snapshot is sent on the thread of the application', what)
        check.traces += 1


def run(check):
    rng = random.Random(check.seed * 5381 + 9)
    sizes = dict(Apps='{"a", "b"}', PerApp=check.pick(2, 3), Workers='{"w1", "w2"}', Flushers=check.pick('{"f"}', '{"f", "g"}'))
    safe = ['AtMostOnce', 'RunMeansRun', 'OnlyWorkers', 'Drained', 'NeverRaises', 'RefusedOnlyWhenClosed']
    check.model('TaskPool', 'safety', invariants=safe, constants=dict(sizes, Fault='"none"'))
    small = dict(Apps='{"a", "b"}', PerApp=1, Workers='{"w1", "w2"}', Flushers='{"f", "g"}')
    check.model('TaskPool', 'liveness', spec='Fair', invariants=safe, properties=['AllRun', 'FlushReturns'], constants=dict(small, Fault='"none"'))
    for fault, name in FAULTS.items():
        check.model('TaskPool', 'faulty: ' + fault, expect=name if name != 'temporal' else ['temporal', 'AllRun', 'FlushReturns'],
                    spec='Fair' if name == 'temporal' else 'Spec', invariants=[] if name == 'temporal' else safe,
                    properties=['AllRun'] if name == 'temporal' else [],
                    constants=dict(sizes, Workers='{"w"}', Fault='"%s"' % fault) if name == 'temporal' else dict(sizes, Fault='"%s"' % fault))
    scheds = check.generate('TaskPoolGen', 'schedules', 'SCHED', constraints=['Emit'], workers=4, constants=dict(
        MaxTasks=check.pick(3, 4), MaxFlush=check.pick(1, 2), Kinds='{"ok", "error", "exit"}' if not check.thorough else '{"ok", "error"}'))
    check.notes['generated_schedules'] = len(scheds)
    if len(scheds) > check.pick(500, 8000):
        scheds = rng.sample(scheds, check.pick(500, 8000))
    cases = []
    generated(check, cases, scheds)
    random_runs(check, cases, rng)
    schedules(check, cases, rng)
    volume(check, cases, rng)
    backlog(check, rng)
    pushes(check, rng)
    end_to_end(check, rng)
    rejected = check.validate('TaskPoolTrace', cases, chunk=400)
    for case in cases:
        if case['id'] in rejected:
            at = rejected[case['id']]
            event = case['trace'][min(at, len(case['trace']) - 1)]
            check.violation({'ref': 'work is refused that has to be accepted', 'acc': 'work is accepted after closing',
                             'run': 'a task runs twice, on a thread of the application, or without being accepted',
                             'flr': 'a flush returned before everything that was accepted has finished',
                             'raised': 'a flush raises', 'settled': 'a task that was accepted never runs'}.get(event['e'], 'no behaviour of the specification'),
                            {'case': case['id'], 'what': case['what'], 'explained': at, 'next': event, 'trace': case['trace'][:at + 2][-25:]})
    check.sample({'trace': cases[0]})
    check.assumptions += ['a flush has to wait for whatever was accepted before it closed', 'a failed send is not repeated',
                          'the call that flushes is not made by a worker']
