"""C13: registering a tracepoint in code returns a handle that removes exactly it."""
import random
import sys
import threading

import c11
import rig as R
from c12 import judge, versions
from configs import Agent, FILE, PROGRAM, Point, describe, random_point
from net import Net, bounded, wait_for
from sched import Scheduler, switch_at, random_policy
from graphs import host

FAULTS = {'replace': 'OnlyItself', 'byplace': 'OnlyItself', 'silent': 'Converged', 'norefresh': 'Converged', 'forgets': 'OnlyItself'}


def points(rng, count):
    """Points for the handles: identical, at one place, or anything."""
    mode = rng.choice(['same', 'place', 'any', 'pairs'])
    base = random_point(rng, 'code')
    res = {}
    for h in range(1, count + 1):
        point = random_point(rng, 'code%d' % h)
        if mode == 'same' or (mode == 'pairs' and h % 2):
            point = base
        elif mode in ('place', 'pairs'):
            point.line, point.method = base.line, base.method
            point.args.pop('method_name', None)
            if base.method:
                point.args['method_name'] = base.method
        res[h] = point
    return res


def play(check, cases, ident, hist, rng, content, customs, strange=False):
    """Run a history; every step settles before the next."""
    agent = Agent()
    handles = {}
    for step in hist:
        what, arg = step['what'], step['arg']
        if what == 'update':
            agent.poll('update', content[arg], 'hash-%s' % arg)
        elif what == 'register':
            handles[arg] = agent.register(arg, customs[arg])
            if strange and rng.random() < 0.5:
                # one that cannot be understood affects nothing
                odd = Point('odd', 3, 'odd', extra={'stage': 'no_such_stage'})
                odd.accept = False
                handles['odd'] = agent.register(1000, odd)
        elif what == 'unregister':
            agent.unregister(arg, handles[arg])
            if strange and 'odd' in handles and rng.random() < 0.5:
                agent.unregister(1000, handles['odd'])
        elif what == 'nochange':
            agent.poll('nochange')
        agent.tasks.drain()
        agent.acts()
    cases.append({'id': ident, 'events': agent.events, 'what': {'history': hist}})


def random_history(rng, length, count):
    """Registrations, updates, and many unregistrations, also repeated ones."""
    hist, used = [], 0
    for _ in range(length):
        r = rng.random()
        if r < 0.4 and used < count:
            used += 1
            hist.append(('register', used))
        elif r < 0.8 and used:
            hist.append(('unregister', rng.randint(1, used)))
        elif r < 0.9:
            hist.append(('update', rng.randint(1, 2)))
        else:
            hist.append(('nochange', 0))
    return [{'what': w, 'arg': a} for w, a in hist]


def interleaved(check, cases, rng):
    """Registrations and unregistrations at the same time on several threads."""
    total = 0

    def scene(ident, what, policy):
        if check.late():
            return 0
        agent = Agent()
        agent.poll('update', [('a', Point('one', 2, 'one', collect=False))], 'hash-1')
        same = Point('same', 3, 'same', collect=False)
        kept = {h: agent.register(h, same) for h in (1, 2, 3)}
        actions = {'a': lambda: agent.register(10, same), 'b': lambda: agent.register(11, Point('other', 3, 'other', collect=False)),
                   'u': lambda: agent.unregister(1, kept[1]), 'v': lambda: agent.unregister(1, kept[1]), 'x': lambda: agent.unregister(2, kept[2]),
                   'w': lambda: agent.tasks.run(), 'p': lambda: agent.poll('update', [('b', Point('two', 3, 'two', collect=False))], 'hash-2')}
        sched = Scheduler(policy, grace=0.05)
        for i, c in enumerate(what):
            sched.add(str(i + 1), actions[c])
        if not sched.run():
            check.violation('registrations at the same time do not come back', {'scene': what})
            return 0
        agent.tasks.drain()
        agent.acts()
        cases.append({'id': ident, 'events': agent.events, 'what': {'scene': what}})
        return max(t.steps for t in sched.threads)

    for what in ['ab', 'au', 'ua', 'uv', 'ux', 'xu', 'wa', 'aw', 'wu', 'uw', 'pa', 'ap', 'pu', 'up']:
        order = ['1', '2']
        steps = scene('il-%s-base' % what, what, switch_at(order, []))
        for k in range(1, steps + 2, check.pick(2, 1)):
            scene('il-%s-%d' % (what, k), what, switch_at(order, [k + (rng.randrange(2) if not check.thorough else 0), 10 ** 6]))
            total += 1
    for n in range(check.pick(50, 1500)):
        what = ''.join(rng.sample('abuvxwwp', rng.randint(2, 4)))
        scene('ilr-%d' % n, what, random_policy(random.Random(rng.random()), rng.choice([0.3, 0.7, 0.9])))
        total += 1
    check.notes['controlled_schedules'] = total


def started(check, rng):
    """A started agent, its real task handler, threads that register and unregister."""
    from deep.api.deep import Deep
    from deep.config import ConfigService
    from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType
    for n in range(check.pick(25, 300)):
        tps = versions(rng, 1)[1]
        replies = {'n': 0}

        def answer(call):
            if call.kind != 'poll':
                return b''
            replies['n'] += 1
            changed = replies['n'] % 3 == 1
            return PollResponse(ts_nanos=5, current_hash='h', response_type=ResponseType.UPDATE if changed else ResponseType.NO_CHANGE,
                                response=[p.proto(i) for i, p in tps] if changed else ()).SerializeToString()

        with Net(answer):
            config = ConfigService({'POLL_TIMER': 0.01, 'NO_TRACE': True, 'PLUGINS': []})
            deep = Deep(config)
            lock = threading.Lock()
            live, errors = [], []

            def add(point):
                registration = deep.register_tracepoint('host12.py', point.line, dict(point.args), list(point.watches), point.definitions())
                with lock:
                    live.append((point, registration))

            early = [random_point(rng, 'early%d' % k) for k in range(rng.choice([0, 1, 2]))]
            for point in early:
                add(point)
            how, error = bounded(deep.start)
            if how != 'done':
                check.violation('the agent does not start', {'how': how, 'error': repr(error)})
                return
            try:
                def work(seed):
                    mine = random.Random(seed)
                    gone = []
                    try:
                        for k in range(8):
                            add(random_point(mine, 'c%d.%d' % (seed % 1000, k)))
                            if mine.random() < 0.6:
                                with lock:
                                    _, registration = live.pop(mine.randrange(len(live)))
                                registration.unregister()
                                gone.append(registration)
                            if gone and mine.random() < 0.3:
                                mine.choice(gone).unregister()
                    except BaseException as e:  # noqa
                        errors.append(repr(e))

                threads = [threading.Thread(target=work, args=(rng.randrange(10 ** 6),), daemon=True) for _ in range(3)]
                for t in threads:
                    t.start()
                for t in threads:
                    t.join(30)
                if any(t.is_alive() for t in threads):
                    check.violation('registrations at the same time do not come back', {'run': n})
                    return
                if errors:
                    check.violation('registering or unregistering raises', {'errors': errors})
                effects = R.Effects()
                config.plugins = [R.plugin(R.RecordingLogger, effects), R.plugin(R.RecordingMetrics, effects)]
                deep.trigger_handler._push_service = R.RecordingPush(effects)
                want = {}
                for point in [p for _, p in tps] + [p for p, _ in live]:
                    for text in point.effects():
                        want[text] = want.get(text, 0) + 1
                ns = host(PROGRAM, FILE)

                def acts():
                    seen = {}

                    def tracer(frame, event, arg):
                        if frame.f_code.co_filename == FILE:
                            before = len(effects.items)
                            place = 'line %d' % frame.f_lineno if event == 'line' else '%s %s' % (event, frame.f_code.co_name)
                            deep.trigger_handler.trace_call(frame, event, arg)
                            for item in effects.items[before:]:
                                text = describe(item)
                                if text:
                                    text = text.replace(' ', ' ' + place + ' ', 1)
                                    seen[text] = seen.get(text, 0) + 1
                        return tracer
                    sys.settrace(tracer)
                    try:
                        ns['main'](1)
                    finally:
                        sys.settrace(None)
                    return seen

                if not wait_for(lambda: acts() == want, 8):
                    got = acts()
                    check.violation('the registrations that are left are not what the agent acts on', {
                        'missing': {k: v for k, v in want.items() if got.get(k) != v}, 'extra': {k: v for k, v in got.items() if want.get(k) != v},
                        'early': len(early)})
            finally:
                bounded(deep.shutdown, limit=10)
        check.traces += 1


def as_given(check, rng):
    """Registrations with all kinds of arguments, judged by the specification of the arguments (Interpret)."""
    bench = c11.Bench(check)
    rows = check.generate('InterpretGen', 'argument table', 'ROW', constraints=['Emit'], workers=4, constants=dict(
        FrameTypes='{"absent", "all_frame", "no_frame"}', Metrics='{0, 2}'))
    limits = [{}, {}, {'fire_count': '-1', 'fire_period': '0'}, {'fire_count': '0'}, {'fire_count': 0}, {'fire_count': '2', 'fire_period': '0'},
              {'fire_count': -1, 'fire_period': 50}, {'fire_period': '0'}, {'fire_count': '-1'}]
    for n, row in enumerate(rng.sample(rows, min(len(rows), check.pick(350, 5000)))):
        if check.late():
            break
        args = {k: v for k, v in row['args'].items() if v != 'absent' and k != 'metrics'}
        if 'method_name' in args:
            args['method_name'] = c11.FUNC_OF[rng.choice('ABCDEFG')]
        if 'log_msg' in args:
            args['log_msg'] = 'row %d' % n
        if rng.random() < 0.3:
            # as few as there can be
            args = {}
        args.update(rng.choice(limits))
        metrics = [dict(name='m.%d' % k, type_=rng.choice(['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY'])) for k in range(row['args']['metrics'])]
        specs = [c11.Spec(0, 'code', rng.choice('ABCDEFG'), args, metrics, rng.sample(['v', 'v + 1', 'nope'], rng.randint(0, 2)),
                          rng.choice([None, None, {0}, {1}]), custom=True)]
        if rng.random() < 0.4:
            other = c11.random_spec(rng, 1, 'service')
            other.mark = rng.choice([other.mark, specs[0].mark])
            specs.append(other)
        bench.run('given%d' % n, specs, [rng.choice([0, 1]) for _ in range(rng.randint(1, 4))], [rng.choice([1, 1, 10, 60, 300]) for _ in range(5)])
    failing = check.judge('InterpretJudge', bench.cases)
    by_id = {c['id']: c for c in bench.cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation('as registered in code: ' + clause, by_id[case_id])


def defaults(check):
    """A registration with nothing but its place collects a snapshot once."""
    agent = Agent()
    agent.deep.register_tracepoint('host12.py', 3)
    agent.tasks.drain()
    for k in range(2):
        agent.events.clear()
        agent.acts()
        acts = agent.events[-1]['acts']
        want = ['snapshot line 3 [] []'] if k == 0 else []
        if [a['e'] for a in acts if a['n'] == 1] != want or len(acts) != len(want):
            check.violation('a tracepoint registered in code is not acted on as it was given', {'registered': 'host12.py:3, nothing else', 'hit': k + 1, 'acts': acts})


def run(check):
    rng = random.Random(check.seed * 3259 + 13)
    invariants = ['Converged', 'ReportedIsHeld', 'NeverStops']
    const = dict(MaxVersion=2, Handles='{"h", "g", "k"}', Places='[h |-> 1, g |-> 1, k |-> 2]', MaxTasks=check.pick(3, 4), MaxFails=0, MaxStops=check.pick(1, 2))
    check.model('ConfigSync', 'safety', invariants=invariants, properties=['OnlyItself'], constants=dict(const, Fault='"none"'))
    for fault, names in FAULTS.items():
        check.model('ConfigSync', 'faulty: ' + fault, expect=names, invariants=invariants, properties=['OnlyItself'], constants=dict(const, Fault='"%s"' % fault))
    hists = check.generate('ConfigSyncGen', 'histories', 'HIST', constraints=['Emit'], workers=4, constants=dict(
        Steps=check.pick(6, 7), Versions='{1}', Handles=check.pick('{1, 2, 3}', '{1, 2, 3, 4}'), Answers='{}', OutOfOrder='FALSE'))
    check.notes['generated_histories'] = len(hists)
    cases = []
    for n, hist in enumerate(rng.sample(hists, min(len(hists), check.pick(900, 15000)))):
        if check.late():
            break
        play(check, cases, 'gen%d' % n, hist, rng, versions(rng, 1), points(rng, 4))
    for n in range(check.pick(200, 4000)):
        if check.late():
            break
        play(check, cases, 'rnd%d' % n, random_history(rng, rng.randint(6, 20), 6), rng, versions(rng, 2), points(rng, 6), strange=True)
    interleaved(check, cases, rng)
    judge(check, cases)
    defaults(check)
    as_given(check, rng)
    started(check, rng)
    from lives import lives
    lives(check, rng, check.pick(40, 400))
    check.assumptions += ['a registration that cannot be understood does nothing; registering after a shutdown is not judged']
