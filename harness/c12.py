"""C12: installed tracepoints converge to the latest configuration of the service."""
import random
import threading

from configs import Agent, Held, Point, random_point, Odd, PROGRAM, FILE
from net import Net, FakeError, bounded, wait_for
from sched import Scheduler, switch_at, random_policy

FAULTS = {'oldhash': 'ReportedIsHeld', 'hashfirst': 'ReportedIsHeld', 'stops': 'NeverStops', 'captured': 'Converged', 'twosteps': 'Converged',
          'silent': 'Converged', 'replace': 'OnlyItself', 'byplace': 'OnlyItself', 'clears': ['NoChangeAltersNothing', 'Converged', 'ReportedIsHeld'],
          'latehash': 'ReportedIsHeld', 'norefresh': 'Converged', 'forgets': 'OnlyItself'}
BAD = ['error', 'garbage', 'unknown', 'odd', 'none', 'auth']


def versions(rng, count):
    """Configurations of the service: version -> [(id, point)]; ids may be shared, with other arguments."""
    shared = [random_point(rng, 'same%d' % k) for k in range(2)]
    res = {}
    for v in range(1, count + 1):
        tps = [('s%d' % k, shared[k]) for k in range(2) if rng.random() < 0.4]
        tps += [('tp%d' % k, random_point(rng, 'v%d.%d' % (v, k))) for k in range(rng.choice([0, 1, 1, 2, 3]))]
        rng.shuffle(tps)
        res[v] = tps
    return res


def finish(agent, rng):
    """Let everything settle, look; poll once more, look again."""
    order = rng.random() < 0.5
    while agent.tasks.run(order):
        pass
    agent.acts()
    agent.poll('nochange', hash_='irrelevant')
    agent.tasks.drain()
    agent.acts()


def play(check, cases, ident, hist, rng, content, customs):
    """Run a history (sequence of [what, arg]) on the real agent."""
    if check.late():
        return
    agent = Agent()
    handles = {}
    # the hash is a text that means nothing to the agent
    hashes = rng.choice([lambda arg: 'hash-%s' % arg, lambda arg: 'hash-%s' % arg, lambda arg: '' if arg == 2 else 'hash-%s' % arg,
                         lambda arg: '' if arg != 2 else 'hash-2', lambda arg: 'same', lambda arg: 'h\xe9\u20ac' * arg, lambda arg: ' ' * arg,
                         lambda arg: str(arg - 1), lambda arg: rng.choice(['', 'a', 'b'])])
    for step in hist:
        what, arg = step['what'], step['arg']
        if what == 'update':
            agent.poll('update', content[arg], hashes(arg))
        elif what == 'nochange':
            agent.poll('nochange', content[rng.choice(sorted(content))] if rng.random() < 0.3 else (), rng.choice(['', 'hash-1', 'other']))
        elif what == 'register':
            handles[arg] = agent.register(arg, customs[arg])
        elif what == 'unregister':
            agent.unregister(arg, handles[arg])
        elif what == 'run':
            agent.tasks.run(newest=arg == 1)
        else:
            agent.poll(what, content[1], 'hash-1')
        if not agent.tasks.tasks:
            agent.acts()
    finish(agent, rng)
    cases.append({'id': ident, 'events': agent.events, 'what': {'history': hist}})


def random_history(rng, length, nversions, nhandles):
    """A long random history."""
    hist, used = [], 0
    for _ in range(length):
        r = rng.random()
        if r < 0.3:
            hist.append(('update', rng.randint(1, nversions)))
        elif r < 0.4:
            hist.append(('nochange', 0))
        elif r < 0.5:
            hist.append((rng.choice(BAD), 0))
        elif r < 0.6 and used < nhandles:
            used += 1
            hist.append(('register', used))
        elif r < 0.7 and used:
            hist.append(('unregister', rng.randint(1, used)))
        else:
            hist.append(('run', rng.randint(0, 1)))
    return [{'what': w, 'arg': a} for w, a in hist]


def interleaved(check, cases, rng):
    """Pending updates run on two workers at the same time, while the poll and the code change the configuration."""
    total = 0

    def scene(ident, what, policy):
        if check.late():
            return 0
        agent = Agent()
        content = {1: [('a', Point('one', 2, 'one', collect=False))], 2: [('a', Point('two', 2, 'two', collect=False)), ('b', Point('more', 3, 'more'))],
                   3: [('c', Point('three', 3, 'three', collect=False))]}
        agent.poll('update', content[1], 'hash-1')
        kept = agent.register(1, Point('kept', 3, 'kept', collect=False))
        if 'old' in what:
            agent.tasks.drain()
        agent.poll('update', content[2], 'hash-2')
        sched = Scheduler(policy, grace=0.05)

        def worker():
            agent.tasks.run()

        def poll():
            agent.poll('update', content[3], 'hash-3')

        def register():
            agent.register(2, Point('new', 3, 'new', collect=False))

        def unregister():
            agent.unregister(1, kept)

        actions = {'w': worker, 'p': poll, 'r': register, 'u': unregister}
        names = [c for c in what.split('+')[0]]
        for i, c in enumerate(names):
            sched.add(str(i + 1), actions[c])
        if not sched.run():
            check.violation('updates that run at the same time do not come back', {'scene': what})
            return 0
        finish(agent, rng)
        # the poll and the registrations do not depend on one another, their order does not matter
        polls = [e for e in agent.events if e['k'] == 'poll']
        cases.append({'id': ident, 'events': order_events(agent.events), 'what': {'scene': what, 'polls': len(polls)}})
        return max(t.steps for t in sched.threads)

    for what in ['ww', 'wp', 'pw', 'rp', 'pr', 'ru', 'ur', 'up', 'wu', 'wr', 'rw', 'wwp', 'wp+old', 'pw+old']:
        count = len(what.split('+')[0])
        order = [str(i + 1) for i in range(count)]
        steps = scene('il-%s-base' % what, what, switch_at(order, []))
        for k in range(1, steps + 2, check.pick(2, 1)):
            k = k + (rng.randrange(2) if not check.thorough else 0)
            scene('il-%s-%d' % (what, k), what, switch_at(order, [k, 10 ** 6]))
            total += 1
    for n in range(check.pick(60, 1500)):
        what = ''.join(rng.choice('wwpru') for _ in range(rng.randint(2, 4)))
        # one poll and one of each registration at most
        what = ''.join(c for i, c in enumerate(what) if c == 'w' or c not in what[:i])
        scene('ilr-%d' % n, what, random_policy(random.Random(rng.random()), rng.choice([0.3, 0.7, 0.9])))
        total += 1
    check.notes['controlled_schedules'] = total


def order_events(events):
    """A poll is judged by the moment of its request."""
    return events


def timers(check, rng):
    """The real timer: polls go on after every kind of failure, and the agent converges."""
    import sys
    import rig as R
    from configs import describe
    from deep.api.deep import Deep
    from deep.config import ConfigService
    from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
    from graphs import host
    for n in range(check.pick(14, 150)):
        script = []
        content = versions(rng, 3)
        state = {'tps': [], 'hash': '', 'n': 0}
        for _ in range(rng.randint(2, 7)):
            script.append(rng.choice([('update', rng.randint(1, 3))] * 2 + [('nochange', 0)] + [(b, 0) for b in BAD if b != 'auth'] + [('slow', 0)]))
        if rng.random() < 0.7:
            script.insert(0, (rng.choice(BAD[:-1]), 0))
        wrong = []

        def answer(call):
            request = PollRequest.FromString(call.request)
            if request.current_hash != state['hash']:
                wrong.append((state['n'], request.current_hash, state['hash']))
            n, state['n'] = state['n'], state['n'] + 1
            kind, arg = script[n] if n < len(script) else ('nochange', 0)
            if kind == 'slow':
                threading.Event().wait(0.05)
                kind = 'nochange'
            if kind == 'error':
                raise FakeError()
            if kind == 'odd':
                raise Odd('odd')
            if kind == 'garbage':
                return b'\xff\xff\xff garbage'
            if kind == 'none':
                return None
            if kind == 'unknown':
                return PollResponse(response_type=9, current_hash='x').SerializeToString()
            if kind == 'update':
                state['tps'], state['hash'] = content[arg], 'hash-%d' % arg
                return PollResponse(ts_nanos=5, current_hash=state['hash'], response_type=ResponseType.UPDATE,
                                    response=[p.proto(i) for i, p in content[arg]]).SerializeToString()
            return PollResponse(ts_nanos=5, current_hash=state['hash'], response_type=ResponseType.NO_CHANGE).SerializeToString()

        poll_timer = rng.choice([0.01, '0.01'])
        with Net(answer) as net:
            config = ConfigService({'POLL_TIMER': poll_timer, 'NO_TRACE': True, 'PLUGINS': []})
            deep = Deep(config)
            registered = []
            try:
                how, error = bounded(deep.start)
                if how != 'done':
                    check.violation('the agent does not start', {'script': script, 'how': how, 'error': repr(error), 'POLL_TIMER': poll_timer})
                    return
                for k in range(rng.choice([0, 1, 2])):
                    point = random_point(rng, 'code%d' % k)
                    registered.append((point, deep.register_tracepoint('host12.py', point.line, dict(point.args), point.watches, point.definitions())))
                if not wait_for(lambda: state['n'] >= len(script) + 3, 20):
                    check.violation('polling does not continue', {'script': script, 'polls': state['n']})
                if registered and rng.random() < 0.5:
                    registered.pop()[1].unregister()
                effects = R.Effects()
                config.plugins = [R.plugin(R.RecordingLogger, effects), R.plugin(R.RecordingMetrics, effects)]
                deep.trigger_handler._push_service = R.RecordingPush(effects)
                ns = host(PROGRAM, FILE)
                want = {}
                for point in [p for _, p in state['tps']] + [p for p, _ in registered]:
                    for text in point.effects():
                        want[text] = want.get(text, 0) + 1

                def acts():
                    seen = {}

                    def tracer(frame, event, arg):
                        if frame.f_code.co_filename == FILE:
                            before = len(effects.items)
                            place = 'line %d' % frame.f_lineno if event == 'line' else '%s %s' % (event, frame.f_code.co_name)
                            deep.trigger_handler.trace_call(frame, event, arg)
                            for item in effects.items[before:]:
                                text = describe(item)
                                if text:
                                    text = text.replace(' ', ' ' + place + ' ', 1)
                                    seen[text] = seen.get(text, 0) + 1
                        return tracer
                    sys.settrace(tracer)
                    try:
                        ns['main'](1)
                    finally:
                        sys.settrace(None)
                    return seen

                if not wait_for(lambda: acts() == want, 10):
                    check.violation('the agent does not act on the latest configuration', {'script': script, 'acts': acts(), 'want': want})
            finally:
                bounded(deep.shutdown, limit=10)
        if wrong:
            check.violation('a poll reports a hash that is not that of the configuration', {'script': script, 'poll, hash, should be': wrong[:4]})
        check.traces += 1


def run(check):
    rng = random.Random(check.seed * 4243 + 12)
    design(check)
    hists = check.generate('ConfigSyncGen', 'histories', 'HIST', constraints=['Emit'], workers=4, constants=dict(
        Steps=check.pick(5, 6), Versions='{1, 2}', Handles='{1}', Answers='{"nochange", "error"}', OutOfOrder='TRUE'))
    check.notes['generated_histories'] = len(hists)
    cases = []
    for n, hist in enumerate(rng.sample(hists, min(len(hists), check.pick(1200, 20000)))):
        play(check, cases, 'gen%d' % n, [dict(s, what=rng.choice(BAD)) if s['what'] == 'error' else s for s in hist], rng, versions(rng, 2),
             {1: random_point(rng, 'code')})
    for n in range(check.pick(200, 4000)):
        nv, nh = rng.randint(2, 4), rng.randint(0, 3)
        play(check, cases, 'rnd%d' % n, random_history(rng, rng.randint(6, 25), nv, nh), rng, versions(rng, nv),
             {h: random_point(rng, 'code%d' % h) for h in range(1, nh + 1)})
    interleaved(check, cases, rng)
    judge(check, cases)
    timers(check, rng)
    from lives import lives
    lives(check, rng, check.pick(60, 400))
    check.assumptions += ['a poll may report the hash of the last response that was received, also while it is being installed',
                          'only one poll is under way at a time']


def design(check):
    """The design and its faulty variants."""
    invariants = ['Converged', 'ReportedIsHeld', 'NeverStops']
    properties = ['OnlyItself', 'FailAltersNothing', 'NoChangeAltersNothing']
    const = dict(MaxVersion=check.pick(3, 4), Handles='{"h", "g"}', Places='[h |-> 1, g |-> 1]', MaxTasks=check.pick(3, 4), MaxFails=1, MaxStops=1)
    check.model('ConfigSync', 'safety', invariants=invariants, properties=properties, constants=dict(const, Fault='"none"'))
    check.model('ConfigSync', 'liveness', spec='Fair', properties=['Eventually'],
                constants=dict(const, MaxVersion=2, MaxTasks=2, Handles='{"h"}', Places='[h |-> 1]', Fault='"none"'))
    for fault, names in FAULTS.items():
        check.model('ConfigSync', 'faulty: ' + fault, expect=names, invariants=invariants, properties=properties, constants=dict(const, Fault='"%s"' % fault))


def judge(check, cases):
    """TLC judges what was recorded."""
    failing = check.judge('ConfigSyncJudge', cases)
    by_id = {c['id']: c for c in cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
    check.sample(cases[0])
    check.notes['events'] = sum(len(c['events']) for c in cases)
