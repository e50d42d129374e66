"""C04: fire_count, fire_period and time window are never exceeded, and due hits do collect."""
import random
import threading
from concurrent.futures import Future

import rig as R
from deep.api.resource import Resource
from deep.config import ConfigService
from deep.config.tracepoint_config import TracepointConfigService
from deep.grpc import convert_response
from deep.processor.trigger_handler import TriggerHandler
from rig import Rig, Tp, Clock
from sched import Scheduler, switch_at, random_policy
from vlib import digest

US = 1000                      # one model time unit is a microsecond
BASE = 1_700_000_000_000_000_000
HOST = '''
def hit(cond):
    here = cond
    return here
'''
LINE = 3
KINDS = ('snapshot', 'log', 'metric', 'span', 'snaplog')


def make_tp(kind, tp_id, args, path='host04.py', line=LINE):
    args = dict(args)
    metrics = []
    if kind in ('log', 'metric', 'span'):
        args['snapshot'] = 'no_collect'
    if kind in ('log', 'snaplog'):
        args['log_msg'] = 'm {cond}'
    if kind == 'metric':
        metrics = [dict(name=tp_id + '.m')]
    if kind == 'span':
        args['span'] = 'line'
    return Tp(tp_id, path, line, args, metrics=metrics)


EFFECT = {'snapshot': 'snapshot', 'log': 'log', 'metric': 'metric', 'span': 'span', 'snaplog': 'snapshot'}


class Bench:
    """Real code driven hit by hit on a virtual clock."""

    def __init__(self):
        self.rig = Rig()
        self.ns = R.compile_module(HOST, '/x/host04.py')
        self.now = 0
        self.box = None
        self.want = threading.Semaphore(0)
        self.have = threading.Semaphore(0)

    def hit(self, cond=True):
        """Execute the line once; returns number of effects by (tp, kind)."""
        start = len(self.rig.effects.items)
        import sys
        sys.settrace(self.rig.handler.trace_call)
        try:
            self.ns['hit'](cond)
        finally:
            sys.settrace(None)
        return self.rig.effects.items[start:]


def times(items, tp, kind):
    return sum(1 for i in items if i['tp'] == tp and i['kind'] == EFFECT[kind])


def sequential(check, cases, tps, cfs, hits, ident):
    """Install tracepoints, run the hits (gap, cond, [update]); add one case per tracepoint."""
    bench = Bench()
    now = [0]
    Clock.source = lambda: BASE + now[0] * US
    try:
        bench.rig.install(tps)
        traces = {tp.id: [] for tp in tps}
        for gap, cond in hits:
            now[0] += gap
            items = bench.hit(cond)
            for tp, (kind, cf, has_cond) in zip(tps, cfs):
                traces[tp.id].append({'e': 'start', 't': 1, 'ts': now[0], 'cond': bool(cond) if has_cond else True})
                traces[tp.id].append({'e': 'end', 't': 1, 'fired': times(items, tp.id, kind)})
    finally:
        Clock.source = None
    for tp, (kind, cf, _) in zip(tps, cfs):
        cases.append({'id': '%s/%s' % (ident, tp.id), 'cf': cf, 'trace': traces[tp.id],
                      'what': {'kind': kind, 'args': dict(tp.args)}})


def config(count, period, ws, we):
    return {'count': count, 'period': period, 'ws': ws, 'we': we}


# every spelling of the limits with the meaning it has to have (None: argument not given)
COUNT_TEXT = [(None, 1), ('1', 1), ('2', 2), ('3', 3), ('-1', -1), ('0', 0), ('abc', 1), ('', 1), ('1.5', 1),
              ('two', 1), ('nan', 1), ('inf', 1), ('1e3', 1), ('10', 10)]
PERIOD_TEXT = [(None, 1000), ('1000', 1000), ('0', 0), ('1', 1), ('2', 2), ('5', 5), ('abc', 1000), ('', 1000),
               ('1.5', 1000), ('1s', 1000), ('nan', 1000), ('30', 30)]


def base_ms():
    return BASE // 1_000_000


def limits(rng):
    """Random arguments with their meaning."""
    ctext, count = rng.choice(COUNT_TEXT)
    ptext, period = rng.choice(PERIOD_TEXT)
    args = {}
    if ctext is not None:
        args['fire_count'] = ctext
    if ptext is not None:
        args['fire_period'] = ptext
    ws = we = 0
    mode = rng.random()
    span = max(period * 1000, 2000)
    if mode < 0.15:
        ws = rng.randrange(1, 8) * span // 1000
    elif mode < 0.3:
        we = rng.randrange(1, 12) * span // 1000
    elif mode < 0.5:
        ws = rng.randrange(1, 6) * span // 1000
        we = ws + rng.randrange(1, 8) * span // 1000
    if ws:
        args['window_start'] = str(base_ms() + ws)
    if we:
        args['window_end'] = str(base_ms() + we)
    if mode > 0.95:
        args['window_start'] = 'soon'
        args['window_end'] = ''
    return args, config(count, period * 1000, ws * 1000, we * 1000)


def gaps(rng, cf, n):
    """Hit gaps around the boundaries of the period and the window."""
    res, now = [], 0
    p = cf['period']
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            g = rng.choice([p, p - 1, p + 1, p // 2, p + p // 3, 2 * p, 2 * p - 1])
        elif r < 0.7 and (cf['ws'] or cf['we']):
            edge = rng.choice([x for x in (cf['ws'], cf['we']) if x])
            g = edge + rng.choice([-1, 0, 1, -p, p]) - now
        else:
            g = rng.choice([0, 1, 500, 999, 1000, 1001, p])
        g = max(0, min(g, 1_500_000))
        now += g
        res.append(g)
    return res


def run(check):
    rng = random.Random(check.seed * 7919 + 4)

    # 1. the design, exhaustively; and its faulty variants
    invariants = ['CountNeverExceeded', 'NeverTooClose', 'NeverOutsideWindow', 'DueHitsCollect', 'OnlyPermitted']
    grid = [(1, 2, 0, 0), (-1, 2, 0, 0), (2, 0, 0, 0), (2, 2, 2, 4), (-1, 1, 0, 3), (0, 1, 0, 0), (2, 1, 3, 0)]
    big = check.pick(dict(MaxTime=5, MaxHits=4, MaxInstalls=2), dict(MaxTime=6, MaxHits=4, MaxInstalls=3))
    for n, p, ws, we in grid:
        const = dict(Thread='{"t1", "t2"}' if not check.thorough else '{"t1", "t2", "t3"}', Count=n, Period=p, WinStart=ws,
                     WinEnd=we, Fault='"none"', **big)
        check.model('Limiter', 'count=%d period=%d window=%d..%d' % (n, p, ws, we), constants=const,
                    invariants=invariants, properties=['RejectedCostsNothing'])
    for fault, refuted, (n, p, ws, we) in [
            ('race', ['CountNeverExceeded', 'NeverTooClose'], (1, 2, 0, 0)), ('boundary', 'DueHitsCollect', (-1, 2, 0, 0)),
            ('nowindow', ['NeverOutsideWindow', 'OnlyPermitted'], (2, 0, 2, 4)), ('condspends', 'RejectedCostsNothing', (2, 0, 0, 0)),
            ('resets', ['CountNeverExceeded', 'NeverTooClose', 'OnlyPermitted'], (1, 2, 0, 0)),
            ('copies', ['CountNeverExceeded', 'NeverTooClose', 'OnlyPermitted'], (1, 2, 0, 0))]:
        check.model('Limiter', 'faulty: ' + fault, expect=refuted,
                    constants=dict(Thread='{"t1", "t2"}', Count=n, Period=p, WinStart=ws, WinEnd=we, Fault='"%s"' % fault,
                                   MaxTime=5, MaxHits=3, MaxInstalls=2),
                    invariants=invariants if fault != 'condspends' else [], properties=['RejectedCostsNothing'])

    cases = []
    # 2. model -> code: every history TLC enumerates, replayed; the outcome has to be the model's
    hists = check.generate('LimiterGen', 'histories', 'HIST', constraints=['Emit'], constants=dict(
        Hits=check.pick(3, 4), Gaps='{0, 1000, 1999, 2000, 2001}', Counts='{-1, 0, 1, 2}', Periods='{0, 2000}',
        Windows='{<<0, 0>>}', Conds='{TRUE, FALSE}'))
    hists += check.generate('LimiterGen', 'histories in windows', 'HIST', constraints=['Emit'], constants=dict(
        Hits=check.pick(3, 4), Gaps='{0, 500, 1000, 2999}', Counts='{-1, 1}', Periods='{1000}',
        Windows='{<<2000, 0>>, <<0, 3000>>, <<2000, 4000>>}', Conds='{TRUE}'))
    bench = Bench()
    now = [0]
    Clock.source = lambda: BASE + now[0] * US
    wrong = 0
    for n, hist in enumerate(hists):
        cf = hist['cf']
        kind = KINDS[n % len(KINDS)]
        args = {'fire_count': str(cf['count']), 'fire_period': str(cf['period'] // 1000), 'condition': 'cond'}
        if cf['ws']:
            args['window_start'] = str(base_ms() + cf['ws'] // 1000)
        if cf['we']:
            args['window_end'] = str(base_ms() + cf['we'] // 1000)
        tp = make_tp(kind, 'g%d' % n, args)
        bench.rig.install([tp])
        now[0] = 1
        got = []
        for h in hist['hist']:
            now[0] += h['gap']
            got.append(times(bench.hit(h['cond']), tp.id, kind))
        bench.rig.effects.items.clear()
        want = [1 if h['fire'] else 0 for h in hist['hist']]
        if got != want:
            wrong += 1
            if wrong <= 5:
                check.violation('a history generated from the model has another outcome in the code', {
                    'kind': kind, 'args': args, 'history': hist, 'collected': got, 'model': want})
    Clock.source = None
    check.traces += len(hists)
    check.sample({'generated history': hists[len(hists) // 2]})

    # 3. code -> model: random histories, random limits, several tracepoints on the line
    for n in range(check.pick(150, 1500)):
        tps, cfs = [], []
        for k in range(rng.randint(1, 4)):
            args, cf = limits(rng)
            has_cond = rng.random() < 0.3
            if has_cond:
                args['condition'] = 'cond'
            kind = rng.choice(KINDS)
            tps.append(make_tp(kind, 'r%d' % k, args))
            cfs.append((kind, cf, has_cond))
        g = gaps(rng, cfs[0][1], rng.randint(2, 14))
        hits = [(gap, rng.random() < 0.8) for gap in g]
        sequential(check, cases, tps, cfs, hits, 'seq%d' % n)

    # every spelling of each limit on its own, hit densely
    for n, (ctext, count) in enumerate(COUNT_TEXT):
        for kind in KINDS:
            args = {'fire_period': '0'}
            if ctext is not None:
                args['fire_count'] = ctext
            sequential(check, cases, [make_tp(kind, 'c', args)], [(kind, config(count, 0, 0, 0), False)],
                       [(10, True)] * 13, 'count%d%s' % (n, kind))
    for n, (ptext, period) in enumerate(PERIOD_TEXT):
        for kind in KINDS:
            args = {'fire_count': '-1'}
            if ptext is not None:
                args['fire_period'] = ptext
            p = period * 1000
            hits = [(g, True) for g in (5, 0, 1, p, max(p - 1, 0), 1, p, p + 1, 2 * p)]
            sequential(check, cases, [make_tp(kind, 'p', args)], [(kind, config(-1, p, 0, 0), False)], hits,
                       'period%d%s' % (n, kind))

    staying(check, cases, rng)
    concurrent(check, cases, rng)
    method_and_deferred(check, cases, rng)

    rejected = check.validate('LimiterTrace', cases)
    for case in cases:
        if case['id'] in rejected:
            at = rejected[case['id']]
            check.violation('the limits do not explain this history', {
                'case': case, 'explained events': at, 'next event': case['trace'][min(at, len(case['trace']) - 1)]})
    check.sample(cases[0])
    check.sample(cases[-1])
    check.assumptions += [
        'a hit takes its time once, when the event is processed (time.time_ns, replaced by a virtual clock)',
        'what happens exactly on an end of the window, and for a hit older than the last collection, is left open']


def staying(check, cases, rng):
    """The limits of a tracepoint hold while it stays installed, also when the configuration around it changes."""
    import sys

    for n in range(check.pick(30, 300)):
        rig = Replaced()
        service, effects, handler = rig.service, rig.effects, rig.handler
        ns = R.compile_module(HOST, '/x/host04.py')
        args, cf = limits(rng)
        kind = rng.choice(KINDS)
        tp = make_tp(kind, 'stay', args)
        custom = rng.random() < 0.4
        now = [0]
        Clock.source = lambda: BASE + now[0] * US
        trace = []
        try:
            tp_id = 'stay'
            if custom:
                metrics = convert_response([tp.proto()])[0].actions[-1].config.get('metrics', [])
                tp_id = service.add_custom(tp.path, tp.line, dict(tp.args), [], list(metrics))
            for gap in gaps(rng, cf, rng.randint(3, 10)):
                r = rng.random()
                if r < 0.7:
                    other = [make_tp('log', 'o%d' % rng.randint(0, 3), {}, line=rng.choice([LINE, 4]))
                             for _ in range(rng.randint(0, 2))]
                    new = other + ([tp] if not custom else [])
                    rng.shuffle(new)
                    service.update_new_config(n, 'h%d' % len(trace), convert_response([x.proto() for x in new]))
                elif not trace and not custom:
                    service.update_new_config(n, 'h', convert_response([tp.proto()]))
                now[0] += gap
                start = len(effects.items)
                sys.settrace(handler.trace_call)
                try:
                    ns['hit'](True)
                finally:
                    sys.settrace(None)
                fired = sum(1 for i in effects.items[start:] if i['kind'] == EFFECT[kind] and i['tp'] in ('stay', tp_id))
                trace.append({'e': 'start', 't': 1, 'ts': now[0], 'cond': True})
                trace.append({'e': 'end', 't': 1, 'fired': fired})
        finally:
            Clock.source = None
        cases.append({'id': 'stay%d' % n, 'cf': cf, 'trace': trace, 'what': {'kind': kind, 'args': args,
                                                                         'custom': custom}})


class Inline:
    """Installs a configuration on the thread that brings it."""

    def submit_task(self, task, *args):
        """Run it."""
        future = Future()
        try:
            future.set_result(task(*args))
        except BaseException as e:  # noqa
            future.set_exception(e)
        return future


class Replaced:
    """A handler whose configuration comes from the configuration service."""

    def __init__(self):
        self.service = TracepointConfigService()
        self.service.set_task_handler(Inline())
        self.effects = R.Effects()
        cfg = ConfigService({}, tracepoints=self.service)
        cfg.plugins = [R.plugin(R.RecordingLogger, self.effects), R.plugin(R.RecordingMetrics, self.effects), R.plugin(R.RecordingSpans, self.effects)]
        cfg.resource = Resource.create()
        self.handler = TriggerHandler(cfg, R.RecordingPush(self.effects))
        self.version = 0

    def update(self, tps):
        """An answer of the service."""
        self.version += 1
        self.service.update_new_config(self.version, 'h%d' % self.version, convert_response([x.proto() for x in tps]))


def replaced_rig(tp):
    """A handler with the tracepoint, and how to install the tracepoint again."""
    rig = Replaced()
    rig.update([tp])
    return rig, lambda: rig.update([make_tp('log', 'o%d' % rig.version, {}, line=4), tp])


def frames_at_line(ns, count):
    """Real frames that are paused at the traced line."""
    import sys
    out = []

    def grab(frame, event, arg):
        if event == 'line' and frame.f_lineno == LINE and frame.f_code.co_filename == '/x/host04.py':
            out.append(frame)
        return grab

    for _ in range(count):
        sys.settrace(grab)
        try:
            ns['hit'](True)
        finally:
            sys.settrace(None)
    return out


GENHOST = '''
def hit(cond):
    yield cond
    yield cond
'''


def paused(count):
    """Real frames paused (as generators) at line 3."""
    ns = R.compile_module(GENHOST, '/x/host04.py')
    res = []
    for _ in range(count):
        gen = ns['hit'](True)
        next(gen)
        res.append(gen)
    return res


def schedule(check, cases, ident, args, cf, kind, policy, threads, now, clock_step, installs=0):
    """Threads hit it at the same time; installs: while another thread installs that many configurations that have it."""
    tp = make_tp(kind, 'k', args)
    if installs:
        rig, replace = replaced_rig(tp)
    else:
        rig = Rig()
        rig.install([tp])
    gens = paused(threads)
    trace = []
    guard = threading.Lock()
    tick = [now]
    starts = {}

    def clock():
        name = threading.current_thread().name
        with guard:
            value = tick[0]
            tick[0] += clock_step
            if name in starts and starts[name] is None:
                starts[name] = value
        return BASE + value * US

    def body(name, gen):
        def go():
            with guard:
                starts[name] = None
                pos = len(trace)
                trace.append({'e': 'start', 't': int(name), 'ts': None, 'cond': True})
            before = len([i for i in rig.effects.items if i['thread'] == threading.get_ident()])
            rig.handler.trace_call(gen.gi_frame, 'line', None)
            mine = [i for i in rig.effects.items if i['thread'] == threading.get_ident()][before:]
            with guard:
                trace[pos]['ts'] = starts[name]
                trace.append({'e': 'end', 't': int(name), 'fired': times(mine, 'k', kind)})
        return go

    sched = Scheduler(policy)
    for i, gen in enumerate(gens):
        sched.add(str(i + 1), body(str(i + 1), gen))
    if installs:
        sched.add(str(len(gens) + 1), lambda: [replace() for _ in range(installs)])
    Clock.source = clock
    try:
        complete = sched.run()
    finally:
        Clock.source = None
    if not complete:
        check.violation('threads hitting one tracepoint do not complete', {'args': args, 'trace': trace})
        return 0
    for event in trace:
        if event['e'] == 'start' and event['ts'] is None:
            event['ts'] = now    # the agent never took a time for this hit
    cases.append({'id': ident, 'cf': cf, 'trace': trace, 'what': {'kind': kind, 'args': args, 'threads': threads}})
    return max(t.steps for t in sched.threads)


def concurrent(check, cases, rng):
    """Threads reach the tracepoint at the same time; every single preemption point, then random schedules."""
    total = 0
    for kind, args, cf, step in [
            ('log', {'fire_count': '1'}, config(1, 1_000_000, 0, 0), 0),
            ('snapshot', {'fire_count': '-1', 'fire_period': '5'}, config(-1, 5000, 0, 0), 1),
            ('metric', {'fire_count': '1', 'fire_period': '0'}, config(1, 0, 0, 0), 1)]:
        steps = schedule(check, cases, 'conc-%s-base' % kind, args, cf, kind, switch_at(['1', '2'], []), 2, 10, step)
        points = range(1, steps + 1, max(1, steps // check.pick(70, 100000)))
        offset = rng.randrange(3)
        for k in points:
            schedule(check, cases, 'conc-%s-%d' % (kind, k), args, cf, kind,
                     switch_at(['1', '2'], [k + offset, 10 ** 6]), 2, 10, step)
            total += 1
    for n in range(check.pick(60, 1000)):
        kind = rng.choice(KINDS)
        count = rng.choice([1, 1, 2, -1])
        period = rng.choice([0, 0, 5, 1000])
        args = {'fire_count': str(count), 'fire_period': str(period)}
        schedule(check, cases, 'concr-%d' % n, args, config(count, period * 1000, 0, 0), kind,
                 random_policy(random.Random(rng.random()), rng.choice([0.5, 0.9, 0.97])), rng.choice([2, 3, 4]), 10,
                 rng.choice([0, 1, 2600]))
        total += 1
    # a new configuration is installed in between: one hit begins, then it is installed, then it is hit again
    for kind, args, cf in [('log', {'fire_count': '1'}, config(1, 1_000_000, 0, 0)), ('metric', {'fire_count': '1', 'fire_period': '0'}, config(1, 0, 0, 0))]:
        steps = schedule(check, cases, 'mid-%s-base' % kind, args, cf, kind, switch_at(['1', '2'], []), 2, 10, 1)
        for k in range(1 + rng.randrange(2), steps + 1, check.pick(2, 1)):
            schedule(check, cases, 'mid-%s-%d' % (kind, k), args, cf, kind, switch_at(['1', '3', '2'], [k, 10 ** 6, 10 ** 6]), 2, 10, 1, installs=1)
            total += 1
    for n in range(check.pick(80, 1500)):
        kind = rng.choice(KINDS)
        count = rng.choice([1, 1, 2, -1])
        period = rng.choice([0, 0, 5, 1000])
        args = {'fire_count': str(count), 'fire_period': str(period)}
        threads = rng.choice([1, 2, 2, 3])
        if n % 2:
            policy = random_policy(random.Random(rng.random()), rng.choice([0.5, 0.9, 0.97]))
        else:
            # one begins, the other installs, the next one hits what is new
            order = [str(threads + 1)] + [str(t + 1) for t in range(threads)]
            rng.shuffle(order)
            policy = switch_at(order, [rng.randint(1, 60), rng.choice([10 ** 6, rng.randint(1, 60)]), 10 ** 6])
        schedule(check, cases, 'concrep-%d' % n, args, config(count, period * 1000, 0, 0), kind, policy, threads, 10, rng.choice([0, 1, 2600]),
                 installs=rng.choice([1, 1, 2]))
        total += 1
    check.notes['controlled_schedules'] = total


def method_and_deferred(check, cases, rng):
    """Limits of method tracepoints and of deferred (capture) snapshots: the collection belongs to the entry."""
    import sys
    source = 'def fn(depth):\n    if depth:\n        fn(depth - 1)\n    return depth\n'
    for n in range(check.pick(24, 200)):
        rig = Rig()
        args, cf = limits(rng)
        stage = rng.choice([None, 'method_start', 'method_capture', 'line_capture', 'line_start', 'method_end'])
        kind = rng.choice(['snapshot', 'span'])
        args = dict(args)
        if stage is None or stage.startswith('method'):
            args['method_name'] = 'fn'
        if stage:
            args['stage'] = stage
        line = 2
        rig.install([make_tp(kind, 'd', args, path='m04.py', line=line)])
        ns = R.compile_module(source, '/x/m04.py')
        now = [0]
        Clock.source = lambda: BASE + now[0] * US
        trace = []
        try:
            for gap in gaps(rng, cf, rng.randint(2, 8)):
                now[0] += gap
                depth = rng.randint(0, 2)
                start = len(rig.effects.items)
                sys.settrace(rig.handler.trace_call)
                try:
                    ns['fn'](depth)
                finally:
                    sys.settrace(None)
                fired = times(rig.effects.items[start:], 'd', kind)
                # all entries of one recursive call have the same (virtual) time
                for k in range(depth + 1):
                    trace.append({'e': 'start', 't': k, 'ts': now[0], 'cond': True})
                for k in range(depth + 1):
                    trace.append({'e': 'end', 't': k, 'fired': 1 if k < fired else 0})
                if fired > depth + 1:
                    trace.append({'e': 'end', 't': 99, 'fired': fired})
        finally:
            Clock.source = None
        cases.append({'id': 'meth%d' % n, 'cf': cf, 'trace': trace, 'what': {'kind': kind, 'args': args,
                                                                         'digest': digest(args)}})
