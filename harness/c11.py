"""C11: a tracepoint configuration is interpreted as documented, one tracepoint at a time."""
import random
from concurrent.futures import Future

import rig as R
from deep.api.deep import Deep
from boot import Clock
from graphs import esc, host
from rig import Rig, Tp, metric

FAULTS = ['replace', 'sharedcond', 'logeats', 'abort']
SOURCE = '''def first(v):
    a = v  # A
    b = a + 1  # B
    return b
class Some:
    def meth(self, v):
        c = v  # C
        def inner(v):
            d = v  # D
            return d
        inner(v)
        return c  # E
    def first(self, v):
        return v  # F
def gen(v):
    g = v  # G
    yield g
def main(values):
    for v in values:
        first(v)
        Some().meth(v)
        Some().first(v)
        list(gen(v))
'''
LINES = {t.split('# ')[1]: n for n, t in enumerate(SOURCE.split('\n'), 1) if '# ' in t}
FUNC_OF = {'A': 'first', 'B': 'first', 'C': 'meth', 'D': 'inner', 'E': 'meth', 'F': 'first', 'G': 'gen'}
FILE = '/app/src/target11.py'
# the line of the def of the innermost function that contains the line
DEF_LINE = {'A': 1, 'B': 1, 'C': 6, 'D': 8, 'E': 6, 'F': 13, 'G': 15}
KEYS = ['stage', 'method_name', 'span', 'snapshot', 'log_msg', 'frame_type']
ALL_KINDS = ['snapshot', 'log', 'metric', 'span']
UNKNOWN_TYPE = 77


class SyncTasks:
    """Runs a task when it is submitted."""

    def submit_task(self, task, *args):
        """Run it."""
        future = Future()
        try:
            future.set_result(task(*args))
        except BaseException as e:  # noqa
            future.set_exception(e)
        return future


class Spec:
    """A tracepoint of a case."""

    def __init__(self, index, tp_id, mark, args, metrics=(), watches=(), accept=None, values=(), custom=False, broken=False, path='target11.py'):
        self.index, self.id, self.mark, self.custom, self.path = index, tp_id, mark, custom, path
        self.args = dict(args)
        self.metrics, self.watches = list(metrics), list(watches)
        self.accept = accept            # set of values of v, or None (no condition)
        self.broken = broken
        if accept is not None:
            self.args['condition'] = 'v in %r' % (tuple(sorted(accept)),)

    def proto(self):
        """The message of the service."""
        pb = Tp(self.id, self.path, LINES[self.mark], {k: str(v) for k, v in self.args.items()}, self.watches,
                [metric(**m) for m in self.metrics]).proto()
        if self.broken:
            pb.metrics.append(metric('bad', UNKNOWN_TYPE))
        return pb

    def definitions(self):
        """Metrics for the registration in code."""
        from deep.api.tracepoint.tracepoint_config import MetricDefinition
        return [MetricDefinition(m['name'], m['type_'], expression=m.get('expression')) for m in self.metrics]

    def view(self, limits):
        """The tracepoint, as the judge sees it."""
        args = {k: str(self.args.get(k, 'absent')) for k in KEYS}
        named = self.args.get('method_name')
        return {'index': self.index + 1, 'args': args, 'metrics': len(self.metrics), 'line': LINES[self.mark],
                'target': named if named is not None else FUNC_OF[self.mark],
                'first': 0 if named is not None else DEF_LINE[self.mark], 'free': self.broken, 'known': limits is not None,
                'count': limits[0] if limits else 0, 'period': limits[1] if limits else 0, 'watches': list(self.watches),
                'log': '[deep] ' + self.args['log_msg'] if 'log_msg' in self.args else '', 'names': [m['name'] for m in self.metrics],
                'snaps': [], 'logs': [], 'seen': [], 'mark': self.mark, 'rest': {k: str(v) for k, v in self.args.items() if k not in KEYS}}


def limits_of(args):
    """(count, period in ms) of the arguments, or None when they are not numbers."""
    try:
        return int(args.get('fire_count', 1)), int(args.get('fire_period', 1000))
    except ValueError:
        return None


class Bench:
    """Runs cases."""

    def __init__(self, check):
        self.check, self.cases = check, []
        self.hosts = host(SOURCE, FILE)

    def run(self, ident, specs, values, steps):
        """Install the tracepoints, run the program."""
        rig = Rig()
        custom = [s for s in specs if s.custom]
        if custom:
            deep = Deep(rig.config)
            rig.config.set_task_handler(SyncTasks())
            for s in custom:
                args, watches, definitions = dict(s.args), list(s.watches), s.definitions()
                # an argument that is empty can be left out
                given = {'args': args, 'watches': watches, 'metrics': definitions}
                given = {k: v for k, v in given.items() if v or s.index % 2}
                deep.register_tracepoint(s.path, LINES[s.mark], **given)
                # what the caller does with its values later does not matter
                args['condition'] = 'False'
                watches.append('later')
                definitions.clear()
            rig.config.tracepoints.update_new_config(1, 'h', R.convert_response([s.proto() for s in specs if not s.custom]))
        else:
            try:
                rig.install([s.proto() for s in specs])
            except Exception as e:  # noqa
                self.check.violation('a response cannot be installed', {'case': ident, 'error': repr(e), 'tps': [s.view(None) for s in specs]})
                return
        events = []
        clock = [1000]
        Clock.source = lambda: 10 ** 15 + clock[0] * 1_000_000

        def tracer(frame, event, arg):
            if frame.f_code.co_filename != FILE:
                rig.handler.trace_call(frame, event, arg)
                return tracer
            clock[0] += steps[len(events) % len(steps)]
            start = len(rig.effects.items)
            v = frame.f_locals.get('v') if event in ('line', 'call') else None
            rig.handler.trace_call(frame, event, arg)
            events.append([event, frame.f_lineno, (frame.f_code.co_name, frame.f_code.co_firstlineno), clock[0], v, rig.effects.items[start:]])
            return tracer

        try:
            box = rig.run(self.hosts['main'], values, tracer=tracer)
        finally:
            Clock.source = None
        if 'error' in box:
            self.check.violation('the agent raised into the program', {'case': ident, 'error': repr(box['error'])})
        views = [s.view(limits_of(s.args)) for s in specs]
        case = {'id': ident, 'tps': views, 'events': [], 'strange': 0}
        by_metric = {m['name']: s for s in specs for m in s.metrics}
        by_id = {s.id: s for s in specs if not s.custom}
        for event, line, name, t, v, items in events:
            acts = [{k: 0 for k in ALL_KINDS} for _ in specs]
            metrics = [{} for _ in specs]
            for item in items:
                if item['kind'] == 'close':
                    continue
                if item['kind'] == 'metric':
                    spec = by_metric.get(item['name'])
                else:
                    spec = by_id.get(item['tp'], custom[0] if custom else None)
                if spec is None:
                    if not any(s.broken for s in specs):
                        case['strange'] += 1
                    continue
                n = spec.index
                if item['kind'] == 'metric':
                    metrics[n][item['name']] = metrics[n].get(item['name'], 0) + 1
                    views[n]['seen'].append(item['name'])
                    continue
                acts[n][item['kind']] += 1
                if item['kind'] == 'log':
                    views[n]['logs'].append(esc(item['msg']))
                elif item['kind'] == 'snapshot':
                    wire = rig.wire(item['snapshot'])
                    if wire is None:        # C08 tells
                        continue
                    views[n]['snaps'].append({
                        'watches': [w.expression for w in wire.watches if w.source == 0],
                        'log': esc(wire.log_msg) if wire.HasField('log_msg') else '', 'withvars': [len(f.variables) > 0 for f in wire.frames]})
            for n, spec in enumerate(specs):
                # every definition once
                counts = [metrics[n].get(m['name'], 0) for m in spec.metrics]
                acts[n]['metric'] = 0 if not counts else max(counts) if min(counts) == max(counts) else \
                    0 if min(counts) == 0 and max(counts) <= 1 else 2
            case['events'].append({'k': event, 'l': line, 'n': name[0], 'q': name[1], 't': t, 'acts': acts,
                                   'conds': [s.accept is None or v in s.accept for s in specs]})
        lines = {v['line'] for v in views}
        # events at which nothing can or did happen say nothing
        case['events'] = [e for e in case['events'] if e['k'] == 'call' or (e['k'] == 'line' and e['l'] in lines) or any(any(a.values()) for a in e['acts'])]
        self.cases.append(case)


def random_spec(rng, n, tp_id, custom=False):
    """Random tracepoint."""
    args = {}
    if rng.random() < 0.5:
        args['stage'] = rng.choice(['line_start', 'line_end', 'line_capture', 'method_start', 'method_end', 'method_capture', 'odd', 'LINE_START', ''])
    if rng.random() < 0.3:
        args['method_name'] = rng.choice(['first', 'meth', 'inner', 'gen', 'nothing'])
    if rng.random() < 0.3:
        args['span'] = rng.choice(['line', 'method', 'line', 'method', 'odd'])
    if rng.random() < 0.5:
        args['snapshot'] = rng.choice(['collect', 'no_collect', 'no_collect', 'odd'])
    if rng.random() < 0.5:
        args['log_msg'] = 'message %d %s' % (n, tp_id)
    if rng.random() < 0.4:
        args['frame_type'] = rng.choice(['single_frame', 'all_frame', 'no_frame', 'odd'])
    if rng.random() < 0.3:
        args['stack_type'] = rng.choice(['stack', 'no_stack', 'odd'])
    if rng.random() < 0.7:
        args['fire_count'] = rng.choice(['-1', '1', '2', '5', '-1', '0'] + (['odd', ''] if rng.random() < 0.3 else []))
    if rng.random() < 0.7:
        args['fire_period'] = rng.choice(['0', '50', '1000', '200'] + (['odd'] if rng.random() < 0.3 else []))
    if custom:
        args = {k: int(v) if k.startswith('fire') and v not in ('odd', '') and rng.random() < 0.5 else v for k, v in args.items()}
    if rng.random() < 0.15:
        args[rng.choice(['unknown_key', 'window', 'line', 'Stage'])] = 'value'
    metrics = [dict(name='m.%d.%d' % (n, k), type_=rng.choice(['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY'])) for k in range(rng.choice([0, 0, 1, 2, 3]))]
    watches = [rng.choice(['v', 'v + 1', 'len("x")', 'nope', 'v * %d' % n]) for _ in range(rng.choice([0, 0, 1, 3]))]
    accept = None if rng.random() < 0.6 else set(rng.sample([0, 1, 2, 3], rng.randint(1, 3)))
    return Spec(n, tp_id, rng.choice('AABCDEFG'), args, metrics, watches, accept, custom=custom, broken=not custom and rng.random() < 0.06)


def run(check):
    rng = random.Random(check.seed * 6997 + 11)
    check.model('Interpret', '2 tracepoints', invariants=['ExactlyAsked'], constants=dict(MaxTps=2, Fault='"none"'))
    for fault in FAULTS:
        check.model('Interpret', 'faulty: ' + fault, expect='ExactlyAsked', invariants=['ExactlyAsked'], constants=dict(MaxTps=2, Fault='"%s"' % fault))
    rows = check.generate('InterpretGen', 'argument table', 'ROW', constraints=['Emit'], workers=4, constants=dict(
        FrameTypes=check.pick('{"absent", "all_frame"}', '{"absent", "single_frame", "all_frame", "no_frame", "odd"}'), Metrics='{0, 2}'))
    check.notes['rows'] = len(rows)
    bench = Bench(check)
    if not check.thorough:
        rows = rng.sample(rows, 700)
    wrong = 0
    for n, row in enumerate(rows):
        args = {k: v for k, v in row['args'].items() if v != 'absent' and k != 'metrics'}
        mark = 'ABCDEFG'[n % 7]
        if 'method_name' in args:
            args['method_name'] = FUNC_OF['ABCDEFG'[(n // 7) % 7]]
        if 'log_msg' in args:
            args['log_msg'] = 'row %d' % n
        metrics = [dict(name='m.%d' % k, type_='COUNTER') for k in range(row['args']['metrics'])]
        spec = Spec(0, 'tp', mark, dict(args, fire_count='-1', fire_period='0'), metrics, ['v'] if n % 2 else [])
        before = len(bench.cases)
        bench.run('row%d' % n, [spec], [0, 1], [1])
        # the behaviour that the model prescribes for the row
        if len(bench.cases) == before:
            continue
        case = bench.cases[-1]
        seen = {k for e in case['events'] for k, c in e['acts'][0].items() if c}
        want = set(row['kinds']) if row['understood'] else set()
        if not (want <= seen <= want | set(row['perhaps'] if row['understood'] else ())) and wrong < 5:
            wrong += 1
            check.violation('the actions are not those that the arguments ask for', {'row': row, 'seen': sorted(seen), 'case': case['tps']})
    # lists of tracepoints
    for n in range(check.pick(700, 8000)):
        count = rng.choice([1, 2, 2, 3, 4, 6])
        customs = rng.random() < 0.25
        specs = []
        for k in range(count):
            specs.append(random_spec(rng, k, 'tp-%d' % k, custom=customs and k == 0))
        if rng.random() < 0.5:
            # several on the same location
            mark = rng.choice('ABCDEFG')
            for s in specs:
                if rng.random() < 0.7:
                    s.mark = mark
        if not customs:
            # the order in the response says nothing about the tracepoints
            order = specs[:]
            rng.shuffle(order)
            for k, s in enumerate(order):
                s.index = k
            specs = order
        bench.run('list%d' % n, specs, [rng.choice([0, 1, 2, 3]) for _ in range(rng.randint(1, 4))],
                  [rng.choice([1, 1, 10, 60, 300]) for _ in range(5)])
    failing = check.judge('InterpretJudge', bench.cases)
    by_id = {c['id']: c for c in bench.cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
    check.notes['events'] = sum(len(c['events']) for c in bench.cases)
    for case in bench.cases[-2:]:
        check.sample(case)
    check.assumptions += ['a span of an unknown type may be a span or not', 'a count or period that is no number is left open',
                          'a snapshot of an end or capture stage may be sent later (C15)', 'a tracepoint with an unknown stage does nothing']
