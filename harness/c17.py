"""C17: metric tracepoints report each defined metric with the right type, labels and value."""
import decimal
import fractions
import random

import rig as R
from c10 import PLACES, boom, stop
from graphs import esc, host
from rig import Rig, Tp, metric, plugin, RecordingMetrics

INV = ['Matching', 'OnceEach', 'BudgetIsReports']
PROPS = ['Complete', 'DueIsReported']
FAULTS = [('idlespends', ['BudgetIsReports', 'DueIsReported']), ('firstonly', ['Complete']), ('stops', ['Complete', 'BudgetIsReports']),
          ('allcounters', ['Matching']), ('nodefault', ['Matching']), ('always1', ['Matching'])]
TYPES = ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']


class Floaty:
    """Converts to a number."""

    def __float__(self):
        return 2.5


class Broken:
    """Does not convert."""

    def __float__(self):
        raise ValueError('broken')

    def __str__(self):
        raise ValueError('broken')


NUMBER = ['NUM', '7', 'COND', '-3', '2.5', 'NUM * 2', 'len(ITEMS)', 'sum(ITEMS)', 'THING.size', "TABLE['n']", 'ITEMS[1]', 'FUNC(3)', 'True', '1e300', '0',
          'FRACTION', 'DECIMAL', '2 ** 60', 'float("inf")', '-0.5', 'abs(-NUM)', '(lambda: NUM)()', 'sum(n for n in ITEMS if n > LIMIT)', '0.0',
          'NUM if COND else LIMIT', 'max(ITEMS)', 'int("12")', 'FLOATY']
TEXT = ['GLOB', 'ONLY', 'ITEMS', 'None', 'THING', '"text"', '[]', 'FUNC', '1j', '{}', 'BROKEN', '10 ** 400', '""', 'BOTH', 'object()']
FAIL = ['nope', '1 / 0', 'ITEMS[99]', 'BOOM()', 'STOP()', '(', 'NUM +', 'self_', 'deep', 'THING.nope', 'metric']
LABEL = ['ONLY', 'BOTH', 'GLOB', 'NUM', 'ITEMS', 'COND', 'THING.size', 'FUNC(2)', 'str(NUM)', '""', 'None', 'ONLY + GLOB', 'len(ITEMS)', "TABLE['n']", '1.50', '"a" * 300',
         '[ONLY for n in ITEMS]']
STATIC = ['static', '', 5, 0, -1, True, False, 1.5, 'NUM', '{x}', 'caf\u00e9', 'a' * 200]


class Thing:
    """Value of the program."""

    size = 11


NAMES = {'GLOB': 'module glob', 'BOTH': 'module both', 'NUM': 12, 'LIMIT': 1, 'ITEMS': [3, 1, 2], 'TABLE': {'n': 4}, 'THING': Thing(), 'FUNC': lambda x: x * 10,
         'FRACTION': fractions.Fraction(1, 4), 'DECIMAL': decimal.Decimal('3.25'), 'FLOATY': Floaty(), 'BROKEN': Broken(), 'BOOM': boom, 'STOP': stop}


def number_texts(value):
    """The numbers that a value stands for."""
    if isinstance(value, (int, float)) or isinstance(value, (decimal.Decimal, fractions.Fraction)):
        try:
            return [repr(float(value))]
        except OverflowError:
            return ['1.0', str(value)]
    try:
        # it converts to a number, but is none
        return [repr(float(value)), '1.0']
    except BaseException:  # noqa
        return ['1.0']


def read_number(value):
    """Text of a number."""
    try:
        return repr(float(value))
    except BaseException:  # noqa
        return esc(str(value))[:50]


class Program:
    """A host program with the expressions compiled into it."""

    def __init__(self, place, exprs):
        probes = []
        indent = PLACES[place].split('{probes}')[0].rsplit('\n', 1)[1]
        for k, text in enumerate(exprs):
            try:
                compile(text.strip(), '<string>', 'eval')
            except SyntaxError:
                continue
            probes += ['try: P(%d, (%s))' % (k, text), 'except BaseException as _E: pass']
        source = PLACES[place].replace('{probes}', ('\n' + indent).join(['START()'] + probes))
        self.line = 1 + [n for n, t in enumerate(source.split('\n')) if '#T' in t][0]
        self.now = {}
        self.filename = '/app/metric17.py'
        self.ns = host(source, self.filename, dict(NAMES, P=self.probe, START=lambda: self.now.clear()))

    def probe(self, k, value):
        """Called by the program."""
        try:
            text = [esc(str(value))]
        except BaseException:  # noqa
            text = None
        self.now[k] = (number_texts(value), text)


def run_case(check, cases, ident, place, tps, hits, procs):
    """tps: list of (metric definitions, count); procs: per hit, the number of active processors."""
    exprs = []
    for defs, _ in tps:
        for d in defs:
            if d.get('expression'):
                exprs.append(d['expression'])
            exprs += [v for _, kind, v in d['labels'] if kind == 'expression']
    program = Program(place, exprs)
    rig = Rig()
    pool = [plugin(RecordingMetrics, rig.effects, 'M%d' % k) for k in range(max(list(procs) + [1]))]
    others = [p for p in rig.config.plugins if not isinstance(p, RecordingMetrics)]
    entries = []
    for n, (defs, count) in enumerate(tps):
        args = {'fire_count': str(count), 'fire_period': '0', 'snapshot': 'no_collect' if n % 2 == 0 else 'collect'}
        entries.append(Tp('tp-%d' % n, 'metric17.py', program.line, args, metrics=[metric(**d) for d in defs]))
    rig.install(entries)
    records = []

    def tracer(frame, event, arg):
        if frame.f_code.co_filename == program.filename and event == 'line' and frame.f_lineno == program.line:
            count = procs[len(records) % len(procs)]
            rig.config.plugins = others[:1] + pool[:count] + others[1:]
            start = len(rig.effects.items)
            rig.handler.trace_call(frame, event, arg)
            records.append((dict(program.now), rig.effects.items[start:], count))
        else:
            rig.handler.trace_call(frame, event, arg)
        return tracer

    box = rig.run(program.ns['main'], hits, tracer=tracer)
    if 'error' in box:
        check.violation('the agent raised into the program', {'case': ident, 'error': repr(box['error'])})
    k0 = 0
    for n, (defs, count) in enumerate(tps):
        case = {'id': '%s.%d' % (ident, n), 'count': count, 'hits': [], 'place': place, 'totals': []}
        names = {d['name'] for d in defs}
        k = k0
        for now, items, active in records:
            k = k0
            h = {'procs': ['M%d' % m for m in range(active)], 'defs': [], 'reports': []}
            for d in defs:
                want = {'name': esc(d['name']), 'type': d['type_'], 'ns': esc(d.get('namespace') or ''), 'help': esc(d.get('help_') or ''),
                        'unit': esc(d.get('unit') or ''), 'labels': [], 'values': ['1.0'], 'expr': d.get('expression') or ''}
                if d.get('expression'):
                    want['values'] = now[k][0] if k in now else ['1.0']
                    k += 1
                for key, kind, value in d['labels']:
                    label = {'key': esc(key), 'any': False, 'alts': [esc(str(value))]}
                    if kind == 'expression':
                        texts = now[k][1] if k in now else None
                        label['any'], label['alts'] = texts is None, texts or []
                        k += 1
                    want['labels'].append(label)
                h['defs'].append(want)
            for item in items:
                # a report that belongs to no tracepoint belongs to the first one
                if item['kind'] == 'metric' and (item['name'] in names or (n == 0 and not any(
                        item['name'] in [d['name'] for d in ds] for ds, _ in tps))):
                    h['reports'].append({'proc': item['proc'], 'op': item['op'], 'name': esc(str(item['name'])), 'ns': esc(str(item['namespace'])),
                                         'help': esc(item['help'] or ''), 'unit': esc(item['unit'] or ''), 'value': read_number(item['value']),
                                         'labels': [{'key': esc(str(a)), 'value': esc(str(b))} for a, b in item['labels'].items()]})
            case['hits'].append(h)
        k0 = k
        cases.append(case)


def random_def(rng, name):
    """Metric definition."""
    labels = []
    for key in rng.sample(['a', 'b', 'label', 'x-y', 'caf\u00e9', 'name', 'value', 'namespace'], rng.choice([0, 0, 1, 2, 4])):
        kind = rng.choice(['static', 'expression', 'expression'])
        labels.append((key, kind, rng.choice(STATIC) if kind == 'static' else rng.choice(LABEL + LABEL + FAIL)))
    d = {'name': name, 'type_': rng.choice(TYPES), 'labels': labels}
    kind = rng.choice(['none', 'number', 'number', 'number', 'text', 'fail'])
    if kind != 'none':
        d['expression'] = rng.choice({'number': NUMBER, 'text': TEXT, 'fail': FAIL}[kind])
    if rng.random() < 0.5:
        d['namespace'] = rng.choice(['own', 'deep', 'other.ns', 'DEEP', '', ' '])
    if rng.random() < 0.5:
        d['help_'] = rng.choice(['help text', '', 'h\u00e9lp'])
    if rng.random() < 0.5:
        d['unit'] = rng.choice(['bytes', '', 's', '1'])
    return d


def libraries(check, cases, rng, rounds):
    """What the metric libraries make of the reports."""
    from prometheus_client import REGISTRY
    from opentelemetry import metrics as api
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from deep.api.plugin.metric.otel_metrics import OTelMetrics
    from deep.api.plugin.metric.prometheus_metrics import PrometheusPlugin
    reader = InMemoryMetricReader()
    api.set_meter_provider(MeterProvider(metric_readers=[reader]))
    for n in range(rounds):
        program = Program('function', [])
        rig = Rig(metrics=0)
        prom, otel = PrometheusPlugin(rig.config), OTelMetrics(rig.config)
        rig.config.plugins = list(rig.config.plugins) + [prom, otel]
        hits = [rng.choice([1, 2, 3, 10, 0]) for _ in range(rng.randint(1, 6))]
        defs = []
        # a name that is used in two namespaces and with two types
        for k, type_ in enumerate(rng.sample(TYPES, rng.randint(1, 4)) + ['COUNTER']):
            d = {'name': 'm%d_%d' % (n, k % 3), 'type_': type_, 'namespace': 'ns%d' % k, 'help_': 'help',
                 'labels': [('fixed', 'static', 'f'), ('who', 'expression', 'str(COND > 2)')] if rng.random() < 0.6 else []}
            if rng.random() < 0.8:
                d['expression'] = rng.choice(['COND', 'COND * 2', '5', '"text"', 'nope'])
            defs.append(d)
        count = -1 if rng.random() < 0.5 else rng.randint(1, 3)
        rig.install([Tp('t', 'metric17.py', program.line, {'fire_count': str(count), 'fire_period': '0'}, metrics=[metric(**d) for d in defs])])
        rig.run(program.ns['main'], hits)
        fired = hits if count == -1 else hits[:count]
        points = {}
        data = reader.get_metrics_data()
        for resource in data.resource_metrics if data else ():
            for scope in resource.scope_metrics:
                for m in scope.metrics:
                    for point in m.data.data_points:
                        points[(m.name, tuple(sorted(point.attributes.items())))] = point
        case = {'id': 'lib%d' % n, 'count': -1, 'hits': [], 'totals': []}
        for d in defs:
            groups = {}
            for h in fired:
                value = {'COND': h, 'COND * 2': 2 * h, '5': 5}.get(d.get('expression'), 1)
                groups.setdefault(str(h > 2) if d['labels'] else '', []).append(value)
            for key, values in groups.items():
                labels = {'fixed': 'f', 'who': key} if d['labels'] else {}
                full = '%s_%s' % (d['namespace'], d['name'])
                if d['type_'] == 'GAUGE' and len(values) > 1:
                    continue  # a gauge may show the last value or add them up
                names = {'COUNTER': ('_total', None), 'GAUGE': ('', None)}.get(d['type_'], ('_sum', '_count'))
                total = REGISTRY.get_sample_value(full + names[0], labels)
                number = REGISTRY.get_sample_value(full + names[1], labels) if names[1] else None
                case['totals'].append({'lib': 'prometheus', 'name': full, 'type': d['type_'], 'labels': labels, 'want': values,
                                       'sum': -1 if total is None else int(total), 'n': -1 if not names[1] else int(number or 0)})
                point = points.get((full, tuple(sorted(labels.items()))))
                has_sum = hasattr(point, 'sum')
                case['totals'].append({'lib': 'otel', 'name': full, 'type': d['type_'], 'labels': labels, 'want': values,
                                       'sum': -1 if point is None else int(point.sum if has_sum else point.value),
                                       'n': int(point.count) if has_sum else -1})
        prom.clear()
        cases.append(case)


def run(check):
    rng = random.Random(check.seed * 5471 + 17)
    hits = check.pick(2, 3)
    for count in (-1, 1):
        check.model('Metrics', 'count %d' % count, invariants=INV, properties=PROPS,
                    constants=dict(Count=count, Hits=hits, MaxMetrics=2, MaxProcs=2, Fault='"none"'))
    for fault, refuted in FAULTS:
        check.model('Metrics', 'faulty: ' + fault, expect=refuted, invariants=INV, properties=PROPS,
                    constants=dict(Count=1, Hits=2, MaxMetrics=2, MaxProcs=2, Fault='"%s"' % fault))
    cases = []
    found = check.generate('MetricsGen', 'definitions and histories', 'MET', constraints=['Emit'], workers=4,
                           constants=dict(Counts='{-1, 1, 2}', Hits=3, MaxMetrics=1, MaxProcs=2))
    check.notes['generated'] = len(found)
    found = rng.sample(found, min(len(found), check.pick(500, 6000)))
    wrong = 0
    for n, item in enumerate(found):
        defs = []
        for k, d in enumerate(item['defs'] + rng.choice(found)['defs']):
            concrete = {'name': 'm.%d' % k, 'type_': d['type'], 'labels': [], 'namespace': d['ns']}
            if d['expr'] != 'none':
                concrete['expression'] = rng.choice({'number': NUMBER, 'text': TEXT, 'fails': FAIL}[d['expr']])
            defs.append(concrete)
        run_case(check, cases, 'model%d' % n, sorted(PLACES)[n % len(PLACES)], [(defs, item['count'])], [True, False, 3],
                 [h['procs'] for h in item['hist']])
        fired = [len(h['reports']) > 0 for h in cases[-1]['hits']]
        if fired != [h['fire'] for h in item['hist']] and wrong < 5:
            wrong += 1
            check.violation('the hits that report are not those that the processors and the budget allow', {'case': cases[-1], 'model': item})
    for n in range(check.pick(500, 6000)):
        tps = []
        for t in range(rng.choice([1, 1, 1, 2])):
            defs = [random_def(rng, 't%d.%s' % (t, rng.choice(['m%d' % k, 'm%d' % k, 'm%d' % k, 'm']))) for k in range(rng.randint(1, 5))]
            # reports of equal metrics cannot be told apart
            seen, unique = set(), []
            for d in defs:
                key = (d['name'], d['type_'], d.get('namespace') or 'deep', d.get('help_') or '', d.get('unit') or '')
                if key not in seen:
                    seen.add(key)
                    unique.append(d)
            tps.append((unique, rng.choice([-1, -1, 1, 2])))
        procs = [rng.choice([0, 1, 1, 2, 3]) for _ in range(4)] if rng.random() < 0.4 else [rng.choice([1, 2, 3])]
        run_case(check, cases, 'random%d' % n, rng.choice(sorted(PLACES)), tps, [rng.choice([True, False, 5]) for _ in range(rng.randint(1, 4))], procs)
    libraries(check, cases, rng, check.pick(40, 400))
    failing = check.judge('MetricsJudge', cases)
    by_id = {c['id']: c for c in cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
    check.notes['reports'] = sum(len(h['reports']) for c in cases for h in c['hits'])
    check.notes['totals'] = sum(len(c['totals']) for c in cases)
    for case in cases[-3:]:
        check.sample(case)
    check.assumptions += ['a value that is no number but converts to one may count as that number or as 1',
                          'the label of an expression that fails may have any value',
                          'a gauge of a metrics library may be set or added to']
