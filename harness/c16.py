"""C16: log tracepoints emit the template with every field evaluated in place."""
import logging
import random
import re
import sys

import boot
import rig as R
from c10 import PLACES, value_text
from graphs import esc, host
from rig import Rig, Tp

INV = ['Rendered', 'Labelled', 'OnSnapshot', 'OnePerHit']
FAULTS = [('noescape', ['Rendered']), ('stops', ['Rendered', 'OnSnapshot']), ('blank', ['Rendered']), ('rescan', ['Rendered', 'OnSnapshot']),
          ('swapped', ['Labelled']), ('lost', ['OnSnapshot'])]

LITERALS = ['text', ' ', 'a b', 'x', '\n', '\t', 'caf\u00e9 \u65e5\u672c \U0001f600', '%s', '%d %', '100%', '$name', '${x', '\\', '\\n', '"', "'", ':', '!', '!r', '[0]',
            '(x)', '=', '#', 'deep', '[deep] ', '\x00', '%(x)s', ' - ', '...', '0', 'ctx=1 tracepoint=2', '\r\n', 'None', '}} '.strip('} ') or 'z']
LITERALS = [text for text in LITERALS if '{' not in text and '}' not in text] + ['$']
GOOD = ['COND', 'ONLY', 'BOTH', 'GLOB', 'THING.name', 'THING.inner.name', 'ITEMS[0]', 'ITEMS[-1]', "TABLE['k']", 'TABLE["k"]', 'TABLE[1]', 'FUNC(1)',
        'FUNC(ONLY, y=BOTH)', 'FUNC("a, b")', 'THING.method()', 'THING.method(ONLY)', 'ITEMS[1:3]', 'ONLY + BOTH', 'len(ITEMS)', 'ITEMS', 'TABLE',
        'THING', 'NONE', 'EMPTY', 'BRACES', 'FIELD', 'LONG', 'UNI', 'NEST[0][1].name', "NEST[1]['deep']", 'str(1)', 'repr(ONLY)', '1 + 1', '"text"',
        '5', 'ONLY if COND else BOTH', 'not COND', 'BIG', '1.5', 'ONLY.upper()', 'sorted(ITEMS)[0]', 'max(1, 2)', 'ITEMS[FUNC.n]', 'SUBCLS',
        '(lambda: ONLY)()', '[n for n in ITEMS]', 'ONLY != BOTH', 'type(ONLY)', '" ".join([ONLY, BOTH])', 'THING.prop', 'b"bytes"', '2 ** 70']
BRACED = ["TABLE['}']", "TABLE['{']", '"}"', "FUNC('}')", "FUNC('{x}')", "dict(a={})['a']"]
FAIL = ['nope', 'THING.nope', 'ITEMS[99]', "TABLE['nope']", 'FUNC()', '1 / 0', 'BOOM()', 'QUIT()', 'STOP()', 'nope.x', 'NONE.x', 'UNSTR', 'GENEXIT()',
        'EMPTYERR()', 'THING.bad', 'self_', 'ITEMS["x"]', 'int(ONLY)', 'deep', 'trigger_context', 'NONE[0]', 'BADERR()']
SYNTAX = ['x +', 'a b', '1 2', 'for', 'x = 1']


class Thing:
    """Value of the program."""

    def __init__(self, name='thing', inner=None):
        self.name, self.inner = name, inner

    def method(self, value='called'):
        """Value."""
        return 'method %s' % value

    @property
    def prop(self):
        """Value."""
        return 'prop of %s' % self.name

    @property
    def bad(self):
        """Fails."""
        raise ValueError('bad {property} %s')

    def __str__(self):
        return 'Thing{%s}' % self.name


class Unstr:
    """No text."""

    def __str__(self):
        raise RuntimeError('no text')

    __repr__ = __str__


class Text(str):
    """Own text."""

    def __str__(self):
        return 'own text'

    __repr__ = __str__
    __format__ = None


class BadError(Exception):
    """An error without a text."""

    def __str__(self):
        raise RuntimeError('no error text')


def func(x, y='y'):
    """Value."""
    return 'func %s %s' % (x, y)


func.n = 1


def thrower(error):
    """Function that raises."""
    def body():
        raise error
    return body


TABLE = {'k': 'value', 1: 'one', '}': 'close', '{': 'open'}
NAMES = {'GLOB': 'module glob', 'BOTH': 'module both', 'THING': Thing('outer', Thing('inner')), 'ITEMS': [3, 1, 2, 9], 'TABLE': TABLE, 'FUNC': func,
         'NONE': None, 'EMPTY': '', 'BRACES': '{} }{ {{x}}', 'FIELD': '{ONLY} {0} {nope}', 'LONG': 'long ' * 900, 'UNI': '\u00e9\u65e5\U0001f600', 'BIG': 10 ** 30,
         'NEST': [[0, Thing('nested')], {'deep': 1.5}], 'SUBCLS': Text('raw'), 'BOOM': thrower(RuntimeError('boom {x} %s')), 'QUIT': sys.exit,
         'STOP': thrower(KeyboardInterrupt('stop')), 'GENEXIT': thrower(GeneratorExit('exit')), 'EMPTYERR': thrower(ValueError()),
         'UNSTR': Unstr(), 'BADERR': thrower(BadError('x'))}


def error_texts(error):
    """Texts that stand for an error."""
    texts = []
    for get in (str, repr, lambda e: type(e).__name__, lambda e: '%s: %s' % (type(e).__name__, e), lambda e: ''.join(map(str, e.args))):
        try:
            text = get(error)
        except BaseException:  # noqa
            continue
        if text and text not in texts:
            texts.append(text)
    if isinstance(error, SyntaxError):
        texts += ['%s (%s, line %s)' % (error.msg, name, error.lineno) for name in ('<string>', '<watch>', '<log>', '<expression>', '<unknown>')]
    return texts


def texted(value):
    """Does it have a text."""
    try:
        str(value)
        return True
    except BaseException:  # noqa
        return False


def no_texts(value):
    """Texts that stand for a value without a text."""
    return ['%s@%s' % (type(value), id(value)), "<class '%s'>@%s" % (type(value).__name__, id(value)), object.__repr__(value), type(value).__name__, str(type(value)), '']


class Program:
    """A host program with the fields compiled into it."""

    def __init__(self, place, exprs):
        probes = []
        indent = PLACES[place].split('{probes}')[0].rsplit('\n', 1)[1]
        self.syntax = {}
        for k, text in enumerate(exprs):
            if text == 'NEXT()':
                continue
            try:
                compile(text.strip(), '<string>', 'eval')
            except SyntaxError as e:
                self.syntax[k] = e
                continue
            probes += ['try: P(%d, (%s))' % (k, text), 'except BaseException as _E: P(%d, None, _E)' % k]
        source = PLACES[place].replace('{probes}', ('\n' + indent).join(probes or ['pass']))
        self.line = 1 + [n for n, t in enumerate(source.split('\n')) if '#T' in t][0]
        self.now = {}
        self.filename = '/app/log16.py'
        count = [0]

        def step():
            count[0] += 1
            return count[0]
        self.ns = host(source, self.filename, dict(NAMES, P=self.probe, NEXT=step))

    def probe(self, k, value, error=None):
        """Called by the program: the text of field k."""
        if error is None:
            try:
                self.now[k] = (False, [str(value)], value_text(value))
                return
            except BaseException as e:  # noqa
                # no text to show
                self.now[k] = ('any', error_texts(e) + no_texts(value), '')
                return
        self.now[k] = (True, error_texts(error) + ([] if texted(error) else no_texts(error)), '')

    def field(self, k):
        """Outcome of field k."""
        if k in self.syntax:
            return True, error_texts(self.syntax[k]), ''
        return self.now[k]


class Records(logging.Handler):
    """What the python plugin logs."""

    def __init__(self, effects):
        super().__init__(logging.INFO)
        self.effects = effects

    def emit(self, record):
        """Read a message of the plugin."""
        found = re.match(r'^(.*) ctx=(\S*) tracepoint=(\S*)$', record.getMessage(), re.S)
        if found:
            self.effects.add('log', found.group(3), msg=found.group(1), ctx=found.group(2))


def run_case(check, cases, ident, place, tps, hits, python=False, more=None):
    """tps: list of (parts, count, collects, span); part = (kind, text of the template, text or expression).

    more: what else a tracepoint has (arguments, watches, metrics), it makes no difference to its messages.
    """
    exprs = [p[2] for tp in tps for p in tp[0] if p[0] == 'field']
    program = Program(place, exprs)
    rig = Rig(log=not python)
    handler = None
    if python:
        from deep.api.plugin.python import PythonPlugin
        rig.config.plugins = list(rig.config.plugins) + [PythonPlugin('python', rig.config)]
        handler = Records(rig.effects)
        logger = logging.getLogger('deep')
        logger.addHandler(handler)
        logger.setLevel(logging.INFO)
    entries = []
    for n, (parts, count, collects, span) in enumerate(tps):
        args = {'log_msg': ''.join(p[1] for p in parts), 'fire_count': str(count), 'fire_period': '0'}
        if not collects:
            args['snapshot'] = 'no_collect'
        if span:
            args['span'] = 'line'
        extra = (more or {}).get(n, {})
        args.update(extra.get('args', {}))
        entries.append(Tp('tp-%d' % n, 'log16.py', program.line, args, extra.get('watches', ()), extra.get('metrics', ())))
    rig.install(entries)
    records = []

    def tracer(frame, event, arg):
        if frame.f_code.co_filename == program.filename and event == 'line' and frame.f_lineno == program.line:
            start = len(rig.effects.items)
            rig.handler.trace_call(frame, event, arg)
            records.append((dict(program.now), start))
        else:
            rig.handler.trace_call(frame, event, arg)
        return tracer

    try:
        box = rig.run(program.ns['main'], hits, tracer=tracer)
    finally:
        if handler is not None:
            logger.removeHandler(handler)
            logger.setLevel(logging.WARNING)
    if 'error' in box:
        check.violation('the agent raised into the program', {'case': ident, 'error': repr(box['error'])})
    # what happens between two hits belongs to the first of them (a capture is sent after its line)
    ends = [start for _, start in records[1:]] + [len(rig.effects.items)]
    records = [(now, rig.effects.items[0 if i == 0 else start:ends[i]]) for i, (now, start) in enumerate(records)]
    k0 = 0
    for n, (parts, count, collects, span) in enumerate(tps):
        case = {'id': '%s.%d' % (ident, n), 'tp': 'tp-%d' % n, 'count': count, 'hits': [], 'template': esc(entries[n].args['log_msg']),
                'place': place}
        counter = 0
        for now, items in records:
            program.now = now
            k = k0
            h = {'parts': [], 'logs': [], 'snaps': [], 'collects': collects, 'ctx': ''}
            for kind, _, text in parts:
                if kind != 'field':
                    h['parts'].append({'k': kind, 'alts': [esc(text)]})
                    continue
                if text == 'NEXT()':
                    # evaluated once per hit, in the order of the template
                    counter += 1
                    err, texts, shown = False, [str(counter)], str(counter)
                else:
                    err, texts, shown = program.field(k)
                k += 1
                h['parts'].append({'k': 'field', 'expr': esc(text), 'err': err if err == 'any' else 'yes' if err else 'no', 'alts': [esc(t) for t in texts], 'shown': esc(shown)[:200]})
            for item in items:
                if item['kind'] == 'span':
                    h['ctx'] = item['ctx']
            for item in items:
                # a message that belongs to nobody belongs to the first one
                mine = item['tp'] == case['tp'] or (n == 0 and item['tp'] not in ['tp-%d' % m for m in range(len(tps))])
                if item['kind'] == 'log' and (mine or len(tps) == 1):
                    h['logs'].append({'text': esc(item['msg']), 'tp': str(item['tp']), 'ctx': str(item['ctx'])})
                if item['kind'] == 'snapshot' and mine:
                    wire = rig.wire(item['snapshot'])
                    h['snaps'].append({'haslog': wire.HasField('log_msg'), 'log': esc(wire.log_msg), 'watches': [
                        {'expr': esc(w.expression), 'err': 'no' if w.WhichOneof('result') == 'good_result' else 'yes',
                         'text': esc(wire.var_lookup[w.good_result.ID].value)[:200] if w.WhichOneof('result') == 'good_result' else ''}
                        for w in wire.watches if w.source == 1]})
            case['hits'].append(h)
        k0 = k
        cases.append(case)


def literal(rng):
    """Literal text."""
    return rng.choice(LITERALS)


def part(rng, kind):
    """Concrete part of a kind of part."""
    if kind == 'lit':
        text = literal(rng)
        return 'lit', text, text
    if kind == 'open':
        return 'open', '{{', '{'
    if kind == 'close':
        return 'close', '}}', '}'
    if kind == 'good':
        text = rng.choice(GOOD)
    elif kind == 'braced':
        text = rng.choice(BRACED)
    elif kind == 'syntax':
        text = rng.choice(SYNTAX)
    else:
        text = rng.choice(FAIL)
    return 'field', '{%s}' % text, text


def run(check):
    rng = random.Random(check.seed * 7919 + 16)
    size = check.pick(4, 5)
    check.model('LogTemplate', 'up to %d parts, 2 hits' % size, invariants=INV, properties=['Finishes'],
                constants=dict(MaxParts=size, Hits=2, Fault='"none"'))
    for fault, refuted in FAULTS:
        check.model('LogTemplate', 'faulty: ' + fault, expect=refuted, invariants=INV, constants=dict(MaxParts=2, Hits=2, Fault='"%s"' % fault))
    cases = []
    found = check.generate('LogTemplateGen', 'templates', 'TPL', constraints=['Emit'], constants=dict(MaxParts=check.pick(4, 5)))
    check.notes['generated'] = len(found)
    found = [f['parts'] for f in found if f['parts']]
    if not check.thorough:
        found = rng.sample(found, min(400, len(found)))
    for n, kinds in enumerate(found):
        run_case(check, cases, 'model%d' % n, sorted(PLACES)[n % len(PLACES)], [([part(rng, k) for k in kinds], -1, n % 3 != 0, n % 2 == 0)],
                 [True, False] if n % 5 == 0 else [True])
    # every expression on its own, with and without a snapshot
    for n, text in enumerate(GOOD + BRACED + FAIL + SYNTAX):
        field = ('field', '{%s}' % text, text)
        run_case(check, cases, 'single%d' % n, sorted(PLACES)[n % len(PLACES)], [([field], -1, True, True)], [True])
        run_case(check, cases, 'pair%d' % n, sorted(PLACES)[(n + 3) % len(PLACES)],
                 [([('open', '{{', '{'), field, ('close', '}}', '}'), ('lit', ' and ', ' and '), field, ('close', '}}', '}')], -1, False, True)], [False])
    step = ('field', '{NEXT()}', 'NEXT()')
    for n in range(check.pick(30, 200)):
        parts = [step if rng.random() < 0.5 else part(rng, rng.choice(['lit', 'open', 'close', 'good', 'bad'])) for _ in range(rng.randint(1, 6))]
        run_case(check, cases, 'once%d' % n, rng.choice(sorted(PLACES)), [(parts, -1, n % 2 == 0, n % 3 == 0)], [True] * rng.randint(1, 3))
    # random templates, several tracepoints on the line, fire counts, the logger of the agent
    for n in range(check.pick(400, 6000)):
        tps = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            parts = [part(rng, rng.choice(['lit', 'lit', 'open', 'close', 'good', 'good', 'bad', 'braced', 'syntax']))
                     for _ in range(rng.randint(1, 9))]
            bad = 0
            for k, p in enumerate(parts):
                # the number of possible messages stays small
                if p[0] == 'field' and p[2] in FAIL + SYNTAX:
                    bad += 1
                    if bad > 3:
                        parts[k] = ('lit', 'z', 'z')
            tps.append((parts, rng.choice([-1, -1, 1, 2]), rng.random() < 0.5, rng.random() < 0.6))
        place = rng.choice(sorted(PLACES))
        more = {}
        for k, (parts, _, collects, _) in enumerate(tps):
            fields = [p[2] for p in parts if p[0] == 'field' and p[2] != 'NEXT()']
            args, watches, metrics = {}, [], []
            if rng.random() < 0.5:
                # watches that are also fields
                watches = [rng.choice(fields + ['ONLY', 'GLOB', 'nope']) for _ in range(rng.randint(1, 3))]
            if rng.random() < 0.3:
                metrics = [{'name': 'm', 'labels': [('k', 'expression', rng.choice(fields + ['ONLY']))]}]
            if rng.random() < 0.3:
                args = rng.choice([{'condition': 'True'}, {'frame_type': 'no_frame'}, {'frame_type': 'all_frame'}, {'condition': '1 == 1'},
                                   {'stage': 'line_start'}, {'MAX_VARIABLES': '1'}, {'window_start': '0'}, {'snapshot': 'collect'} if collects else {}])
            if collects and place in ('function', 'method') and rng.random() < 0.3:
                args['stage'] = 'line_capture'
            more[k] = {'args': args, 'watches': watches, 'metrics': metrics}
        run_case(check, cases, 'random%d' % n, place, tps, [rng.choice([True, False]) for _ in range(rng.randint(1, 4))], python=n % 8 == 0, more=more)
    failing = check.judge('LogTemplateJudge', cases)
    by_id = {c['id']: c for c in cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
    check.notes['templates'] = len(cases)
    check.notes['fields'] = sum(1 for c in cases for h in c['hits'] for p in h['parts'] if p['k'] == 'field')
    for case in cases[-3:]:
        check.sample(case)
    check.assumptions += ['templates that are not well formed, format specifications and conversions are out of scope',
                          'any usual text of an error (its message, its type, or both) is an error text']
