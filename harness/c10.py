"""C10: conditions gate firing, expressions see the paused frame only, their errors are contained."""
import builtins
import random
import sys
import types

import rig as R
from graphs import esc, host
from rig import Rig, Tp

SEP = '\u241f'
FAULTS = [('failopen', ['OnlyWhenTrue']), ('spends', ['RejectedIsFree']), ('stops', ['NotLost', 'RejectedIsFree']), ('agent', ['FrameScope']),
          ('globals', ['FrameScope']), ('nonested', ['FrameScope']),
          ('builtins', ['FrameScope'])]

# where the hit happens: the probes (P) compute the outcomes with the program's own semantics, right before the line
PLACES = {
    'function': 'def main(hits):\n    for COND in hits:\n        run(COND, 1)\ndef run(COND, LOC, BOTH="frame both"):\n    ONLY = "frame only"\n'
                '    {probes}\n    done = 1  #T\n    return done\n',
    'method': 'class Some:\n    def run(self, COND, ONLY="frame only", BOTH="frame both"):\n        LOC = 1\n        {probes}\n'
              '        self.x = COND  #T\ndef main(hits):\n    for h in hits:\n        Some().run(h)\n',
    'generator': 'def gen(hits):\n    BOTH = "frame both"\n    for COND in hits:\n        ONLY = "frame only"\n        {probes}\n'
                 '        yield COND  #T\ndef main(hits):\n    list(gen(hits))\n',
    'nested': 'def main(hits):\n    ONLY = "outer only"\n    def inner(COND):\n        ONLY = "frame only"; BOTH = "frame both"\n'
              '        {probes}\n        pass  #T\n    for h in hits:\n        inner(h)\n',
    'closure': 'def main(hits):\n    ONLY = "frame only"; BOTH = "frame both"\n    def inner(COND):\n        used = (ONLY, BOTH)\n'
               '        {probes}\n        used = 1  #T\n    for h in hits:\n        inner(h)\n',
    'except': 'def run(COND):\n    ONLY, BOTH = "frame only", "frame both"\n    try:\n        raise KeyError(1)\n    except KeyError as err:\n'
              '        {probes}\n        del err  #T\ndef main(hits):\n    for h in hits:\n        run(h)\n',
    'coroutine': 'async def run(COND):\n    ONLY, BOTH = "frame only", "frame both"\n    {probes}\n    return 1  #T\ndef main(hits):\n'
                 '    for h in hits:\n        try:\n            run(h).send(None)\n        except StopIteration:\n            pass\n',
    'recursive': 'def run(COND, n=2):\n    ONLY, BOTH = "frame only", "frame both"\n    if n:\n        BOTH = "outer"; ONLY = "outer"\n'
                 '        return run(COND, n - 1)\n    {probes}\n    return 1  #T\ndef main(hits):\n    for h in hits:\n        run(h)\n',
}
KINDS = ['snapshot', 'log', 'metric', 'span']


class Not:
    """Not true."""

    def __bool__(self):
        return False

    def __str__(self):
        return 'not this'


class Odd:
    """Neither true nor false."""

    def __bool__(self):
        raise ValueError('odd')

    def __str__(self):
        return 'odd'


def value_text(value):
    """Text of a value in the variable table."""
    if type(value) in (list, dict, tuple, set, frozenset):
        return 'Size: %d' % len(value)
    return str(value)


class Program:
    """A host program with the expressions compiled into it."""

    def __init__(self, place, cond, exprs, extra_globals):
        probes = []
        indent = PLACES[place].split('{probes}')[0].rsplit('\n', 1)[1]
        for k, text in enumerate([cond] + exprs):
            if text is None:
                continue
            try:
                compile(text.strip(), '<x>', 'eval')
            except (SyntaxError, ValueError):
                probes.append('P(%d, None, "syntax")' % k)
                continue
            probes += ['try: P(%d, (%s\n))' % (k, text), 'except BaseException as _E: P(%d, None, "error")' % k]
        source = PLACES[place].replace('{probes}', ('\n' + indent).join(['input, hex = "frame hides", "frame all"'] + probes))
        self.line = 1 + [n for n, t in enumerate(source.split('\n')) if '#T' in t][0]
        self.now = {}
        self.hits = []
        self.filename = '/app/expr10.py'
        names = dict(extra_globals, P=self.probe, vars='module ghides', hex='module all')
        self.ns = host(source, self.filename, names)

    def probe(self, k, value, error=None):
        """Called by the program: outcome of expression k."""
        if error is None:
            try:
                # the program has no use for a value without a text
                self.now[k] = (False, str(value), value_text(value), value)
            except BaseException:  # noqa
                self.now[k] = (True, '', '', None)
        else:
            self.now[k] = (True, '', '', None)


def run_case(check, cases, ident, place, kinds, cond, exprs, roles, hits, count, extra, check_only=None):
    """Run the hits; exprs[k] is used in roles[k]."""
    program = Program(place, cond, exprs, extra)
    args = {'fire_count': str(count), 'fire_period': '0'}
    if cond is not None:
        args['condition'] = cond
    fields = [e for e, r in zip(exprs, roles) if r == 'log']
    watches = [e for e, r in zip(exprs, roles) if r == 'watch']
    metrics = []
    if 'snapshot' not in kinds:
        args['snapshot'] = 'no_collect'
    if 'log' in kinds:
        args['log_msg'] = SEP.join(['m'] + ['{%s}' % f for f in fields] + ['end'])
    if 'span' in kinds:
        args['span'] = 'line'
    if 'metric' in kinds:
        values = [e for e, r in zip(exprs, roles) if r == 'metric']
        labels = [e for e, r in zip(exprs, roles) if r == 'label']
        metrics = [dict(name='t.%d' % k, expression=e) for k, e in enumerate(values)]
        metrics.append(dict(name='t.labels', type_='GAUGE', labels=[('l%d' % k, 'expression', e) for k, e in enumerate(labels)]))
    rig = Rig()
    rig.install([Tp('t', 'expr10.py', program.line, args, watches, metrics)])
    records = []

    def tracer(frame, event, arg):
        mine = frame.f_code.co_filename == program.filename
        if mine and event == 'line' and frame.f_lineno == program.line:
            start = len(rig.effects.items)
            result = local_agent(frame, event, arg)
            records.append((dict(program.now), rig.effects.items[start:]))
            return tracer
        local_agent(frame, event, arg)
        return tracer

    def local_agent(frame, event, arg):
        return rig.handler.trace_call(frame, event, arg)

    box = rig.run(program.ns['main'], hits, tracer=tracer)
    if 'error' in box:
        check.violation('the agent raised into the program', {'case': ident, 'error': repr(box['error'])})
    case = {'id': ident, 'count': count, 'hits': [], 'cond': cond or '', 'exprs': exprs, 'roles': roles, 'place': place, 'kinds': kinds}
    for now, items in records:
        case['hits'].append(read_hit(rig, now, items, cond, exprs, roles, kinds))
    cases.append(case)


def read_hit(rig, now, items, cond, exprs, roles, kinds):
    """What the program computed and what the agent did."""
    outcome = 'true'
    if cond is not None:
        err, _, _, value = now[0]
        outcome = 'error' if err else 'true' if value is True else 'false' if value is False else \
            'odd' if odd_truth(value) else 'false'
    acts = {}
    for kind in kinds:
        found = [i for i in items if i['kind'] == kind]
        if kind == 'metric':
            names = [i['name'] for i in found]
            acts[kind] = max([names.count(n) for n in names] or [0])
        else:
            acts[kind] = len(found)
    by_kind = {i['kind']: i for i in items}
    want, got = [], []
    snapshot = rig.wire(by_kind['snapshot']['snapshot']) if 'snapshot' in by_kind else None
    message = by_kind['log']['msg'].split(SEP) if 'log' in by_kind else None
    metric = {i['name']: i for i in items if i['kind'] == 'metric'}
    seen = {'watch': 0, 'log': 0, 'metric': 0, 'label': 0}
    for k, (expr, role) in enumerate(zip(exprs, roles)):
        err, text, shown, value = now.get(k + 1, (True, '', '', None))
        n = seen[role]
        seen[role] += 1
        if role == 'watch':
            if snapshot is None:
                continue
            found = [w for w in snapshot.watches if w.source == 0]
            want.append({'err': err, 'text': esc(shown)})
            if n < len(found):
                w = found[n]
                good = w.WhichOneof('result') == 'good_result'
                got.append({'err': 'no' if good else 'yes',
                            'text': esc(snapshot.var_lookup[w.good_result.ID].value) if good else ''})
        elif role == 'log':
            if message is None:
                continue
            want.append({'err': err, 'text': esc(text)})
            if n + 1 < len(message) - 1:
                res = {'err': 'any', 'text': esc(message[n + 1])}
                if snapshot is not None:
                    found = [w for w in snapshot.watches if w.source == 1]
                    if n < len(found):
                        res['err'] = 'no' if found[n].WhichOneof('result') == 'good_result' else 'yes'
                if err:
                    # an error has to show
                    res['text'] = ''
                got.append(res)
        elif role == 'metric':
            if not metric:
                continue
            try:
                number, bad = float(value), err
            except BaseException:  # noqa
                number, bad = 1.0, True
            want.append({'err': bad, 'text': repr(number)})
            if 't.%d' % n in metric:
                got.append({'err': 'any', 'text': repr(float(metric['t.%d' % n]['value']))})
        else:
            if not metric:
                continue
            want.append({'err': err, 'text': esc(text)})
            labels = metric.get('t.labels', {'labels': {}})['labels']
            if 'l%d' % n in labels:
                got.append({'err': 'any', 'text': esc(str(labels['l%d' % n]))})
    return {'cond': outcome, 'acts': acts, 'want': want, 'got': got}


def odd_truth(value):
    """Could the value count as true (by its truth value, or by its text)."""
    try:
        return bool(value) or str(value).lower() in ('yes', 'true', 't', '1', 'y')
    except BaseException:  # noqa
        return True


CONCRETE = {'local': 'ONLY', 'global': 'GLOB', 'builtin': 'str(len("four"))', 'both': 'BOTH', 'agent': None, 'unknown': 'no_such_name',
            'hides': 'input', 'ghides': 'vars', 'all': 'hex'}
NEST = ['(lambda: %s)()', '[%s for _ in (1,)][0]', 'next(%s for _ in (1,))', 'list(map(lambda _: %s, (1,)))[0]',
        '(lambda a: [%s for _ in (1,)])(1)[0]', 'list({%s for _ in (1,)})[0]']
AGENT_NAMES = ['self', 'expression', 'frame', 'config', 'deep', 'logging', 'trigger_context', 'TriggerContext', 'names', 'str2bool', 'watch']


def agent_names():
    """Every name that the agent's code uses."""
    names = set()
    for name, module in list(sys.modules.items()):
        if module is None or not (name == 'deep' or name.startswith('deep.')):
            continue
        names.update(vars(module))
        todo = [v for v in vars(module).values()]
        seen = set()
        while todo:
            value = todo.pop()
            if id(value) in seen:
                continue
            seen.add(id(value))
            if isinstance(value, types.FunctionType) and value.__module__ and value.__module__.startswith('deep'):
                todo.append(value.__code__)
            elif isinstance(value, types.CodeType):
                names.update(value.co_varnames + value.co_cellvars + value.co_freevars + value.co_names)
                todo += value.co_consts
            elif isinstance(value, type) and str(value.__module__).startswith('deep'):
                todo += list(vars(value).values())
            elif isinstance(value, property):
                todo += [value.fget, value.fset]
            elif isinstance(value, (staticmethod, classmethod)):
                todo.append(value.__func__)
    return sorted(n for n in names if n.isidentifier() and not n.startswith('__'))


PIECES = ['&&', '||', '!', '!=', '  ', ' ', '\t', '\n', ' and ', ' or ', 'not ', 'true', 'false', 'null', 'True', 'None', '{', '}', '{x}', '%s', '%', '$', '${a}', '#',
          '//', '/*', '"', "'", '\\', '\\n', '\xe9', 'e\u0301', '\u20ac', '\xa0', '\u2028', '==', '=', '<>', ';', ':=', 'lambda', 'self', 'A', 'a', '\r', '\x00', '-', '.', ',',
          '&lt;', '\U0001f600', '0', '1_0', '===', '?', '`', '(', ')', '[', ']', 'ONLY', 'COND']
CHANGES = [lambda t: ' '.join(t.split()), str.strip, str.lower, str.upper, lambda t: t.replace('&&', ' and ').replace('||', ' or '), lambda t: t.replace('!', ' not '),
           lambda t: t.replace('\t', ' '), lambda t: t.replace('\n', ' '), lambda t: t.replace('\r\n', '\n').replace('\r', '\n'), lambda t: t.replace('"', "'"),
           lambda t: t.encode('ascii', 'replace').decode(), lambda t: t.split('#')[0], lambda t: t.replace('null', 'None').replace('true', 'True'),
           lambda t: t.replace('\\', ''), lambda t: t.replace('===', '==').replace('<>', '!='), lambda t: t[::-1], lambda t: t]


def written(rng, text):
    """The text as a literal."""
    way = rng.randrange(5)
    if way == 0 and not set(text) & set('\\"\r\x00'):
        return '"""%s"""' % text
    if way == 1 and not set(text) & set('\\"\n\r\x00'):
        return rng.choice(['"%s"', 'r"%s"']) % text
    if way == 2:
        return ascii(text)
    if way == 3 and len(text) > 1:
        k = rng.randrange(1, len(text))
        return '%s %s' % (written(rng, text[:k]), written(rng, text[k:]))
    return repr(text)


def spelled(rng):
    """An expression whose meaning depends on how its texts are read."""
    text = ''.join(rng.choice(PIECES) for _ in range(rng.randint(1, 4)))
    other = rng.choice(CHANGES)(text)
    one, two = written(rng, text), written(rng, other)
    return rng.choice(['%s == %s', 'len(%s) == len(%s)', '%s in (%s,)', '(%s) + (%s)', 'len((%s) + (%s))', '{%s: 1}.get(%s)', '(%s)[:1] + (%s)[-1:]',
                       'hash(%s) == hash(%s) # or None', '(%s) \\\n != (%s)', '(%s,\n   %s) # and None', '[t for t in (%s, %s)]  ']) % (one, two)


def run(check):
    rng = random.Random(check.seed * 4099 + 10)
    inv = ['OnlyWhenTrue', 'RejectedIsFree', 'FrameScope', 'OneResultEach']
    props = ['DueIsDelivered', 'NotLost']
    for count in (-1, 1, 2):
        check.model('Eval', 'count %d' % count, invariants=inv, properties=props,
                    constants=dict(Count=count, Hits=check.pick(3, 5), MaxExprs=2, Fault='"none"'))
    for fault, refuted in FAULTS:
        check.model('Eval', 'faulty: ' + fault, expect=refuted, invariants=inv, properties=props,
                    constants=dict(Count=2, Hits=3, MaxExprs=2, Fault='"%s"' % fault))
    cases = []
    # model -> code
    found = check.generate('EvalGen', 'expressions and histories', 'EVAL', constraints=['Emit'], workers=4,
                           constants=dict(Counts='{-1, 1, 2}', Hits=3, MaxExprs=2))
    check.notes['generated'] = len(found)
    found = rng.sample(found, min(len(found), check.pick(500, 6000)))
    conds = {'true': True, 'false': False}
    wrong = 0
    for n, item in enumerate(found):
        place = sorted(PLACES)[n % len(PLACES)]
        exprs = []
        for e in item['exprs']:
            text = CONCRETE[e['name']] or rng.choice([x for x in AGENT_NAMES if (place, x) != ('method', 'self')])
            exprs.append(rng.choice(NEST) % text if e['nested'] else text)
        kinds = ['snapshot', 'log', 'metric', 'span']
        roles = [rng.choice(['watch', 'label'] if '{' in e else ['watch', 'log', 'label']) for e in exprs]
        hits = [conds.get(h['cond'], 'error') for h in item['hist']]
        run_case(check, cases, 'model%d' % n, place, kinds, 'CHECK(COND)', exprs, roles, hits, item['count'],
                 {'GLOB': 'module glob', 'BOTH': 'module both', 'CHECK': check_cond})
        # the outcome of the model against that of the program itself: the two oracles agree
        got = cases[-1]
        text = {'frame': {'local': 'frame only', 'both': 'frame both', 'hides': 'frame hides', 'all': 'frame all'},
                'module': {'global': 'module glob', 'ghides': 'module ghides'}, 'builtins': {'builtin': '4'}}
        for h, real in zip(item['hist'], got['hits']):
            if h['cond'] != real['cond']:
                raise R_error('the program and the model do not agree on the condition: %r' % got)
            for e, w, x in zip(item['exprs'], item['want'], real['want'] if len(real['want']) == len(exprs) else []):
                pass
        fired = [max(h['acts'].values()) > 0 for h in got['hits']]
        if fired != [h['fire'] for h in item['hist']] and wrong < 5:
            wrong += 1
            check.violation('the hits that collect are not those the condition and the budget allow', {
                'case': got, 'model': item})
        for h, real in zip(item['hist'], got['hits']):
            if not h['fire'] or len(real['got']) != len(exprs):
                continue
            order = sorted(range(len(exprs)), key=lambda k: k)
            for k in order:
                w = item['want'][k]
                r = real['got'][k]
                good = r['err'] != 'no' if w == 'error' else r['err'] != 'yes' and r['text'] == text[w][item['exprs'][k]['name']]
                if not good and wrong < 5:
                    wrong += 1
                    check.violation('an expression does not see what the frame sees', {'expression': exprs[k], 'want': w, 'got': r,
                                                                                      'place': place})
    # every name the agent's code knows is unknown to the expressions
    names = [n for n in agent_names() if n not in vars(builtins) and n not in ('main', 'run', 'P')]
    check.notes['agent_names'] = len(names)
    for k in range(0, len(names), 100):
        run_case(check, cases, 'agent%d' % k, 'recursive', ['snapshot'], None, names[k:k + 100], ['watch'] * len(names[k:k + 100]),
                 [True], 1, {})
        some = names[k:k + 100]
        run_case(check, cases, 'agentcond%d' % k, 'function', ['snapshot', 'log', 'metric', 'span'],
                 ' or '.join('%s is %s' % (n, n) for n in rng.sample(some, 1)), [], [], [True], 1, {})
    # random expressions
    pool = ['input', 'vars', 'hex', '[hex + input + vars for _ in (1,)]', 'ONLY', 'BOTH', 'GLOB', 'COND', 'GLOB + ONLY', 'len(GLOB)', '1 / 0', 'nope', 'nope.x', 'ONLY.nope', 'ONLY[99]', '(', '1 +', '',
            'int(ONLY)', 'NUMS[1]', 'NUMS', 'sum(NUMS)', 'sum(n for n in NUMS if n > LIMIT)', '[n * LIMIT for n in NUMS]',
            '(lambda x, y=GLOB: (x, y, ONLY))(1)', '{k: ONLY for k in NUMS}', 'FUNC(ONLY)', 'FUNC', '{n for n in NUMS}', 'max(NUMS, key=lambda n: -n * LIMIT)',
            'list(map(lambda n: n + LIMIT, NUMS))', 'BOOM()', 'QUIT()', 'STOP()', 'ODD', '(lambda: nope)()', 'ONLY if COND else GLOB',
            'f"{ONLY}-{GLOB!r:>4}"', '"text"', '5', '-1.5', '"7"', 'None', 'True', '__import__("math").pi', '[ONLY, [GLOB]][1][0]',
            'any(ONLY == x for x in (GLOB, BOTH, ONLY))', 'sorted(NUMS, reverse=bool(LIMIT))', 'isinstance(ONLY, str) and "yes"',
            '[x for x in NUMS if [y for y in NUMS if y == x and LIMIT]]', 'ONLY\\\n', ' ONLY', 'x = 1', 'raise X', 'a b', 'float("nan")', 'yield 1']
    pool = [p for p in pool if p not in ('ONLY\\\n', '')]
    conditions = [None, None, 'input == "frame hides" and COND', '(hex, vars) == ("frame all", "module ghides")', 'COND', 'not COND', 'COND == "error"', 'COND is True', 'ONLY == "frame only" and COND is True', 'nope', '1/0', '(', '',
                  'GLOB', 'any(ONLY for _ in (1,)) and COND is True', 'BOTH == "frame both"', 'all(n > -LIMIT for n in NUMS)', 'BOOM()',
                  'QUIT()', 'CHECK(COND)', 'None', '0', '[]', '1', '"no"', 'ODD', 'STOP()', 'GLOB == "module glob" and (lambda: ONLY)() == "frame only"',
                  ' COND', 'False', 'x = 1', 'deep', 'self', 'ONLY', 'COND and ONLY', 'len(NUMS) > 2',
                  '""', '"" if COND else "true"', '()', '{}', '0.0', '0j', 'b""', 'range(0)', 'COND and 0', '[n for n in NUMS if n > 3]',
                  'ONLY[:0]', '"false"', '"tr"', '"e"', '" "', '"1"', '"0"', 'NOT', 'frozenset()', 'COND or ""', 'COND or None']
    extra = {'GLOB': 'module glob', 'BOTH': 'module both', 'CHECK': check_cond, 'NUMS': [1, 2, 3], 'LIMIT': 1, 'FUNC': str.upper,
             'BOOM': boom, 'QUIT': sys.exit, 'STOP': stop, 'ODD': Odd(), 'NOT': Not()}
    # every condition at least once with every kind of action
    for k, cond in enumerate(c for c in conditions if c):
        for count in (-1, 1):
            run_case(check, cases, 'condition%d%s' % (k, count), 'function', KINDS, cond, [], [], [True, False, 'error', False, True], count, extra)
    # texts are compared as they are written
    extra['TEXTS'] = ['a' + piece + 'b' for piece in PIECES]
    for k, text in enumerate(extra['TEXTS']):
        lit = written(rng, text)
        run_case(check, cases, 'text%d' % k, 'function', KINDS, 'TEXTS[%d] == %s and COND is True' % (k, lit), ['TEXTS[%d] == %s' % (k, lit), 'len(%s)' % lit, lit],
                 ['watch', 'metric', 'label'], [True, False, True], -1, extra)
    for n in range(check.pick(600, 8000)):
        place = rng.choice(sorted(PLACES))
        kinds = rng.choice([KINDS, KINDS, ['snapshot'], ['log'], ['metric'], ['span'], ['snapshot', 'log'], ['metric', 'span']])
        allowed = [r for r in ('watch', 'log', 'metric', 'label') if {'watch': 'snapshot', 'label': 'metric'}.get(r, r) in kinds]
        exprs = [rng.choice(pool) for _ in range(rng.randint(0, 6))] if allowed else []
        roles = [rng.choice(allowed) for _ in exprs]
        # in a log message braces and colons belong to the template (C16)
        exprs = [('ONLY' if r == 'log' and any(c in e for c in '{}:!"\\') else e) for e, r in zip(exprs, roles)]
        exprs = [('GLOB' if r == 'log' and bad(e) else e) for e, r in zip(exprs, roles)]
        cond = rng.choice(conditions)
        if place == 'method' and cond == 'self':
            cond = 'COND'
        if cond == '':
            cond = None if rng.random() < 0.5 else '  '
        hits = [rng.choice([True, False, 'error', True, False]) for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.4:
            exprs = [spelled(rng) if r != 'log' and rng.random() < 0.7 else e for e, r in zip(exprs, roles)]
            if rng.random() < 0.7:
                cond = rng.choice(['COND is True and (%s)', '(%s) if COND is True else False', 'bool(%s)', '(%s) and COND is True', '[%s][0]']) % spelled(rng).split('#')[0].strip()
                if bad(cond):
                    cond = 'bool(%s\n)' % spelled(rng)
        run_case(check, cases, 'random%d' % n, place, kinds, cond if cond is None or cond.strip() else None, exprs, roles, hits,
                 rng.choice([-1, -1, 1, 2, 3]), extra)
    failing = check.judge('EvalJudge', cases)
    by_id = {c['id']: c for c in cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
    check.notes['hits'] = sum(len(c['hits']) for c in cases)
    for case in cases[-3:]:
        check.sample(case)
    check.assumptions += ['a condition whose value is not a truth value, but could count as true, may accept or reject',
                          'an expression that cannot be compiled fails', 'free variables that the function does not use are not part of its frame']


def R_error(text):
    """The two oracles of this check disagree."""
    from vlib import MachineryError
    return MachineryError(text)


def bad(expr):
    """Does not compile."""
    try:
        compile(expr.strip(), '<x>', 'eval')
        return False
    except SyntaxError:
        return True


def check_cond(value):
    """Condition of a model history."""
    if value == 'error':
        raise LookupError('condition')
    return value


def boom():
    """Fails."""
    raise RuntimeError('boom')


def stop():
    """Fails."""
    raise KeyboardInterrupt('stop')
