"""C03: actions fire at exactly the configured locations."""
import random
from collections import Counter

import progs
from recorder import Recorder
from rig import Rig, Tp

KINDSETS = [('snapshot',), ('log',), ('metric',), ('span',), ('snapshot', 'log', 'metric', 'span'), ('log', 'metric'),
            ('snapshot', 'span')]


def tracepoint(tp_id, loc, file, line, func, kinds, rng=None, stage=None):
    """A tracepoint without limits, with its abstract description."""
    args = {'fire_count': '-1', 'fire_period': '0'}
    metrics = []
    if 'snapshot' not in kinds:
        args['snapshot'] = 'no_collect'
    if 'log' in kinds:
        args['log_msg'] = 'at ' + tp_id
    if 'metric' in kinds:
        metrics = [dict(name=tp_id + '.m')]
    if loc == 'method':
        args['method_name'] = func
        if 'span' in kinds:
            args['span'] = 'method'
    elif 'span' in kinds:
        args['span'] = 'line'
    if stage:
        args['stage'] = stage
    return (Tp(tp_id, file, line if loc == 'line' else (line or 1), args, metrics=metrics),
            {'id': tp_id, 'loc': loc, 'file': file, 'line': line or 0, 'func': func or '', 'kinds': list(kinds)})


def owner(item):
    """The tracepoint that acted (a log line names it in its text, whatever it is labelled with)."""
    return item['msg'].split()[-1] if item['kind'] == 'log' else item['tp']


def observe(check, ident, program, tps, desc, cases, x=3, then=None):
    """Run a program under the recorder, add a case; then = (event number, tps, desc): other tracepoints from there."""
    rig = Rig()
    # some of them can be registered in code
    rig.install(tps, alone=len(ident) * 7 % (len(tps) + 1))
    ns, log = program.load()
    rec = Recorder(rig)
    if then is not None:
        def swap(record, frame, event, arg):
            if record['i'] == then[0]:
                rig.install(then[1], alone=len(then[1]) // 2)
        rec.after = swap
    rec.run(program.entry(ns, log, x))
    stray = [i for i in rig.effects.items if i['event'] is None and i['kind'] != 'close']
    if stray:
        check.violation('the agent acted outside of any event', {'case': ident, 'acts': [str(s) for s in stray[:3]]})
    if rec.raised:
        check.violation('the trace function raised', {'case': ident, 'raised': [r[1] for r in rec.raised[:3]]})
    parts = [(ident, desc, rec.events)]
    if then is not None:
        parts = [(ident + '-before', desc, rec.events[:then[0] + 1]), (ident + '-after', then[2], rec.events[then[0] + 1:])]
    for name, tpset, part in parts:
        distinct = Counter()
        for e in part:
            acts = Counter((owner(a), a['kind']) for a in e['acts'] if a['kind'] != 'close')
            distinct[(e['k'], e['f'], e['l'], e['n'], tuple(sorted((tp, kind, n) for (tp, kind), n in acts.items())))] += 1
        cases.append({'id': name, 'tps': tpset, 'events': [
            {'k': k, 'f': f, 'l': l, 'n': n, 'acts': [list(a) for a in acts]} for (k, f, l, n, acts) in distinct]})
    check.transitions += len(rec.events)
    check.notes['events'] = check.notes.get('events', 0) + len(rec.events)
    check.notes['actions'] = check.notes.get('actions', 0) + sum(len(e['acts']) for e in rec.events)
    return rec


class Fixed:
    """A fixed small program with everything that delivers events, for the generated sets."""

    A = '''class K:
    def f(self, v):
        return v + 1


def f(v):
    k = K()
    try:
        h(v)
    except ValueError:
        v = 0
    for w in g(v):
        v += w
    return k.f(v)


def g(v):
    yield v
    yield v


def h(v):
    if v:
        raise ValueError(v)
'''
    B = '''import threading


def f(v):
    return [h(x) for x in range(2)]


def h(x):
    t = threading.Thread(target=lambda: f2(x))
    t.start()
    t.join()
    return x


def f2(x):
    return (lambda q:
            q + 1)(x)
'''

    def load(self):
        """Compile."""
        ns = {'__name__': 'fixed_a'}
        nb = {'__name__': 'fixed_b'}
        exec(compile(self.A, '/srv/x/fixa.py', 'exec'), ns)
        exec(compile(self.B, '/srv/y/fixb.py', 'exec'), nb)
        return (ns, nb), []

    def entry(self, ns, log, x):
        """Entry."""
        def main():
            for v in (0, 1):
                ns[0]['f'](v)
                ns[1]['f'](v)
        return main

    GRID = ([('line', 'fixa.py', n, None) for n in (2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 18, 19, 23, 24, 20, 1)]
            + [('line', 'fixb.py', n, None) for n in (4, 5, 9, 12, 16, 17, 3)]
            + [('method', 'fixa.py', None, n) for n in ('f', 'g', 'h')]
            + [('method', 'fixb.py', None, n) for n in ('f', 'h', 'f2', '<lambda>', 'g')]
            + [('line', 'fixc.py', 7, None), ('method', 'fix.py', None, 'f'), ('line', 'a.py', 3, None),
               ('line', 'x/fixa.py', 3, None)])


def near(name):
    """Names that are not this name, but nearly."""
    stem, dot, end = name.partition('.')
    names = [name.upper(), name.capitalize(), name.swapcase(), stem, name + 'c', name[1:], 'x' + name, name[:-1], '.*', '*', stem + '*', name + ' ',
             ' ' + name, name.replace('.', 'x'), name.replace('.', '_'), stem + dot + end.upper(), './' + name, '/' + name, name + '/', '_' + name,
             name + name, name.replace('a', '[a]'), name.replace('a', '\u0430'), name + '\n', name + '\0']
    return [n for n in names if n != name]


def choose(rng, program, count, x, prefix='t'):
    """Random tracepoints for a program."""
    lines, funcs = program.executed(x)
    if rng.random() < 0.3 or not lines:
        lines, funcs = program.locations()
    tps, desc = [], []
    previous = None
    for k in range(count):
        kinds = rng.choice(KINDSETS)
        if previous is not None and rng.random() < 0.35:
            loc, file, line, func = previous
        elif rng.random() < 0.6:
            file, line = rng.choice(lines)
            loc, func = 'line', None
            if rng.random() < 0.1:
                line += rng.choice([-1, 1, 500])
            if rng.random() < 0.2:
                file = rng.choice(near(file) + ['pc.py', 'app/' + file])
        else:
            file, func = rng.choice(funcs)
            loc, line = 'method', None
            if rng.random() < 0.15:
                func = rng.choice(['<lambda>', 'nothere', 'inner', 'helper', '<listcomp>', 'f', 'f0 '])
            elif rng.random() < 0.15:
                func = rng.choice(near(func))
            elif rng.random() < 0.15:
                file = rng.choice(near(file))
        previous = (loc, file, line, func)
        stage = None
        if rng.random() < 0.3:
            stage = rng.choice(['line_start', 'line_end'] if loc == 'line' else ['method_start', 'method_end'])
        tp, d = tracepoint('%s%d' % (prefix, k), loc, file, line, func, kinds, stage=stage)
        tps.append(tp)
        desc.append(d)
    return tps, desc


def run(check):
    rng = random.Random(check.seed * 104729 + 3)
    const = dict(Files='{"a", "b"}', Lines='{1, 2}', Funcs='{"f", "g"}', Ids='{"t1", "t2"}', MaxStack=check.pick(2, 3), Fault='"none"')
    inv = ['ActsExactlyWhenReached', 'OnlyLineAndCall', 'Independent', 'NothingWithoutTracepoints']
    check.model('Placement', '2 tracepoints, 2 files, 2 lines, 2 functions', constants=const, invariants=inv)
    small = dict(const, Files='{"a"}')
    for fault, refuted in [('replace', ['ActsExactlyWhenReached', 'Independent']),
                           ('anyevent', ['ActsExactlyWhenReached', 'OnlyLineAndCall', 'Independent']),
                           ('funcline', ['ActsExactlyWhenReached', 'Independent'])]:
        check.model('Placement', 'faulty: ' + fault, expect=refuted, constants=dict(small, Fault='"%s"' % fault),
                    invariants=inv)

    cases = []
    # every set of locations TLC enumerates, on a fixed program
    fixed = Fixed()
    picks = check.generate('PlacementGen', 'sets of locations', 'PICK', constraints=['Emit'],
                           constants=dict(Grid=len(Fixed.GRID), MaxTps=2))
    if not check.thorough:
        singles = [p for p in picks if len(p) < 2]
        pairs = [p for p in picks if len(p) == 2]
        picks = singles + [p for p in pairs if p[0] == p[1]] + rng.sample(pairs, 150)
    for n, pick in enumerate(picks):
        tps, desc = [], []
        for k, g in enumerate(pick):
            loc, file, line, func = Fixed.GRID[g - 1]
            kinds = KINDSETS[(n + k) % len(KINDSETS)]
            tp, d = tracepoint('t%d' % k, loc, file, line, func, kinds)
            tps.append(tp)
            desc.append(d)
        observe(check, 'set-' + '-'.join(map(str, pick)), fixed, tps, desc, cases)

    # random programs with random tracepoints
    acted = 0
    for n in range(check.pick(250, 3000)):
        files = rng.choice([('/app/pa.py', '/app/lib/pb.py'), ('/app/pa.py', '/app/lib/pa.py'), ('/app/only.py',),
                            ('/app/pa.py', '/app/xpa.py'), ('/app/utils.py', '/app/trigger_handler.py'),
                            ('/srv/__init__.py', '/srv/sub/__init__.py'), ('/app/pa.py', '/app/Pa.py'), ('/app/pa.py', '/app/pa.PY'),
                            ('/app/caf\u00e9.py', '/app/cafe\u0301.py'), ('/app/pa.py', '/app/p\u0430.py'), ('/app/pa.py/pb.py', '/app/pb.py/pa.py'),
                            ('/app/pa.py', '/app/pa.pyx'), ('pa.py', './sub/pb.py'), ('<pa>', '<string>')])
        program = progs.Program(random.Random(rng.random()), files=files, funcs=rng.randint(3, 9), size=9)
        x = rng.randint(0, 7)
        tps, desc = choose(rng, program, rng.choice([0, 1, 2, 3, 5, 8]), x)
        then = None
        if tps and rng.random() < 0.3:
            # the tracepoints are replaced while the program runs
            more, more_desc = choose(rng, program, rng.choice([1, 2, 4]), x, prefix='u')
            if rng.random() < 0.5:
                more, more_desc = more + tps[:1], more_desc + desc[:1]
            then = (rng.randint(3, 60), more, more_desc)
        rec = observe(check, 'prog%d' % n, program, tps, desc, cases, x=x, then=then)
        acted += any(e['acts'] for e in rec.events)
    check.notes['programs_with_actions'] = acted

    failing = check.judge('PlacementJudge', cases)
    for case in cases:
        for clause in failing.get(case['id'], ()):
            bad = case
            check.violation(clause, {'case': case['id'], 'tracepoints': case['tps'], 'events': [
                e for e in bad['events'] if e['acts']][:12]})
    check.sample({'tracepoints': cases[5]['tps'], 'events': cases[5]['events'][:10]})
    check.sample({'tracepoints': cases[-1]['tps'], 'events': cases[-1]['events'][:10]})
    native(check, rng)
    check.assumptions += ['files are told apart by their base name, as the statement says ("a source file with that name")',
                          'frames entered before any tracepoint was installed are outside the quantifier']


def native(check, rng):
    """The same through the real hooks (sys.settrace/threading.settrace installed by the agent)."""
    import sys
    import threading
    cases = []
    for n in range(check.pick(40, 300)):
        program = progs.Program(random.Random(rng.random()), funcs=rng.randint(3, 8), size=8)
        lines, funcs = program.executed()
        picks = [rng.choice(lines), rng.choice(lines), rng.choice(funcs)]
        counts = Counter()

        def reference(frame, event, arg):
            import os
            if event == 'line':
                counts[(os.path.basename(frame.f_code.co_filename), frame.f_lineno)] += 1
            elif event == 'call':
                counts[(os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)] += 1
            return reference

        def go(trace, start=None):
            ns, log = program.load()
            main = program.entry(ns, log, 3)

            def body():
                if start:
                    start()
                else:
                    sys.settrace(trace)
                    threading.settrace(trace)
                try:
                    main()
                finally:
                    if start:
                        rig.handler.shutdown()
                    sys.settrace(None)
                    threading.settrace(None)
            t = threading.Thread(target=body)
            t.start()
            t.join()
            return log.data

        go(reference)
        rig = Rig()
        tps, desc = [], []
        for k, (file, at) in enumerate(picks):
            tp, d = tracepoint('t%d' % k, 'line' if isinstance(at, int) else 'method', file,
                               at if isinstance(at, int) else None, at, KINDSETS[k % 3])
            tps.append(tp)
            desc.append(d)
        rig.install(tps)
        go(None, rig.handler.start)
        got = Counter((owner(i), i['kind']) for i in rig.effects.items if i['kind'] != 'close')
        for k, (file, line) in enumerate(picks):
            want = counts[(file, line)]
            for kind in KINDSETS[k % 3]:
                cases.append((want, got['t%d' % k, kind]))
                check.notes['native_hits'] = check.notes.get('native_hits', 0) + want
                if got['t%d' % k, kind] != want:
                    check.violation('number of actions under the real hooks', {
                        'at': [file, line], 'executed': want, 'acted': got['t%d' % k, kind],
                        'program': program.fingerprint})
    check.traces += len(cases)
