"""C15: deferred work (spans, captures) is completed exactly once, in its own thread and invocation."""
import random
import sys
import threading
from collections import Counter

import boot
import progs
import vlib
from recorder import Recorder
from rig import Rig, Tp, compile_module

LOCAL = threading.local()
TOOL = 3


def text_of(value):
    """Type and text of a simple value, as a snapshot shows it."""
    if isinstance(value, (list, tuple, dict, set)):
        return [type(value).__name__, 'Size: %d' % len(value)]
    return [type(value).__name__, str(value)]


class Unwinds:
    """Python itself says how every function ends (sys.monitoring is independent of the trace function)."""

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'verif')

        # called after the trace function
        def note(code, kind, value):
            last = getattr(LOCAL, 'last', None)
            if last is not None and last[1] is code:
                last[0]['out'] = {'k': kind, 'x': text_of(value)}
                LOCAL.last = None

        def unwind(code, offset, exc):
            note(code, 'raised', exc)

        def ends(code, offset, value):
            note(code, 'value', value)
        mon.register_callback(TOOL, mon.events.PY_UNWIND, unwind)
        mon.register_callback(TOOL, mon.events.PY_RETURN, ends)
        mon.register_callback(TOOL, mon.events.PY_YIELD, ends)
        mon.set_events(TOOL, mon.events.PY_UNWIND | mon.events.PY_RETURN | mon.events.PY_YIELD)
        return self

    def __exit__(self, *args):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        for ev in (mon.events.PY_UNWIND, mon.events.PY_RETURN, mon.events.PY_YIELD):
            mon.register_callback(TOOL, ev, None)
        mon.free_tool_id(TOOL)


def capture(record, frame, event, arg):
    """Note what an event ends its function with."""
    record['out'] = {'k': 'none', 'x': []}
    if event == 'return':
        record['out'] = None    # see Unwinds
        LOCAL.last = (record, frame.f_code)
    elif event == 'exception':
        record['out'] = {'k': 'raised', 'x': text_of(arg[1])}


SPECS = {
    'lspan': ('line', {'span': 'line', 'snapshot': 'no_collect'}),
    'lcap': ('line', {'stage': 'line_capture'}),
    'mspan': ('method', {'span': 'method', 'snapshot': 'no_collect'}),
    'mcap': ('method', {'stage': 'method_capture'}),
    # more than one kind of work by one tracepoint
    'mspan+': ('method', {'span': 'method', 'stage': 'method_capture'}),
    'lspan+': ('line', {'span': 'line', 'stage': 'line_capture'}),
}


def tracepoint(tp_id, kind, file, at):
    """A tracepoint without limits."""
    loc, args = SPECS[kind]
    args = dict(args, fire_count='-1', fire_period='0')
    if loc == 'method':
        args['method_name'] = at
    return Tp(tp_id, file, at if loc == 'line' else 1, args), {
        'id': tp_id, 'loc': loc, 'file': file, 'at': at,
        'span': {'mspan': 'mspan', 'mspan+': 'mspan', 'lspan': 'lspan', 'lspan+': 'lspan'}.get(kind),
        'cap': {'mcap': 'mcap', 'mspan+': 'mcap', 'lcap': 'lcap', 'lspan+': 'lcap'}.get(kind)}


class Gate:
    """Interleave threads at the granularity of their trace events: after each event another thread may run."""

    def __init__(self, rng, stay):
        self.rng, self.stay = rng, stay
        self.cond = threading.Condition()
        self.live = []
        self.turn = None
        self.counts = Counter()

    def join(self, name):
        """A thread starts."""
        with self.cond:
            self.live.append(name)
            if self.turn is None:
                self.turn = name

    def leave(self, name):
        """A thread ends."""
        with self.cond:
            self.live.remove(name)
            if self.turn == name:
                self.turn = self.rng.choice(self.live) if self.live else None
            self.cond.notify_all()

    def step(self, name):
        """Called by a thread after each of its events."""
        with self.cond:
            if name not in self.live:
                return
            if self.rng.random() > self.stay:
                self.turn = self.rng.choice(self.live)
                self.cond.notify_all()
            while self.turn != name:
                self.counts['switch'] += 1
                if not self.cond.wait(5):
                    self.turn = name


def case_of(check, ident, rig, rec, desc, cases, until=None):
    """Turn a recorded execution into a case for the judge."""
    events = rec.events
    invs, inv_index = {}, {}
    unknown = [e for e in events if e['out'] is None]
    if unknown:
        raise vlib.MachineryError('no result noted for %r' % unknown[0])
    for e in events:
        invs.setdefault(e['a'], []).append(e)
    opens, comps = [], []
    index = {}

    def opening(tp, kind, e):
        key = (tp, kind, e['i'])
        if key not in index:
            a = e['a']
            if a not in inv_index:
                inv_index[a] = len(inv_index) + 1
            index[key] = len(opens) + 1
            opens.append({'o': len(opens) + 1, 'tp': tp, 'kind': kind, 'i': e['i'], 'inv': inv_index[a], 'th': e['th']})
        return index[key]

    for e in events:
        for d in desc:
            if d['file'] != e['f'] or (until is not None and e['i'] > until):
                continue
            at = (d['loc'] == 'line' and e['k'] == 'line' and e['l'] == d['at']) or \
                 (d['loc'] == 'method' and e['k'] == 'call' and e['n'] == d['at'])
            if at and d['cap']:
                opening(d['id'], d['cap'], e)
    spans = {}
    kinds = {d['id']: d for d in desc}
    for item in rig.effects.items:
        e = events[item['event']] if item['event'] is not None else None
        if item['kind'] == 'span' and e is not None and kinds[item['tp']]['span']:
            spans[item['sid']] = opening(item['tp'], kinds[item['tp']]['span'], e)
            if index.get(('n', item['sid'])) is None:
                index['n', item['sid']] = True
    for item in rig.effects.items:
        at = {'i': item['event'] if item['event'] is not None else -1,
              'th': events[item['event']]['th'] if item['event'] is not None else item.get('name_', '?'), 'caps': []}
        if item['kind'] == 'close':
            comps.append(dict(at, o=spans.get(item['sid'], 0)))
        elif item['kind'] == 'snapshot':
            pb = item['wire']
            if pb is None:
                check.violation('the snapshot cannot be sent', {'case': ident})
                continue
            d = kinds.get(item['tp'])
            o = index.get((item['tp'], d['cap'] if d else None, pb.ts_nanos - 1), 0)
            for watch in pb.watches:
                if watch.source == 3:
                    at['caps'].append(captured(pb, watch))
            comps.append(dict(at, o=o))
    relevant = [None] * len(inv_index)
    for a, n in inv_index.items():
        relevant[n - 1] = [{'i': e['i'], 'k': e['k'], 'out': e['out']} for e in invs[a]]
    cases.append({'id': ident, 'opens': opens, 'comps': comps, 'invs': relevant})
    check.notes['events'] = check.notes.get('events', 0) + len(events)
    check.notes['deferred'] = check.notes.get('deferred', 0) + len(opens)
    check.transitions += len(events)


def captured(pb, watch):
    """What a capture says: candidates of [kind, type, text] (an error is captured as it is, or with type and traceback)."""
    if watch.WhichOneof('result') != 'good_result':
        return [{'k': 'error', 'x': [watch.error_result, '']}]
    kind = {'return': 'value', 'exception': 'raised'}.get(watch.expression, watch.expression)
    var = pb.var_lookup.get(watch.good_result.ID)
    if var is None:
        return [{'k': 'missing', 'x': ['', '']}]
    res = [{'k': kind, 'x': [var.type, var.value]}]
    if kind == 'raised' and var.type == 'tuple':
        for child in var.children:
            if child.name == '1' and child.ID in pb.var_lookup:
                child = pb.var_lookup[child.ID]
                res.append({'k': kind, 'x': [child.type, child.value]})
    return res


def execute(check, ident, tps, desc, bodies, cases, gate=None, runner=None, until=None):
    """Run host threads (name, function) under the recorder, at the same time if there is a gate."""
    rig = Rig(log=False, metrics=0)
    rig.install(tps)
    rec = Recorder(rig, capture=capture)
    listener = rig.effects.listener

    def effect(item):
        listener(item)
        item['name_'] = threading.current_thread().name
        if item['kind'] == 'snapshot':
            snapshot = item['snapshot']
            item['wire'] = rig.wire(snapshot)
    rig.effects.listener = effect
    # the time of a snapshot tells by which event it was opened
    boot.Clock.source = lambda: (getattr(rec.tl, 'current', None) or {'i': -1})['i'] + 1
    if gate is not None:
        rec.after = lambda record, frame, event, arg: gate.step(threading.current_thread().name)
    if until is not None:
        # the tracepoints are removed while the program runs: what was opened is still completed
        def remove(record, frame, event, arg):
            if record['i'] == until:
                rig.install([])
        rec.after = remove
    try:
        with Unwinds():
            if runner is not None:
                runner(rec)
            else:
                threads = []
                start = threading.Barrier(len(bodies)) if gate is not None else None
                for name, func in bodies:
                    threads.append(make_thread(name, func, rec, gate, start))
                    if gate is None:
                        threads[-1].start()
                        threads[-1].join()
                if gate is not None:
                    for t in threads:
                        t.start()
                    for t in threads:
                        t.join(60)
    finally:
        boot.Clock.source = None
    if rec.raised:
        check.violation('the trace function raised', {'case': ident, 'raised': [r[1] for r in rec.raised[:3]]})
    case_of(check, ident, rig, rec, desc, cases, until)
    return rec


def make_thread(name, func, rec, gate, start):
    """A host thread with the recorder as its trace function."""
    def body():
        if gate is not None:
            gate.join(name)
            start.wait()
        sys.settrace(rec)
        try:
            func()
        except BaseException:  # noqa
            pass
        finally:
            sys.settrace(None)
            if gate is not None:
                gate.leave(name)
    thread = threading.Thread(target=body, name=name)
    thread.run = body
    return thread


SCRIPT = '''class Err(Exception):
    pass


def step(s):
    return s.pop(0) if s else 'ret'


def f(s, n):
    while True:
        try:
            op = step(s)
            if op == 'mark':
                n += 1
            elif op == 'call':
                n += f(s, n * 10)
            elif op == 'gen':
                s.gen = g(s, n)
                n += next(s.gen)
            elif op == 'resume':
                n += next(s.gen)
            elif op == 'throw':
                n += s.gen.throw(Err('thrown', n))
            elif op == 'raise':
                raise Err('raised', n)
            else:
                return n
        except (Err, StopIteration) as e:
            if s and s[0] == 'catch':
                s.pop(0)
                n += 100
            else:
                if s and s[0] == 'pass':
                    s.pop(0)
                raise


def g(s, n):
    while True:
        try:
            op = step(s)
            if op == 'mark':
                n += 1
            elif op == 'yield':
                yield n
            elif op == 'call':
                n += f(s, n * 10)
            elif op == 'raise':
                raise Err('raised', n)
            else:
                return
        except Err as e:
            if s and s[0] == 'catch':
                s.pop(0)
                n += 100
            else:
                if s and s[0] == 'pass':
                    s.pop(0)
                raise
'''


class Script(list):
    """A script being executed."""

    gen = None


def script_file():
    """Namespace and marked lines of the script interpreter."""
    ns = compile_module(SCRIPT, '/app/script.py')
    lines = SCRIPT.split('\n')
    marks = [i + 1 for i, t in enumerate(lines) if t.strip() == 'n += 1']
    calls = [i + 1 for i, t in enumerate(lines) if 'f(s, n * 10)' in t or 's.gen' in t]
    raises = [i + 1 for i, t in enumerate(lines) if "raise Err('raised'" in t]
    rets = [i + 1 for i, t in enumerate(lines) if t.strip() in ('return n', 'yield n', 'return', 'raise')]
    return ns, marks, calls, raises, rets


def run(check):
    rng = random.Random(check.seed * 7919 + 15)
    inv = ['Once', 'MovedPast', 'OwnThread', 'OwnInvocation', 'NotAfterReturn', 'TrueResult', 'NothingLeft']
    two = dict(Threads='{"t1", "t2"}', Late='{"t2"}', Ident='[t \\in {"t1", "t2"} |-> 1]', MaxDepth=2, MaxFrames=3, Fault='{}')
    check.model('Deferred', 'thread that reuses an identity', constants=dict(
        two, MaxEvents=check.pick(8, 10), Kinds='{"mcap", "lspan"}'), invariants=inv)
    check.model('Deferred', 'two threads at the same time', constants=dict(
        two, Late='{}', Ident='[t \\in {"t1", "t2"} |-> t]', MaxEvents=check.pick(6, 8), Kinds='{"mcap", "lspan"}'), invariants=inv)
    check.model('Deferred', 'one thread, deeper', constants=dict(
        two, Threads='{"t1"}', Late='{}', Ident='[t \\in {"t1"} |-> 1]', MaxDepth=3, MaxFrames=4,
        MaxEvents=check.pick(9, 11), Kinds='{"mcap", "mspan", "lcap", "lspan"}'), invariants=inv)
    one = dict(two, Threads='{"t1"}', Late='{}', Ident='[t \\in {"t1"} |-> 1]', MaxEvents=8, Kinds='{"mcap", "lspan"}')
    for fault, refuted, const in [
            ('{"name"}', ['OwnInvocation', 'NotAfterReturn', 'TrueResult'], one),
            ('{"caught"}', ['TrueResult'], one),
            ('{"top"}', ['NotAfterReturn', 'NothingLeft', 'OwnInvocation'], one),
            ('{"unwind", "ident", "name"}', ['OwnThread'], dict(two, MaxEvents=8, Kinds='{"mcap", "lspan"}'))]:
        check.model('Deferred', 'faulty: ' + fault, expect=refuted, constants=dict(const, Fault=fault),
                    invariants=['OwnThread'] if 'ident' in fault else inv)

    cases = []
    # every script TLC enumerates, carried out by a real function that interprets it
    scripts = check.generate('DeferredGen', 'host scripts', 'SCRIPT', constraints=['Emit'],
                             constants=dict(MaxOps=check.pick(8, 9), MaxDepth=3), workers=4)
    check.notes['scripts'] = len(scripts)
    if len(scripts) > check.pick(700, 6000):
        scripts = rng.sample(scripts, check.pick(700, 6000))
    ns, marks, calls, raises, rets = script_file()
    sets = []
    for k in range(60):
        tps, desc = [], []
        for j in range(rng.choice([2, 3, 4, 6])):
            kind = rng.choice(['mcap', 'mspan', 'mspan+', 'lcap', 'lspan', 'lspan+'])
            at = rng.choice(['f', 'g', 'f', 'step']) if SPECS[kind][0] == 'method' else \
                rng.choice(rng.choice([marks, calls, raises, rets]))
            tp, d = tracepoint('t%d' % j, kind, 'script.py', at)
            tps.append(tp)
            desc.append(d)
        sets.append((tps, desc))
    for n, script in enumerate(scripts):
        tps, desc = sets[n % len(sets)]
        execute(check, 'script%d' % n, tps, desc, [('T1', lambda: ns['f'](Script(script[1:]), 1))], cases)
    # several scripts at the same time, interleaved at their events, and one after the other
    for n in range(check.pick(150, 1500)):
        tps, desc = sets[rng.randrange(len(sets))]
        count = rng.choice([2, 2, 3])
        chosen = [rng.choice(scripts) for _ in range(count)]
        bodies = [('T%d' % k, lambda s=s: ns['f'](Script(s[1:]), 1)) for k, s in enumerate(chosen)]
        gate = Gate(random.Random(rng.random()), rng.choice([0.3, 0.7, 0.95])) if n % 3 else None
        execute(check, 'threads%d' % n, tps, desc, bodies, cases, gate=gate)
        if gate is not None:
            check.notes['switches'] = check.notes.get('switches', 0) + gate.counts['switch']
    # random programs
    for n in range(check.pick(300, 3000)):
        program = progs.Program(random.Random(rng.random()), funcs=rng.randint(3, 9), size=9)
        x = rng.randint(0, 7)
        lines, funcs = program.executed(x)
        if not lines or not funcs:
            continue
        tps, desc = [], []
        for j in range(rng.choice([1, 2, 4, 6])):
            kind = rng.choice(sorted(SPECS))
            file, at = rng.choice(funcs if SPECS[kind][0] == 'method' else lines)
            if at == 'spawn' or file == 'prelude_host.py':
                continue
            tp, d = tracepoint('t%d' % j, kind, file, at)
            tps.append(tp)
            desc.append(d)
        pns, log = program.load()
        main = program.entry(pns, log, x)
        execute(check, 'prog%d' % n, tps, desc, None, cases, runner=lambda rec: rec.run(main),
                until=rng.randint(2, 60) if rng.random() < 0.3 else None)
    names = {c['id']: c for c in cases}
    failing = check.judge('DeferredJudge', cases)
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, names[case_id] if len(names[case_id]['invs']) < 30 else {'case': case_id})
    for case in cases[3:9:2]:
        check.sample(case)
    check.assumptions += [
        'the result of a function is taken from sys.monitoring (CPython 3.12), independently of the trace function',
        'a generator that is resumed begins a new invocation and every yield ends one, as Python delivers call and return',
        'work pending when the agent is shut down is not judged']
