"""C01: the host program does the same with and without the agent, whatever fails in the agent."""
import faults  # noqa

faults.install()  # before the agent is imported

import decimal  # noqa
import gc  # noqa
import json  # noqa
import locale  # noqa
import logging  # noqa
import os  # noqa
import random  # noqa
import resource  # noqa
import signal  # noqa
import socket  # noqa
import subprocess  # noqa
import sys  # noqa
import threading  # noqa
import time  # noqa
import warnings  # noqa

from opentelemetry import trace  # noqa
from opentelemetry.sdk.trace import TracerProvider  # noqa
from opentelemetry.sdk.trace.id_generator import IdGenerator  # noqa

import hosts  # noqa
import progs  # noqa
import rig as R  # noqa
import boot  # noqa
from deep.api.deep import Deep  # noqa
from deep.api.plugin.otel import OTelPlugin  # noqa
from deep.config import ConfigService  # noqa
from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType  # noqa
from faults import Faults  # noqa
from net import FakeError, Net, bounded, wait_for  # noqa
from vlib import MachineryError  # noqa

STAGES = ['context', 'callbacks', 'match', 'enter', 'decide', 'evaluate', 'process', 'plugin', 'exit', 'register']
KINDS = ['snapshot', 'frames', 'capture', 'log', 'metric', 'module', 'span line', 'span method', 'method', 'method capture', 'several', 'all']
TROUBLES = ['none', 'unknown names', 'no expressions', 'exits', 'hostile values', 'template', 'arguments', 'plugins', 'push', 'logging', 'config']
FREE = {'fire_count': '-1', 'fire_period': '0'}


class Ids(IdGenerator):
    """The application chooses the ids of its spans (those of the library are from the random numbers that the application uses)."""

    def generate_span_id(self):
        """Another id."""
        return int.from_bytes(os.urandom(8), 'big') or 1

    def generate_trace_id(self):
        """Another id."""
        return int.from_bytes(os.urandom(16), 'big') or 1


class Odd(BaseException):
    """No Exception."""


class NoText(Exception):
    """Has no text."""

    def __str__(self):
        raise Odd('no text')

    __repr__ = __str__


ERRORS = [lambda: RuntimeError('boom'), lambda: KeyboardInterrupt(), lambda: SystemExit(2), lambda: MemoryError(), lambda: RecursionError('deep'),
          lambda: StopIteration(1), lambda: GeneratorExit(), lambda: Odd('odd'), lambda: NoText(), lambda: OSError(28, 'no space'),
          lambda: AttributeError('gone'), lambda: KeyError('key'), lambda: UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'no')]

EXPRESSIONS = {
    'none': ['x', 'len(str(1))', 'st["n"]', '[v for v in (1, 2)]', '{"a": x}', 'out', 'st'],
    'unknown names': ['nowhere', 'st.nothing', 'st["nothing"]', '(1, 2)[99]', 'len(5)', 'int("q")'],
    'no expressions': ['', ' ', 'x +', '(', 'x = 1', 'import os', '\x00', 'lambda', '"' * 3, '1' * 5000, '(' * 300, 'yield', 'await x', '\ud800', '\n', '\\'],
    'exits': ['(_ for _ in ()).throw(SystemExit(1))', '(_ for _ in ()).throw(KeyboardInterrupt())', '(_ for _ in ()).throw(GeneratorExit())',
              '(lambda f: f(f))(lambda f: f(f))', '1 / 0', '(_ for _ in ()).throw(StopIteration(1))', '(_ for _ in ()).throw(BaseException())', 'next(iter(()))'],
    'hostile values': ['st["hostile"]', 'st["hostile"][0]', 'st["hostile"][1]', 'st["hostile"][2]', '{"k": st["hostile"]}', '(st["hostile"],)', 'st'],
}
TEMPLATES = ['{', '}', '{}', '{0}', '{x!q}', '{x:>z}', '{x', '{x.y[}', '{{}', '{x!r:{nothing}}', '{' * 50, 'a {x} {y} {', '{!r}', '{x:1000}', '%s %d %', '{st}']
GARBAGE = [{'fire_count': 'many'}, {'fire_period': 'soon'}, {'frame_type': 'odd'}, {'stack_type': 'odd'}, {'stage': 'odd'}, {'span': 'odd'}, {'snapshot': 'odd'},
           {'method_name': ''}, {'target': 'odd'}, {'window_start': 'a', 'window_end': 'b'}, {'fire_count': '9' * 400}, {'fire_period': '-5'}, {'': ''},
           {'condition': ''}, {'log_msg': ''}, {'line_number': 'x'}, {'MAX_COLLECTION_SIZE': 'x', 'MAX_VAR_DEPTH': '-1'}, {'stage': 'line_end', 'snapshot': 'no_collect'}]


def tracepoints(host, i, kind, trouble, rng):
    """The tracepoints of an operation."""
    names = EXPRESSIONS.get(trouble, EXPRESSIONS['none'])
    some = lambda: rng.choice(names)  # noqa
    line, name, ident = host.line(i), host.name(i), 't%d' % i
    count = [0]

    def tp(at=line, watches=(), metrics=(), **args):
        full = dict(FREE)
        full.update({k: v for k, v in args.items() if v is not None})
        if trouble == 'arguments':
            full.update(rng.choice(GARBAGE))
        if trouble != 'none' and rng.random() < 0.3 or rng.random() < 0.1:
            # (the truth and the number of a value are asked for, so these are ordinary ones)
            full.setdefault('condition', rng.choice([n for n in names if n != 'x']))
        count[0] += 1
        return R.Tp('%s_%d' % (ident, count[0]), 'host01.py', at, full, watches=[w for w in watches if '\ud800' not in w],
                    metrics=metrics)

    def message():
        if trouble == 'template':
            return rng.choice(TEMPLATES)
        return 'at {%s} and {%s}' % (some().replace('\ud800', '?'), some().replace('\ud800', '?'))

    def metrics():
        return [R.metric('m%d' % n, rng.choice(['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']), labels=[
            ('a', 'static', 1), ('b', 'expression', some().replace('\ud800', '?'))], expression=rng.choice([None, some().replace('\ud800', '?').replace('x', '1') if trouble == 'none' else some().replace('\ud800', '?')]))
            for n in range(2)]

    def watches():
        return [some() for _ in range(2)]
    method = {'method_name': name}
    made = {
        'snapshot': lambda: [tp(watches=watches())],
        'frames': lambda: [tp(watches=watches(), frame_type='all_frame', stack_type='stack')],
        'capture': lambda: [tp(watches=watches(), stage='line_capture')],
        'log': lambda: [tp(log_msg=message(), snapshot=rng.choice([None, 'no_collect']))],
        'metric': lambda: [tp(metrics=metrics(), snapshot='no_collect')],
        'span line': lambda: [tp(span='line', snapshot='no_collect')],
        'module': lambda: [tp(at=n, watches=['1', 'a'], log_msg=message()) for n in (1, 2, 4, 6)],
        'span method': lambda: [tp(span='method', watches=watches(), **method)],
        'method': lambda: [tp(at=0, watches=watches(), log_msg=message(), **method)],
        'method capture': lambda: [tp(at=0, stage='method_capture', watches=watches(), metrics=metrics(), **method)],
        'several': lambda: [tp(watches=watches()), tp(log_msg=message()), tp(metrics=metrics()), tp(stage='line_capture')],
        'all': lambda: [tp(log_msg=message(), watches=watches(), metrics=metrics(), span='line', stage='line_capture', frame_type='all_frame'),
                        tp(at=0, log_msg=message(), watches=watches(), metrics=metrics(), span='method', stage='method_capture', **method)],
    }
    result = made[kind]()
    for one in result:
        one.args = {k.replace('\ud800', '?'): v.replace('\ud800', '?') for k, v in one.args.items()}
    return result


# ---- an agent -------------------------------------------------------------------------------------------------------------
class Failing(logging.Handler):
    """Fails for everything that is logged."""

    def __init__(self, error):
        super().__init__(logging.DEBUG)
        self.error = error

    def emit(self, record):
        """Fail."""
        raise self.error

    def handle(self, record):
        """Fail."""
        raise self.error


def raising(base, error, names):
    """An instance of a plugin whose methods raise."""
    def method(self, *args, **kwargs):
        raise error
    cls = type('Raising' + base.__name__, (base,), {name: method for name in names})
    return cls


class Agent:
    """A trigger handler with what is wrong with it."""

    def __init__(self, tps, trouble, rng, otel=False):
        self.trouble = trouble
        error = self.error = rng.choice(ERRORS)()
        config, plugins = {}, None
        if trouble == 'config':
            def fails():
                raise error
            for key in rng.sample(['APP_ROOT', 'IN_APP_INCLUDE', 'IN_APP_EXCLUDE', 'SERVICE_URL', 'LOGGING_CONF'], 3):
                config[key] = rng.choice([fails, 5, object(), [object()], fails])
        self.rig = R.Rig(plugins=plugins, config=config, metrics=1, spans=1)
        self.extra = []
        if trouble == 'plugins':
            made = [raising(R.RecordingLogger, error, ['log_tracepoint']), raising(R.RecordingMetrics, error, ['counter', 'gauge', 'histogram', 'summary']),
                    raising(R.RecordingSpans, error, rng.choice([['create_span'], ['current_span'], ['create_span', 'current_span']])),
                    raising(R.SnapshotDecorator, error, ['decorate'])]
            plugins = [R.plugin(cls, self.rig.effects, cls.__name__) for cls in made]
            if rng.random() < 0.5:
                spans = R.plugin(R.RecordingSpans, self.rig.effects, 'closes')
                spans.create_span = lambda name, ctx, tp: raising(R.RecordingSpan, error, ['close', 'name', 'add_attribute'])(self.rig.effects, name, tp, ctx, 0)
                plugins.append(spans)
            rng.shuffle(plugins)
            self.rig.config.plugins = plugins
        elif otel:
            # (the spans are those of opentelemetry)
            spans = OTelPlugin(None, self.rig.config)
            self.rig.config.plugins = [spans if isinstance(p, R.RecordingSpans) else p for p in self.rig.config.plugins]
        if trouble == 'push':
            keep = self.rig.push.push_snapshot

            def push(snapshot):
                keep(snapshot)
                raise error
            self.rig.push.push_snapshot = push
        self.rig.install(tps)

    def __enter__(self):
        if self.trouble == 'logging':
            logger = logging.getLogger('deep')
            self.level = logger.level
            logger.setLevel(logging.DEBUG)
            handler = Failing(self.error)
            logger.addHandler(handler)
            self.extra.append((logger, handler))
        return self

    def __exit__(self, *args):
        for logger, handler in self.extra:
            logger.removeHandler(handler)
            logger.setLevel(self.level)

    def probed(self):
        """Did it still collect."""
        return any(e['tp'] == 'probe' for e in list(self.rig.effects.items))




def probe_tp(host):
    """The tracepoint that is looked at afterwards."""
    return R.Tp('probe', 'host01.py', host.probe, dict(FREE))


def case_of(cases, plain, agent, later='', raised=''):
    """Another case."""
    cases.append({'id': len(cases), 'plain': {k: plain[k] for k in ('result', 'error', 'logs', 'final')},
                  'agent': {k: agent[k] for k in ('result', 'error', 'logs', 'final')}, 'traced': agent['traced'],
                  'hung': agent['hung'] or plain['hung'], 'later': later, 'raised': raised})


# ---- programs of operations -----------------------------------------------------------------------------------------------
def operations(check, cases, about, rng):
    """Every operation with every kind of tracepoint and everything that can be wrong, several in a program."""
    sets = {}
    for one in check.found:
        sets.setdefault(one['trouble'], []).append((one['ops'][0], one['kind']))
    count = 0
    # (every worker has a part of them)
    for trouble, pairs in sorted(sets.items()):
        for at in range(0, len(pairs), 8):
            if check.late():
                break
            part = pairs[at:at + 8]
            one_program(cases, about, [p[0] for p in part], [p[1] for p in part], trouble, rng.randrange(10 ** 6), rng)
            count += 1
    for _ in check.share(40, 12000):
        if check.late():
            break
        size = rng.randint(2, 10)
        one_program(cases, about, [rng.choice(list(hosts.OPS)) for _ in range(size)], [rng.choice(KINDS) for _ in range(size)],
                    rng.choice(TROUBLES), rng.randrange(10 ** 6), rng)
        count += 1
    check.notes['programs_of_operations'] = count
    check.notes['operations_known'] = len(hosts.OPS)


def one_program(cases, about, ops, kinds, trouble, seed, rng):
    """One program without and with the agent."""
    host = hosts.Host(ops, seed)
    plain = host.run()
    if plain['error'] or plain['hung']:
        raise MachineryError('the program itself fails: %s %s' % (ops, plain))
    tps = [tp for i, kind in enumerate(kinds) for tp in tracepoints(host, i, kind, trouble, rng)] + [probe_tp(host)]
    with Agent(tps, trouble, rng, otel=seed % 3 != 0) as agent:
        seen = host.run(agent.rig.handler.trace_call)
    later = '' if trouble == 'config' else 'yes' if agent.probed() else 'no'
    about[len(cases)] = {'ops': ops, 'kinds': kinds, 'trouble': trouble, 'seed': seed, 'error': repr(type(agent.error)),
                         'tracepoints': [(tp.id, tp.line, tp.args, tp.watches, [str(m) for m in tp.metrics]) for tp in tps][:12]}
    case_of(cases, plain, seen, later)


# ---- random programs --------------------------------------------------------------------------------------------------------
def random_programs(check, cases, about, rng):
    """Random programs with tracepoints everywhere."""
    count = 0
    for _ in check.share(400, 24000):
        if check.late():
            break
        program = progs.Program(rng, funcs=rng.randint(3, 7), size=rng.randint(4, 9))
        lines, funcs = program.executed()
        if not lines:
            continue
        trouble = rng.choice(TROUBLES)
        names = EXPRESSIONS.get(trouble, ['x', 'acc', 'len(acc)', 'depth + 1', 'y', 'out'])
        tps = []
        for n in range(rng.randint(1, 8)):
            some = lambda: rng.choice(names).replace('\ud800', '?')  # noqa
            args = dict(FREE)
            for key, values in (('condition', [some()]), ('log_msg', ['{%s}' % some(), rng.choice(TEMPLATES)]), ('span', ['line', 'method']), ('frame_type', ['all_frame']),
                                ('stage', ['line_start', 'line_end', 'line_capture', 'method_start', 'method_end', 'method_capture', 'odd']), ('snapshot', ['no_collect'])):
                if rng.random() < 0.3:
                    args[key] = rng.choice(values)
            if trouble == 'arguments' and rng.random() < 0.5:
                args.update(rng.choice(GARBAGE))
            if rng.random() < 0.4 and funcs:
                path, args['method_name'] = rng.choice(funcs)
                line = 0
            else:
                path, line = rng.choice(lines)
            path = os.path.basename(path)
            tps.append(R.Tp('r%d' % n, path, line, args, watches=[some() for _ in range(rng.randint(0, 2))],
                            metrics=[R.metric('m', labels=[('l', 'expression', some())])] if rng.random() < 0.3 else []))
        x = rng.randint(0, 6)
        plain = drive(program, x, None)
        with Agent(tps, trouble, rng) as agent:
            seen = drive(program, x, agent.rig.handler.trace_call)
        about[len(cases)] = {'program': program.fingerprint.split('\n'), 'trouble': trouble, 'error': repr(type(agent.error)), 'x': x,
                             'tracepoints': [(tp.id, tp.path, tp.line, tp.args, tp.watches) for tp in tps]}
        case_of(cases, plain, seen)
        count += 1
    check.notes['random_programs'] = count


def drive(program, x, trace):
    """Run a random program."""
    ns, log = program.load()
    main = program.entry(ns, log, x)
    box = {'result': '', 'error': '', 'traced': True, 'hung': False, 'final': ''}

    def body():
        if trace is not None:
            threading.settrace(trace)
            sys.settrace(trace)
        try:
            main()
        except BaseException as e:  # noqa
            box['error'] = type(e).__name__
        finally:
            box['traced'] = sys.gettrace() == trace
            sys.settrace(None)
            threading.settrace(None)
    thread = threading.Thread(target=body, name='main', daemon=True)
    thread.start()
    thread.join(60)
    box['hung'] = thread.is_alive()
    threading.settrace(None)
    box['logs'] = [{'thread': k, 'items': [hosts.show(i) for i in v]} for k, v in sorted(log.data.items())]
    return box


# ---- a failure at every point of the agent ----------------------------------------------------------------------------------
def everything(host, rng):
    """Tracepoints that use all of the agent."""
    made = []
    for i in range(len(host.ops)):
        made += tracepoints(host, i, 'all', 'none', rng) + tracepoints(host, i, 'several', 'none', rng) + tracepoints(host, i, 'method', 'none', rng)
        for n, tp in enumerate(made):
            tp.id = 'e%d' % n
            if n % 3 == 0:
                tp.args.setdefault('condition', '1 == 1')
            if n % 4 == 0:
                tp.args.update(fire_count='3', fire_period='0')
    return made


class Decorates(R.SnapshotDecorator):
    """Adds attributes."""

    def decorate(self, snapshot_id, context):
        """Attributes."""
        return R.BoundedAttributes(attributes={'by': 'decorator'})


def sweep(check, cases, about, rng):
    """Fail at each statement of the agent that runs in the threads of the host."""
    ops = ['raises', 'gen', 'recurse', 'call', 'mutates']
    random.Random(check.seed).shuffle(ops)
    ops = ops[:check.pick(2, 5)]
    host = hosts.Host(ops, 7)
    plain = host.run()
    tps = everything(host, random.Random(check.seed)) + [probe_tp(host)]

    def one(before, logs, finish=True):
        with Agent(tps, 'logging' if logs else 'none', rng) as agent:
            agent.rig.config.plugins = list(agent.rig.config.plugins) + [Decorates('decorates', None)]
            before(faults.code_of(agent.rig.handler.trace_call))
            # (the handler keeps what is deferred per thread, so the probe runs in the same thread)
            seen = host.run(agent.rig.handler.trace_call, starts=lambda: setattr(Faults, 'threads', {threading.get_ident()}), probing=Faults.off)
            Faults.off()
        return seen, 'yes' if agent.probed() else 'no'
    rng = random.Random(check.seed)  # (the same points in every worker)
    seen, later = one(Faults.count, False)
    counts = dict(Faults.counts)
    case_of(cases, plain, seen, later)
    about[len(cases) - 1] = {'ops': ops, 'sweep': 'none fails'}
    rng2 = random.Random(check.seed * 1000 + check.number)
    fired = 0
    rounds = check.pick(1, 4)
    todo = []
    for number, times in sorted(counts.items()):
        todo.append((number, 1))
        for _ in range(rounds):
            if times > 1:
                todo.append((number, rng.randint(2, times)))
    for number, nth in check.mine(todo):
        if check.late():
            break
        error = rng2.choice(ERRORS)()
        logs = rng2.random() < 0.25
        seen, later = one(lambda entry: Faults.fire(entry, number, nth, error), logs)
        fired += Faults.fired
        about[len(cases)] = {'ops': ops, 'fails at': '%s:%s' % Faults.sites[number], 'occurrence': nth, 'error': type(error).__name__, 'logging fails': logs}
        case_of(cases, plain, seen, later)
    # a failure in one event of a function: the next event of the same invocation is still handled
    last = rng2.choice(ops)
    host = hosts.Host([last], 7)
    plain = host.run()
    tps = [R.Tp('before', 'host01.py', 0, dict(FREE, method_name='probe', log_msg='{st["n"]}', span='method', stage='method_capture'), watches=['st["n"]']),
           R.Tp('first', 'host01.py', host.probe - 1, dict(FREE, stage='line_capture', log_msg='{1}', span='line')), probe_tp(host)]
    for event in ('call', 'line'):
        def gated(before):
            with Agent(tps, 'none', rng) as agent:
                before(faults.code_of(agent.rig.handler.trace_call))
                seen = host.run(agent.rig.handler.trace_call, starts=lambda: setattr(Faults, 'threads', {threading.get_ident()}))
                Faults.off()
            return seen, 'yes' if any(e['tp'] == 'probe' and e['kind'] == 'snapshot' for e in agent.rig.effects.items) else 'no'
        gate = ('probe', event) if event == 'call' else ('probe', event, host.probe - 1)
        seen, later = gated(lambda entry: Faults.count(entry, gate))
        for number in check.mine(sorted(Faults.counts)):
            error = rng2.choice(ERRORS)()
            seen, later = gated(lambda entry: Faults.fire(entry, number, 1, error, gate))
            fired += Faults.fired
            about[len(cases)] = {'fails at': '%s:%s' % Faults.sites[number], 'in the event': event, 'error': type(error).__name__}
            case_of(cases, plain, seen, later)
    check.notes.update(points_of_failure=len(counts), failures_injected=fired)
    if len(counts) < 60:
        raise MachineryError('only %d points of failure' % len(counts))


# ---- the handler called directly ------------------------------------------------------------------------------------------------
def direct(check, cases, about, rng):
    """Every event of a program, and events that do not occur, given to the handler by hand."""
    for _ in check.share(60, 2000):
        ops = [rng.choice([o for o in hosts.OPS if o != 'deep']) for _ in range(3)]
        host = hosts.Host(ops, 3)
        trouble = rng.choice(TROUBLES)
        tps = [tp for i in range(3) for tp in tracepoints(host, i, rng.choice(KINDS), trouble, rng)]
        raised = []
        plain = host.run()
        with Agent(tps, trouble, rng) as agent:
            handler = agent.rig.handler

            def tracer(frame, event, arg):
                try:
                    handler.trace_call(frame, event, arg)
                    if rng.random() < 0.02:
                        handler.trace_call(frame, rng.choice(['opcode', 'c_call', 'c_return', 'odd', 'return', 'exception', 'line', '']), rng.choice(
                            [None, (1,), 5, (ValueError, None, None), (None, None, None), object()]))
                except BaseException as e:  # noqa
                    raised.append('%s' % type(e).__name__)
                frame.f_trace_opcodes = opcodes
                return tracer
            opcodes = rng.random() < 0.1
            seen = host.run(tracer)
        about[len(cases)] = {'ops': ops, 'direct': True, 'trouble': trouble}
        # (frames of the handler itself are traced by no one here)
        case_of(cases, plain, seen, raised=raised[0] if raised else '')


# ---- whole lives ----------------------------------------------------------------------------------------------------------------
def process_state():
    """What an agent in the process must leave as it is."""
    root = logging.getLogger()
    return {
        'root': [root.level, [type(h).__name__ for h in root.handlers], root.disabled, len(root.filters)],
        'loggers': sorted((n, l.level, l.disabled, l.propagate, len(l.handlers)) for n, l in logging.root.manager.loggerDict.items()
                          if isinstance(l, logging.Logger) and n.split('.')[0] != 'deep'),
        'disable': logging.root.manager.disable, 'class': logging.getLoggerClass().__name__, 'raise': logging.raiseExceptions,
        'hooks': [repr(sys.excepthook), repr(threading.excepthook), repr(sys.displayhook), repr(sys.unraisablehook), repr(sys.getprofile())],
        'signals': [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGCHLD)],
        'limits': [sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), socket.getdefaulttimeout()],
        'environ': sorted(os.environ.items()), 'path': list(sys.path), 'cwd': os.getcwd(), 'umask': None, 'locale': locale.setlocale(locale.LC_ALL),
        'decimal': repr(decimal.getcontext()), 'random': hash(random.getstate()), 'stdout': [id(sys.stdout), id(sys.stderr), id(sys.stdin)],
        'warnings': len(warnings.filters), 'stack_size': threading.stack_size(),
    }


def lives(check, cases, about, rng):
    """Programs with a whole agent in the process, with services that do and do not answer."""
    for n in check.share(12, 400):
        if check.late():
            break
        ops = [rng.choice(list(hosts.OPS)) for _ in range(6)]
        host = hosts.Host(ops, rng.randrange(10 ** 6))
        plain = host.run()
        trouble = rng.choice([t for t in TROUBLES if t not in ('plugins', 'push')])
        tps = [tp for i in range(6) for tp in tracepoints(host, i, rng.choice(KINDS), trouble, rng)] + [probe_tp(host)]
        mode = rng.choice(['works', 'sends fail', 'everything fails later', 'garbage', 'slow'])
        polls = [0]

        def answer(call):
            if call.kind == 'poll':
                polls[0] += 1
                if mode == 'everything fails later' and polls[0] > 1:
                    raise rng.choice([FakeError(), RuntimeError('odd'), ValueError('closed')])
                if mode == 'garbage' and polls[0] > 1:
                    return b'\xff\xff\xff'
                return PollResponse(ts_nanos=1, current_hash='h%d' % (polls[0] % 3), response=[tp.proto() for tp in tps],
                                    response_type=ResponseType.UPDATE).SerializeToString()
            if mode != 'works':
                raise rng.choice([FakeError(), RuntimeError('odd')])
            return b''
        with Net(answer):
            seen = {}

            def life():
                before = process_state()
                config = ConfigService({'SERVICE_URL': 'fake:1', 'SERVICE_SECURE': 'False', 'POLL_TIMER': 0.02, 'LOGGING_CONF': None if n % 2 else '/nowhere',
                                        'APP_ROOT': '/app/src'})
                installed = R.Installed(config)
                agent = Deep(config)
                agent.start()
                installed.rest(config)
                try:
                    during = process_state()
                    # (a config with a tracepoint that cannot be read has fewer)
                    wait_for(lambda: installed.count >= 1, 5)
                    seen.update(host.run(inherit=True))
                finally:
                    agent.shutdown()
                seen['states'] = [before, during, process_state()]
            how, value = bounded(life, limit=120)
        sys.settrace(None)
        threading.settrace(None)
        boot.quiet_logging()
        about[len(cases)] = {'ops': ops, 'life': mode, 'trouble': trouble, 'how': how}
        if how != 'done':
            case_of(cases, plain, dict(plain, hung=how == 'stuck', error='%s %r' % (how, value), traced=True))
            continue
        before, during, after = seen.pop('states')
        agent_final = []
        for state in (during, after):
            known = {one[0] for one in before['loggers']}
            state['loggers'] = [one for one in state['loggers'] if one[0] in known]
            agent_final.append('' if state == before else repr([(k, before[k], state[k]) for k in before if before[k] != state[k]])[:1500])
        case_of(cases, dict(plain, final=plain['final'] + '||'), dict(seen, final='%s|%s|%s' % (seen['final'], *agent_final)))


# ---- the recursion limit ------------------------------------------------------------------------------------------------------------
NEAR = '''def down(n):
    if n == 0:
        return 0
    return 1 + down(n - 1)
def measure():
    try:
        return 1 + measure()
    except RecursionError:
        return 0
'''


def near_limit(check):
    """A program that needs (nearly) all of the stack that python allows."""
    ns = R.compile_module(NEAR, '/app/src/near01.py')
    rig = R.Rig()
    rig.install([R.Tp('n', 'near01.py', 2, dict(FREE, condition='n == 0'))])

    def run(trace, left):
        box = {}

        def body():
            room = ns['measure']()
            if trace is not None:
                sys.settrace(trace)
            try:
                box['value'] = ns['down'](room - left)
            except BaseException as e:  # noqa
                box['error'] = type(e).__name__
            box['traced'] = sys.gettrace() == trace
            sys.settrace(None)
            box['limit'] = sys.getrecursionlimit()
        limit = sys.getrecursionlimit()
        thread = threading.Thread(target=body)
        thread.start()
        thread.join()
        sys.setrecursionlimit(limit)
        box['limit'] -= limit
        return box
    worst = -1
    for left in [0, 1, 2, 3, 4, 5, *range(6, 150, 3)]:
        plain, agent = run(None, left), run(rig.handler.trace_call, left)
        if plain.get('error'):
            continue
        if agent['limit'] != 0:
            check.violation('the agent changes the recursion limit of the program', {'frames left at the limit': left, 'change': agent['limit']})
            break
        if agent.get('value') != plain.get('value') or not agent['traced']:
            worst = left
            # (without any frame left not even the trace function can be called)
            check.violation('the program raises something else', {'frames left at the limit': left, 'agent': agent},
                            ident='recursion-limit-%d' % left)
    check.notes['frames_needed_at_the_recursion_limit'] = worst


def models(check):
    """The design."""
    invariants = ['SameData', 'SameIterators', 'SameExceptions', 'NothingEscapes', 'StillTracing']
    length = check.pick('3', '4')
    check.model('HostAgent', 'design', constants={'Length': length, 'MaxFaults': check.pick('2', '4'), 'Fault': '"none"'}, invariants=invariants, properties=['Ends'])
    small = {'Length': '2', 'MaxFaults': '1'}
    for fault, expect in [('consumes', 'SameIterators'), ('writes', 'SameData'), ('swallows', 'SameExceptions'), ('switches off', 'StillTracing')]:
        check.model('HostAgent', fault, expect=expect, constants=dict(small, Fault='"%s"' % fault), invariants=invariants)
    stages = STAGES if check.thorough else ['callbacks', 'match', 'process']
    for stage in stages:
        check.model('HostAgent', 'escape ' + stage, expect=['NothingEscapes', 'StillTracing'], constants=dict(small, Fault='"escape %s"' % stage), invariants=invariants)


def run(check):
    """Run the check."""
    rng = random.Random(check.seed)
    check.assumptions += [
        'expressions and the text conversions (__str__, __repr__) of the host have no side effects', 'the moment at which objects are finalised is not compared',
        'what the agent writes to its own logger is not output of the host', 'writing locals back to a dictionary that the host kept of locals() is what '
        'python 3.12 and older do for every trace function']
    models(check)
    quote = lambda items: '{%s}' % ', '.join('"%s"' % i for i in items)  # noqa
    found = check.generate('HostGen', 'operations, kinds, troubles', 'HOST', constraints=['Emit'],
                           constants={'Length': '1', 'Ops': quote(hosts.OPS), 'Kinds': quote(KINDS), 'Troubles': quote(TROUBLES)})
    rng.shuffle(found)
    path = os.path.join(check.tmp, 'found.json')
    with open(path, 'w') as handle:
        json.dump(found, handle)
    # (in other processes, so that they run at the same time)
    procs = []
    for number in range(WORKERS):
        out = os.path.join(check.tmp, 'part%d.json' % number)
        procs.append((out, subprocess.Popen([sys.executable, os.path.abspath(__file__), str(number), path, out], stdout=subprocess.PIPE,
                                            stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_SEED=str(check.seed), VERIF_TIER=check.tier))))
    near_limit(check)
    cases, about = [], {}
    for out, proc in procs:
        text = proc.communicate(timeout=check.pick(700, 5.5 * 3600))[0].decode(errors='replace')
        if proc.returncode != 0 or not os.path.exists(out):
            raise MachineryError('a worker failed (%s):\n%s' % (proc.returncode, text[-4000:]))
        with open(out) as handle:
            part = json.load(handle)
        if part['raised']:
            check.violation('the agent raised into its caller', part['raised'])
        for case in part['cases']:
            about[len(cases)] = part['about'].get(str(case['id']))
            case['id'] = len(cases)
            cases.append(case)
        for key, value in part['notes'].items():
            check.notes[key] = max(check.notes.get(key, 0), value) if key in MAXIMA else check.notes.get(key, 0) + value
    for key, clauses in check.judge('HostJudge', cases).items():
        case = cases[key]
        both = {k: (case['plain'][k], case['agent'][k]) for k in case['plain'] if case['plain'][k] != case['agent'][k]}
        for clause in clauses:
            check.violation(clause, {'different': repr(both)[:1200], 'case': about.get(key)})
    check.sample({k: v for k, v in cases[1].items()})
    check.notes['cases'] = len(cases)


# ---- a worker ------------------------------------------------------------------------------------------------------------------------
WORKERS = 5
MAXIMA = ('points_of_failure', 'operations_known')


class Part:
    """The part of a check that one process does."""

    def __init__(self, number, found):
        self.seed, self.tier, self.number = int(os.environ['VERIF_SEED']), os.environ['VERIF_TIER'], number
        self.thorough, self.notes, self.t0 = self.tier == 'thorough', {}, time.time()
        self.found = self.mine(found)

    def mine(self, items):
        """The part of a list."""
        return items[self.number::WORKERS]

    def share(self, quick, thorough):
        """The part of a number of repetitions."""
        return range(self.number, self.pick(quick, thorough), WORKERS)

    def pick(self, quick, thorough):
        """Choose a bound by tier."""
        return thorough if self.thorough else quick

    def late(self):
        """Is it time to stop."""
        return time.time() - self.t0 > (250 if not self.thorough else 4 * 3600)


def worker(number, path, out):
    """Run a part."""
    from vlib import from_agent
    import traceback
    with open(path) as handle:
        part = Part(number, json.load(handle))
    # (an agent that uses up all of the memory gets an error, and not the whole sandbox)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    trace.set_tracer_provider(TracerProvider(id_generator=Ids()))
    rng = random.Random(part.seed * 100 + number)
    cases, about, raised = [], {}, None
    try:
        for section in (sweep, operations, random_programs, direct, lives):
            start = time.time()
            section(part, cases, about, rng)
            part.notes['seconds_' + section.__name__] = round(time.time() - start, 1)
    except BaseException as e:  # noqa
        if isinstance(e, MachineryError) or not from_agent(e):
            raise
        raised = traceback.format_exc()[-3000:]
    with open(out, 'w') as handle:
        json.dump({'cases': cases, 'about': about, 'notes': part.notes, 'raised': raised}, handle, default=repr)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    worker(int(sys.argv[1]), sys.argv[2], sys.argv[3])
