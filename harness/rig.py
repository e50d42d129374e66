"""Drive the agent in-process and observe only its effects (snapshots, log lines, metrics, spans)."""
import sys
import threading

import boot
from boot import Clock  # noqa: F401

from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType  # noqa: F401
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import TracePointConfig as PbTracepoint, Metric as PbMetric, \
    LabelExpression as PbLabel, MetricType as PbMetricType
from deepproto.proto.common.v1.common_pb2 import AnyValue as PbAny

from deep.api.attributes import BoundedAttributes
from deep.api.plugin import ResourceProvider, SnapshotDecorator, TracepointLogger
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import SpanProcessor, Span
from deep.api.resource import Resource
from deep.config import ConfigService
from deep.config.tracepoint_config import ConfigUpdateListener
from deep.grpc import convert_response
from deep.processor.trigger_handler import TriggerHandler
from deep.push import convert_snapshot, PushService

boot.quiet_logging()


class Effects:
    """Everything the agent did, in order, with the thread that did it."""

    def __init__(self):
        self.items = []
        self.lock = threading.Lock()
        self.listener = None

    def add(self, kind, tp, **data):
        """Record one effect."""
        item = dict(data, kind=kind, tp=tp, thread=threading.get_ident())
        with self.lock:
            item['n'] = len(self.items)
            self.items.append(item)
        if self.listener is not None:
            self.listener(item)
        return item


class _Listener(ConfigUpdateListener):
    count = 0

    def config_change(self, ts, old_hash, current_hash, old_config, new_config):
        """Count."""
        self.count = len(new_config)


class Installed:
    """Tells when a configuration is installed: listens before and after everything that an agent adds."""

    def __init__(self, config):
        self.first, self.last = _Listener(), _Listener()
        config.add_listener(self.first)

    def rest(self, config):
        """The agent is made."""
        config.add_listener(self.last)

    @property
    def count(self):
        """How many tracepoints are installed."""
        return min(self.first.count, self.last.count)


class RecordingLogger(TracepointLogger):
    """Tracepoint logger that records."""

    effects = None

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        """Record a log."""
        self.effects.add('log', tp_id, msg=log_msg, ctx=ctx_id)


class RecordingMetrics(MetricProcessor):
    """Metric processor that records."""

    effects = None

    def __metric(self, op, name, labels, namespace, help_string, unit, value):
        # metrics carry no tracepoint id: tests name the metric after the tracepoint (<tp>.<n>)
        self.effects.add('metric', name.split('.')[0], op=op, name=name, labels=dict(labels), namespace=namespace,
                         help=help_string, unit=unit, value=value, proc=self.name)

    def counter(self, name, labels, namespace, help_string, unit, value):
        """Record."""
        self.__metric('counter', name, labels, namespace, help_string, unit, value)

    def gauge(self, name, labels, namespace, help_string, unit, value):
        """Record."""
        self.__metric('gauge', name, labels, namespace, help_string, unit, value)

    def histogram(self, name, labels, namespace, help_string, unit, value):
        """Record."""
        self.__metric('histogram', name, labels, namespace, help_string, unit, value)

    def summary(self, name, labels, namespace, help_string, unit, value):
        """Record."""
        self.__metric('summary', name, labels, namespace, help_string, unit, value)

    def clear(self):
        """Nothing to clear."""
        pass


class RecordingSpan(Span):
    """Span that records."""

    def __init__(self, effects, name, tp, ctx, sid):
        self.effects, self._n, self.tp, self.ctx, self.sid = effects, name, tp, ctx, sid

    @property
    def name(self):
        """Name."""
        return self._n

    @property
    def trace_id(self):
        """Trace id."""
        return 't%s' % self.sid

    @property
    def span_id(self):
        """Span id."""
        return 's%s' % self.sid

    def add_attribute(self, key, value):
        """Ignore."""

    def add_event(self, name, attributes=None):
        """Ignore."""

    def close(self):
        """Record the close."""
        self.effects.add('close', self.tp, name=self._n, sid=self.sid, ctx=self.ctx)


class RecordingSpans(SpanProcessor):
    """Span processor that records."""

    effects = None
    _count = 0

    def create_span(self, name, context_id, tracepoint_id):
        """Record the open."""
        item = self.effects.add('span', tracepoint_id, name=name, ctx=context_id)
        item['sid'] = item['n']
        return RecordingSpan(self.effects, name, tracepoint_id, context_id, item['n'])

    def current_span(self):
        """No current span."""
        return None


class RecordingPush(PushService):
    """Push service that keeps the snapshots it is handed."""

    def __init__(self, effects):
        super().__init__(None, None)
        self.effects = effects

    def push_snapshot(self, snapshot):
        """Record."""
        self.effects.add('snapshot', snapshot.tracepoint.id, snapshot=snapshot)


class Tp:
    """Plain description of a tracepoint, turned into the message the service would send."""

    def __init__(self, tp_id, path, line=0, args=None, watches=(), metrics=()):
        self.id, self.path, self.line = tp_id, path, line
        self.args, self.watches, self.metrics = dict(args or {}), list(watches), list(metrics)

    def proto(self):
        """The service message."""
        return PbTracepoint(ID=self.id, path=self.path, line_number=self.line, args=self.args, watches=self.watches,
                            metrics=[m if isinstance(m, PbMetric) else metric(**m) for m in self.metrics])


def metric(name, type_='COUNTER', labels=(), expression=None, namespace=None, help_=None, unit=None):
    """Build a metric message; labels are (key, 'static'|'expression', value)."""
    pb = PbMetric(name=name, type=PbMetricType.Value(type_) if isinstance(type_, str) else type_)
    for key, kind, value in labels:
        if kind == 'static':
            pb.labelExpressions.append(PbLabel(key=key, static=any_value(value)))
        else:
            pb.labelExpressions.append(PbLabel(key=key, expression=value))
    if expression is not None:
        pb.expression = expression
    if namespace is not None:
        pb.namespace = namespace
    if help_ is not None:
        pb.help = help_
    if unit is not None:
        pb.unit = unit
    return pb


def any_value(value):
    """Build an AnyValue."""
    if isinstance(value, bool):
        return PbAny(bool_value=value)
    if isinstance(value, int):
        return PbAny(int_value=value)
    if isinstance(value, float):
        return PbAny(double_value=value)
    return PbAny(string_value=value)


def plugin(cls, effects, name=None):
    """Instance of a recording plugin."""
    inst = cls(name or cls.__name__, None)
    inst.effects = effects
    return inst


class Rig:
    """Trigger handler with recording plugins and push service (no service connection)."""

    def __init__(self, plugins=None, config=None, log=True, metrics=1, spans=1):
        self.effects = Effects()
        self.config = ConfigService(dict(config or {}))
        if plugins is None:
            plugins = []
            if log:
                plugins.append(plugin(RecordingLogger, self.effects))
            plugins += [plugin(RecordingMetrics, self.effects, 'M%d' % i) for i in range(metrics)]
            plugins += [plugin(RecordingSpans, self.effects, 'S%d' % i) for i in range(spans)]
        self.config.plugins = plugins
        self.config.resource = Resource.create()
        self.push = RecordingPush(self.effects)
        self.handler = TriggerHandler(self.config, self.push)

    def install(self, tps, alone=0):
        """Install tracepoints as the service would send them, the last ones as those that are registered in code."""
        tps = [tp.proto() if isinstance(tp, Tp) else tp for tp in tps]
        split = len(tps) - alone
        config = convert_response(tps[:split])
        for tp in tps[split:]:
            config = config + convert_response([tp])
        self.handler.new_config(config)

    def wire(self, snapshot):
        """The message of a snapshot."""
        return convert_snapshot(snapshot)

    def run(self, func, *args, tracer=None):
        """Run a function in a new thread with the handler as the trace function; returns (value, exception)."""
        box = {}
        trace = tracer or self.handler.trace_call

        def body():
            sys.settrace(trace)
            try:
                box['value'] = func(*args)
            except BaseException as e:  # noqa
                box['error'] = e
            finally:
                box['trace'] = sys.gettrace()
                sys.settrace(None)

        thread = threading.Thread(target=body)
        thread.start()
        thread.join()
        return box


def compile_module(source, filename, extra=None):
    """Execute source as a module whose code has the given file name; returns its namespace."""
    ns = {'__name__': 'host_' + str(abs(hash(filename)) % 10 ** 6), '__file__': filename}
    ns.update(extra or {})
    exec(compile(source, filename, 'exec'), ns)
    return ns
