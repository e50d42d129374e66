"""A service without a network: channels that hand every request (as bytes) to a handler."""
import threading
import time

import grpc

from boot import Hook  # noqa


class FakeError(grpc.RpcError):
    """A call that failed."""

    def __init__(self, code=grpc.StatusCode.UNAVAILABLE, details='not reachable'):
        super().__init__()
        self._code, self._details = code, details

    def code(self):
        """Status code."""
        return self._code

    def details(self):
        """Status text."""
        return self._details


class Call:
    """A request that arrived."""

    def __init__(self, method, request, metadata, thread, name):
        self.method, self.request, self.metadata = method, request, metadata
        self.thread, self.thread_name = thread, name
        self.at = time.monotonic()
        self.finished = False

    @property
    def kind(self):
        """'poll' or 'send'."""
        return self.method.rsplit('/', 1)[-1]


class _Method:
    def __init__(self, channel, method, serializer, deserializer):
        self.channel, self.method = channel, method
        self.serializer, self.deserializer = serializer, deserializer

    def __call__(self, request, timeout=None, metadata=None, credentials=None, wait_for_ready=None, compression=None):
        """Call."""
        data = self.serializer(request) if self.serializer else request
        for item in metadata or ():
            # what grpc itself insists on
            if len(item) != 2 or not isinstance(item[0], str) or not isinstance(item[1], (str, bytes)):
                raise TypeError('metadata %r' % (item,))
        call = Call(self.method, data, [tuple(m) for m in metadata] if metadata is not None else None, threading.current_thread(),
                    threading.current_thread().name)
        if self.channel.closed:
            raise ValueError('Cannot invoke RPC on closed channel!')
        with self.channel.net.lock:
            self.channel.net.calls.append(call)
        try:
            reply = self.channel.net.answer(call)
        finally:
            call.finished = True
        return self.deserializer(reply) if self.deserializer and isinstance(reply, bytes) else reply

    def with_call(self, request, **kwargs):
        """Call."""
        return self(request, **kwargs), None

    def future(self, request, **kwargs):
        """Call."""
        from concurrent.futures import Future
        future = Future()

        def later():
            # what grpc does as well: the caller does not wait
            time.sleep(0.005)
            try:
                future.set_result(self(request, **kwargs))
            except BaseException as e:  # noqa
                future.set_exception(e)
        threading.Thread(target=later, daemon=True).start()
        return future


class Channel(grpc.Channel):
    """Channel to the handler."""

    def __init__(self, net, target, secure):
        self.net, self.target, self.secure, self.closed = net, target, secure, False

    def unary_unary(self, method, request_serializer=None, response_deserializer=None, _registered_method=False, **kwargs):
        """Stub of a method."""
        return _Method(self, method, request_serializer, response_deserializer)

    def unary_stream(self, *args, **kwargs):
        """Not used."""
        raise NotImplementedError

    stream_unary = stream_stream = unary_stream

    def subscribe(self, callback, try_to_connect=False):
        """Ignore."""

    def unsubscribe(self, callback):
        """Ignore."""

    def close(self):
        """Close."""
        self.closed = True

    def __enter__(self):
        """Open."""
        return self

    def __exit__(self, *args):
        """Close."""
        self.close()


class Net:
    """The service; `with Net() as net` replaces every channel that the agent creates."""

    def __init__(self, answer=None):
        self.calls, self.channels, self.lock = [], [], threading.Lock()
        self._answer = answer

    def answer(self, call):
        """Reply to a call (bytes) or raise."""
        if self._answer is not None:
            return self._answer(call)
        return b''

    def channel(self, target='fake:1', secure=False):
        """A channel."""
        channel = Channel(self, target, secure)
        self.channels.append(channel)
        return channel

    def of(self, kind):
        """Calls of one kind."""
        with self.lock:
            return [c for c in self.calls if c.kind == kind]

    def __enter__(self):
        """Install."""
        Hook.net = self
        return self

    def __exit__(self, *args):
        """Remove."""
        Hook.net = None


class Service:
    """What a PushService needs of the connection."""

    def __init__(self, net, metadata=()):
        self.channel = net.channel()
        self._metadata = metadata

    def metadata(self):
        """Metadata."""
        if callable(self._metadata):
            return self._metadata()
        return list(self._metadata)


def wait_for(condition, limit=15.0):
    """Wait until the condition holds; False if it does not within the limit."""
    end = time.monotonic() + limit
    pause = 0.0005
    while not condition():
        if time.monotonic() > end:
            return bool(condition())
        time.sleep(pause)
        pause = min(pause * 1.5, 0.02)
    return True


def bounded(func, *args, limit=30.0):
    """Call in another thread; ('done', value), ('raised', error) or ('stuck', None)."""
    box = ['stuck', None]

    def body():
        try:
            value = func(*args)
        except BaseException as e:  # noqa
            box[:] = ['raised', e]
            return
        box[:] = ['done', value]

    thread = threading.Thread(target=body, daemon=True)
    thread.start()
    thread.join(limit)
    return tuple(box)
