"""Host programs made of operations: each is a function with a line '#T' (where a tracepoint can be) that writes to the log of the
host what it sees and changes data of the host.  All of it is deterministic, whatever is attached."""
import builtins
import io
import logging
import os
import random
import sys
import threading

from opentelemetry import context as otel_context
from opentelemetry import trace as otel_trace

import c06
from values import Values

OPS = {}


def _ops():
    """The operations: name -> body."""
    text = '''
== set
x = 1
y = {'k': [x, 2], 'n': None}
z = y['k'][0] + x  #T
y['k'].append(z)
st['data'].append(y)
out(x, y, z)
return z
== call
def inner(v):
    w = v * 2
    return w
x = inner(3)
x = inner(x)  #T
x = inner(x)
out(x)
return x
== raises
try:
    x = 1
    st['data'].append(x)
    x = [][x]  #T
except IndexError as e:
    out(type(e).__name__, str(e), depth(e), type(e.__context__).__name__, type(e.__cause__).__name__, e.args)
else:
    out('not raised')
return x
== propagates
x = 2
def inner():
    raise E1('from inner', x)
inner()  #T
out('not reached')
== reraise
x = []
try:
    try:
        raise E1('a')
    except E1 as e:
        x.append(1)  #T
        raise
    finally:
        x.append(2)
except E1 as e:
    out(str(e), x, depth(e))
try:
    try:
        raise E1('b')
    except E1 as e:
        raise E2('c') from e
except E2 as e:
    out(str(e), str(e.__cause__), depth(e), chain(e))
return x
== gen
def g(n):
    got = yield n
    try:
        while n > 0:
            n -= 1
            got = yield (n, got)
    finally:
        out('closed', n)
it = g(3)
a = next(it)
b = it.send('s')  #T
c = next(it)
out(a, b, c, [v for v in it])
return c
== live
def g():
    for i in range(5):
        out('produced', i)
        yield i
it = g()
a = next(it)  #T
b = [a]
c = list(it)
out(a, b, c)
return c
== iters
src = [1, 2, 3, 4]
its = [iter(src), reversed(src), enumerate(src), zip(src, 'abcd'), map(str, src), filter(None, src), iter(range(4)), iter({1: 2, 3: 4}),
       iter('text'), iter({5}), itertools.islice(itertools.count(3), 40), itertools.islice(itertools.cycle([1, 2]), 40), itertools.chain([1], [2]), itertools.islice([1, 2, 3], 2),
       io.StringIO('l1\\nl2\\n'), (v for v in src)]
one, two, three = iter(src), zip(src, src), (v * 2 for v in src)
a = [next(i, None) for i in its]  #T
b = [next(i, None) for i in its] + [next(one), next(two), next(three)]
out(a, b, list(one), list(two), list(three), [repr(list(itertools.islice(i, 3))) for i in its])
return len(b)
== lazy
class Lazy:
    def __init__(self):
        self.n = 0
    def __iter__(self):
        return self
    def __next__(self):
        self.n += 1
        out('next', self.n)
        if self.n > 4:
            raise StopIteration
        return self.n
x = Lazy()
y = {'it': x, 'l': [x]}
n = next(x)  #T
n += next(x)
out(n, list(x))
return n
== thread
x = []
def work(v):
    w = v + 1
    x.append(w)
    out('in thread', w)
    return w
def bad():
    try:
        raise E1('in thread')
    except E1 as e:
        out(str(e))
t = [spawn(out, 'T%d' % i, work, i) for i in range(2)] + [spawn(out, 'T2', bad)]
for one in t:
    one.join()  #T
out(sorted(x))
return sorted(x)
== recurse
def r(n):
    if n == 0:
        return [0]
    below = r(n - 1)
    return below + [n]
x = r(6)  #T
out(x)
return x
== withs
x = 1
with CM(out, x, True) as w:
    x = 2  #T
    raise E1('swallowed')
with CM(out, x, False) as w:
    x = 3
try:
    with CM(out, x, False):
        raise E1('not swallowed')
except E1 as e:
    out(str(e), depth(e))
return x
== rand
a = random.random()
b = random.randint(1, 1000)  #T
c = random.random()
random.seed(st['n'])
out(a, b, c, random.getrandbits(64), uuid.UUID(int=random.getrandbits(128)).hex)
return b
== decimals
decimal.getcontext().prec = 5
x = decimal.Decimal(1) / 3
y = decimal.Decimal(2) / 3  #T
out(str(x), str(y), decimal.getcontext().prec, [bool(v) for v in decimal.getcontext().flags.values()])
decimal.getcontext().prec = 28
return str(y)
== nonlocals
x = 1
y = [1]
def change():
    nonlocal x
    x += 1
    y.append(x)
    return x
change()
x = x + change()  #T
change()
out(x, y, [c.cell_contents for c in change.__closure__ if not isinstance(c.cell_contents, list)])
return x
== globals
global counter
counter = counter + 1
x = counter  #T
counter += x
out(counter)
return counter
== ospans
out(cur())
with traced().start_as_current_span('one') as one:
    out(cur())
    x = cur()  #T
    out(cur())
    with traced().start_as_current_span('two') as two:
        out(cur())
        two.add_event('happened', {'x': 1})
    one.set_attribute('x', x)
    out(cur(), two.name)
out(cur())
return x
== owith
with traced().start_as_current_span('one'):  #T
    x = 1
    out(cur())
    try:
        with traced().start_as_current_span('two'):
            out(cur())
            raise E1('in two')
    except E1 as e:
        out(cur(), depth(e))
out(cur())
return x
== ogen
def g():
    for i in range(3):
        with traced().start_as_current_span('g%d' % i):
            out(cur())
        yield cur()
def h():
    with traced().start_as_current_span('h'):
        yield cur()
        yield cur()
it = g()
a = next(it)
b = next(it)  #T
out(cur(), a, b, list(it))
k = h()
out(next(k), cur(), next(k), cur(), list(k), cur())
return a
== oaio
async def task(n):
    with traced().start_as_current_span('task%d' % n):
        await asyncio.sleep(0)
        out(cur())
        await asyncio.sleep(0)
    return cur()
async def all_of():
    return await asyncio.gather(*(task(n) for n in range(3)))
x = asyncio.run(all_of())  #T
out(x, cur())
return x
== othread
def work(n):
    out(cur())
    with traced().start_as_current_span('w%d' % n):
        out(cur())
    return cur()
with traced().start_as_current_span('before'):
    t = spawn(out, 'O1', contextvars.copy_context().run, work, 1)
    t.join()  #T
    out(cur())
t = spawn(out, 'O2', work, 2)
t.join()
return cur()
== oattach
from opentelemetry import context as octx
s = traced().start_span('mine')
k = octx.attach(otrace.set_span_in_context(s))  #T
out(cur())
octx.detach(k)
x = cur()
s.end()
out(x)
return x
== deletes
x = 1
y = 2
del x
y = 3  #T
try:
    x
except UnboundLocalError as e:
    out(type(e).__name__)
x = 4
out(x, y, sorted(k for k in locals() if k not in ('out', 'st')))
return y
== aio
async def one(v):
    await Tick()
    return v + 1
async def agen(n):
    for i in range(n):
        await Tick()
        yield i
async def both():
    a = await one(1)
    b = await one(a)
    return a, b, [v async for v in agen(3)]
x = run_async(both())  #T
out(x)
async def task(n):
    await asyncio.sleep(0)
    out('task', n)
    return n
async def gathered():
    return await asyncio.gather(task(1), task(2))
out(asyncio.run(gathered()))
return x
== mutates
x = {'a': [1], 'b': {2}, 'c': (3,), 'd': bytearray(b'4'), 'e': collections.deque([5]), 'f': collections.OrderedDict(g=6),
     'h': collections.defaultdict(list), 'i': collections.Counter('aab')}
y = x
x['a'].append(y)  #T
x['b'].add(7)
x['h']['new'].append(8)
y['d'].extend(b'9')
out(sorted(x), len(x['a']), x['a'][1] is x, sorted(x['b']), bytes(x['d']), list(x['e']), list(x['f']), dict(x['h']), dict(x['i']))
return len(x)
== excinfo
out(sys.exc_info())
try:
    raise E1('info')
except E1:
    a = sys.exc_info()
    b = a[1].args  #T
    c = sys.exc_info()
    out(a[0].__name__, b, c[1] is a[1], c[2] is a[2], traceback.format_exc().count('\\n'))
    del a, c
out(sys.exc_info())
return b
== fin
def f(v):
    try:
        if v:
            raise E1('lost')
        return 'try'
    finally:
        if v > 1:
            return 'finally'
        out('finally', v)
a = f(0)
b = f(2)  #T
try:
    f(1)
except E1 as e:
    out(str(e), depth(e))
for i in range(3):
    try:
        continue
    finally:
        a += str(i)
out(a, b)
return a
== comps
x = [i * 2 for i in range(4)]
y = {i: [j for j in range(i)] for i in x if i}  #T
z = sum(v for v in y)
w = {len(v) for v in y.values()}
f = lambda v: v + z
out(x, y, z, w, f(1), (q := 3), q)
return z
== logs
log = logging.getLogger('host.module')
log.info('before %s', 1)
x = 'message'
log.warning('at %s', x)  #T
try:
    raise E1('logged')
except E1:
    log.exception('failed')
log.debug('not enabled')
out(log.isEnabledFor(logging.DEBUG), logging.getLogger().level, len(logging.getLogger().handlers))
return x
== classes
class Meta(type):
    def __new__(mcs, name, bases, space, **kw):
        out('meta', name, sorted(k for k in space if not k.startswith('__')))
        return super().__new__(mcs, name, bases, space)
class A(metaclass=Meta):
    v = 1
    w = v + 1
    def m(self):
        return super().__repr__()[:5]
    @property
    def p(self):
        out('property')
        return 1
    @staticmethod
    def s(v):
        return v
    @classmethod
    def c(cls, v):
        return cls.__name__, v
x = A()
y = x.m(), x.s(1)  #T
out(y, A.c(2), x.w)
return y
== mapping
class Space(dict):
    def __missing__(self, key):
        out('missing', key)
        raise KeyError(key)
    def __setitem__(self, key, value):
        if not key.startswith('__'):
            out('bound', key)
        super().__setitem__(key, value)
class Meta(type):
    @classmethod
    def __prepare__(mcs, name, bases):
        return Space()
x = 1
class B(metaclass=Meta):
    a = 1
    b = a + 1
    c = [i for i in range(b)]
y = B.c  #T
out(y)
return y
== genclose
def g():
    try:
        yield 1
        yield 2
    except GeneratorExit:
        out('exit')
        raise
    except E1 as e:
        out('thrown', str(e))
        yield 3
    finally:
        out('done')
a = g()
b = next(a)
a.close()  #T
c = g()
next(c)
d = c.throw(E1('t'))
out(b, d, list(c))
e = g()
next(e)
del e
return d
== tbs
def inner(v):
    w = v
    return 1 / w
try:
    x = 0
    inner(x)  #T
except ZeroDivisionError as e:
    out(''.join(traceback.format_exception(e)).count('File'), [f.name for f in traceback.extract_tb(e.__traceback__)],
        [f.f_lineno - f.f_code.co_firstlineno for f, _ in traceback.walk_tb(e.__traceback__)][-1])
out([f.name for f in traceback.extract_stack()][-1], sys._getframe().f_lineno > 0, sys._getframe(1).f_code.co_name)
return x
== dyn
ns = {'out': out}
exec(compile('def dynamic(v):\\n    w = v + 1\\n    return w\\n', '/app/src/host01.py', 'exec'), ns)
exec('def other(v):\\n    return v * 2\\n', ns)
x = ns['dynamic'](1)
y = ns['other'](x)  #T
z = eval('x + y', {'x': x, 'y': y})
out(x, y, z)
return z
== bare
ns = {'__builtins__': {}}
exec(compile('def nobuiltins(v):\\n    w = v\\n    w = w\\n    return w\\n', 'host01.py', 'exec'), ns)
x = ns['nobuiltins'](1)
x = ns['nobuiltins'](x)  #T
out(x, sorted(ns))
return x
== badexc
class Bad(Exception):
    def __str__(self):
        raise E2('no text')
    __repr__ = __str__
class Worse(BaseException):
    def __getattribute__(self, name):
        raise E2('no ' + name)
def inner(v):
    raise v
for one in (Bad(), Worse(), E1(), SystemExit(3), KeyboardInterrupt(), GeneratorExit(), StopIteration(1), StopAsyncIteration(), RecursionError()):
    try:
        inner(one)  #T
    except BaseException as e:
        out(type(e).__name__, e is one)
try:
    inner(5)
except TypeError as e:
    out(str(e))
== badret
class Bad:
    def __str__(self):
        raise SystemExit('no text')
    __repr__ = __str__
    def __eq__(self, other):
        raise E2('no equality')
    def __bool__(self):
        raise E2('no truth')
    __hash__ = None
def inner():
    return Bad()
x = inner()
y = inner()  #T
out(type(x).__name__, type(y).__name__)
return x
== hostile
a, b, c = st['hostile']
d = [a, b]
e = {'k': c}  #T
f = (a, b, c)
out(d[0] is a, e['k'] is c)
st['hostile'] = [c, a, b]
return a
== spies
class Spy:
    pass
def spied(name):
    def method(self, *args):
        out('spied', name)
        return getattr(object, name)(self, *args) if hasattr(object, name) else NotImplemented
    return method
for name in ('__len__', '__iter__', '__next__', '__contains__', '__getitem__', '__setitem__', '__delitem__', '__eq__', '__ne__', '__lt__', '__gt__',
             '__le__', '__ge__', '__bool__', '__call__', '__enter__', '__exit__', '__add__', 
             '__setattr__', '__delattr__', '__dir__', '__reversed__', '__missing__', '__length_hint__', '__copy__', '__deepcopy__',
             '__reduce__', '__getstate__', '__bytes__', '__sizeof__', '__await__', '__aiter__', '__anext__', '__instancecheck__', '__get__'):
    setattr(Spy, name, spied(name))
x = Spy()
y = [x, {'k': x}]  #T
z = (x,)
out('end')
return x
== spyself
class SpyM(type):
    pass
class Spy(metaclass=SpyM):
    def m(self, other, cls):
        x = [self]
        y = x  #T
        return y
    def up(self):
        frame, event, arg = self, self, self
        return self.m(self, self)
class SpyE(Exception):
    pass
def spied(name, base):
    def method(self, *args):
        out('spied', name)
        return getattr(base, name)(self, *args) if hasattr(base, name) else NotImplemented
    return method
for name in ('__len__', '__iter__', '__next__', '__contains__', '__getitem__', '__eq__', '__ne__', '__lt__', '__hash__', '__bool__', '__call__', '__add__',
             '__dir__', '__reversed__', '__missing__', '__length_hint__', '__copy__', '__deepcopy__', '__reduce__', '__getstate__', '__bytes__',
             '__sizeof__', '__int__', '__float__', '__index__', '__format__', '__mod__', '__radd__'):
    setattr(Spy, name, spied(name, object))
    setattr(SpyE, name, spied(name, Exception))
    if name not in ('__hash__', '__call__', '__eq__'):
        setattr(SpyM, name, spied(name, type))
self = Spy()
self.up()
out('called')
def fails(self):
    raise SpyE('spied')
try:
    z = fails(self)
except SpyE as e:
    v = e
out('end')
return v
== spyattr
class Attr:
    def __init__(self):
        self.__dict__['n'] = 0
        self.__dict__['other'] = [1, 2]
    def __getattr__(self, name):
        if not name.startswith('_'):
            out('getattr', name)
        raise AttributeError(name)
    @property
    def prop(self):
        out('property read')
        return 1
    def __len__(self):
        out('len')
        return 3
    def __iter__(self):
        out('iter')
        return iter((1, 2, 3))
x = Attr()
y = x  #T
out('end')
return y
== body
class Body:
    a = 1
    b = a + 1  #T
    c = sorted(k for k in locals() if not k.startswith('__'))
out(Body.c, sorted(k for k in vars(Body) if not k.startswith('__')))
return Body.c
== module
mod = types.ModuleType('made')
mod.out = out
exec(compile('a = 1\\nb = a + 1\\ndef f():\\n    return b\\nb = f()\\nout(sorted(k for k in globals() if k[0] != "_"))\\n', '/app/src/host01.py', 'exec'), vars(mod))
x = mod.b
y = x  #T
out(sorted(k for k in vars(mod) if k[0] != '_'), mod.b)
return x
== lookups
class Seen:
    def __getattribute__(self, name):
        if name != '__class__':
            out('looked up', name)
        return object.__getattribute__(self, name)
class Loads:
    @property
    def __dict__(self):
        out('loaded')
        return {'loaded': 1}
x = Seen()
y = Loads()
z = [x, y]  #T
out('end')
return z
== proxy
class Proxy(collections.abc.MutableMapping):
    def __init__(self):
        self.n, self.d = 0, {'a': 1}
    def __getitem__(self, key):
        out('get', key)
        self.n += 1
        return self.d[key]
    def __setitem__(self, key, value):
        self.d[key] = value
    def __delitem__(self, key):
        del self.d[key]
    def __iter__(self):
        out('iterated')
        return iter(self.d)
    def __len__(self):
        out('length')
        return len(self.d)
x = Proxy()
y = [x]  #T
x['b'] = 2
out(x.n, x['a'])
return x.n
== defaults
x = collections.defaultdict(lambda: out('made') or [])
x['a'].append(1)
y = {'d': x}  #T
out(sorted(x), 'b' in x, len(x))
return sorted(x)
== descriptors
class D:
    def __get__(self, obj, owner):
        out('descriptor')
        return 5
class H:
    d = D()
    __slots__ = ('a', 'b', '__dict__')
class C:
    cached = functools.cached_property(lambda self: out('computed') or 7)
h = H()
h.a = 1
c = C()
x = h.a  #T
out(hasattr(h, 'b'), sorted(vars(c)), c.cached, sorted(vars(c)))
return x
== contexts
var = st['var']
token = var.set('inner')
x = var.get()
y = x + '!'  #T
var.reset(token)
out(x, y, var.get())
ctx = contextvars.copy_context()
out(ctx.run(lambda: (var.set('ctx'), var.get())[1]), var.get())
return y
== prints
print('printed', 1, file=st['file'])
x = 1
print('at', x, file=st['file'])  #T
st['file'].write('end\\n')
out(st['file'].getvalue().count('\\n'))
return x
== exits
x = 1
try:
    sys.exit('bye')  #T
except SystemExit as e:
    out(e.code)
try:
    raise KeyboardInterrupt
except KeyboardInterrupt:
    out('interrupted')
return x
== deep
def down(n):
    try:
        return down(n + 1)
    except RecursionError:
        return 'limit'
x = 1
y = x  #T
out(y)
return y
== weak
class W:
    pass
x = W()
r = weakref.ref(x)
w = weakref.WeakValueDictionary(k=x)
y = r() is x  #T
out(y, len(w))
return y
== matches
x = {'kind': 'a', 'v': [1, 2]}
match x:
    case {'kind': 'b'}:
        y = 0
    case {'kind': 'a', 'v': [p, *q]}:
        y = p  #T
    case _:
        y = -1
out(y, q)
return y
== loops
x = 0
for i in range(6):
    if i == 4:
        break
    if i % 2:
        continue
    x += i  #T
else:
    out('else')
while x < 9:
    x += 3
out(x, i)
return x
== once
x = iter([1, 2, 3])
y = [v for v in x if v > 1]; z = list(x); out(y, z)  #T
for v in (w := iter('ab')): z.append(v)
out(z, list(w))
return z
== inherits
class L(list):
    def __iter__(self):
        out('list iter')
        return super().__iter__()
    def __len__(self):
        out('list len')
        return super().__len__()
class T(str):
    def __len__(self):
        out('str len')
        return 9
class K(int):
    def __eq__(self, other):
        out('int eq')
        return int(self) == other
    def __hash__(self):
        out('int hash')
        return 1
class S(dict):
    def __getitem__(self, key):
        out('dict get')
        return 1
    def keys(self):
        out('dict keys')
        return super().keys()
    def items(self):
        out('dict items')
        return super().items()
a, b, c, d = L([1, 2]), T('text'), K(5), S(k=1)
e = {c: a}
f = [a, c, d]  #T
out('end')
return f
'''
    name, body = None, []
    for line in text.split('\n'):
        if line.startswith('== '):
            name, body = line[3:], []
            OPS[name] = body
        elif name and line:
            body.append(line)


_ops()
PATH = '/app/src/host01.py'
HEAD = '''import asyncio
import collections
import collections.abc
import contextvars
import decimal
import functools
import io
import itertools
import logging
import random
import sys
import threading
import traceback
import types
import uuid
import weakref

from opentelemetry import trace as otrace

counter = 0


def cur():
    return getattr(otrace.get_current_span(), 'name', '-')


def traced():
    return otrace.get_tracer('host')


class E1(Exception):
    pass


class E2(E1):
    pass


class CM:
    def __init__(self, out, v, swallow):
        self.out, self.v, self.swallow = out, v, swallow

    def __enter__(self):
        self.out('enter', self.v)
        return self.v

    def __exit__(self, et, ev, tb):
        self.out('exit', self.v, et.__name__ if et else None)
        return self.swallow


class Tick:
    def __await__(self):
        yield


def run_async(coro):
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


def depth(e):
    n, tb = 0, e.__traceback__
    while tb is not None:
        n, tb = n + 1, tb.tb_next
    return n


def chain(e):
    names = []
    while e is not None:
        names.append(type(e).__name__)
        e = e.__context__
    return names


def spawn(out, name, fn, *args):
    def body():
        try:
            out('thread-result', fn(*args))
        except BaseException as e:
            out('thread-error', type(e).__name__, str(e))
        out.ends()
    t = threading.Thread(target=body, name=name)
    t.start()
    return t

'''


class Out:
    """The log of the host: per name of thread (and what the trace function of each thread is at its end)."""

    def __init__(self):
        self.data, self.traces = {}, []

    def __call__(self, *args):
        self.data.setdefault(threading.current_thread().name, []).append(show(args))

    def ends(self):
        """The thread ends."""
        self.traces.append(sys.gettrace())


def show(value, depth=6):
    """Text of ordinary data; of anything else only the type."""
    kind = type(value)
    if depth == 0:
        return '...'
    if kind in (str, int, float, bool, bytes, type(None), complex):
        return repr(value)
    if kind in (list, tuple):
        return '%s[%s]' % (kind.__name__, ', '.join(show(v, depth - 1) for v in value))
    if kind in (set, frozenset):
        return '%s{%s}' % (kind.__name__, ', '.join(sorted(show(v, depth - 1) for v in value)))
    if kind is dict:
        return '{%s}' % ', '.join('%s: %s' % (show(k, depth - 1), show(v, depth - 1)) for k, v in list(value.items()))
    try:
        return '<%s>' % kind.__name__
    except BaseException:  # noqa
        return '<class>'


def interpreter(ns):
    """Settings of the interpreter that the program can see."""
    import decimal
    import gc
    import warnings
    context = decimal.getcontext()
    return repr([sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks),
                 sys.excepthook is sys.__excepthook__, threading.excepthook is threading.__excepthook__, sys.getprofile() is None,
                 context.prec, context.rounding, sorted(str(k) for k, v in context.flags.items() if v), len(warnings.filters),
                 sys.exc_info()[0], sorted(n for n in ns if not n.startswith('__')), len(vars(builtins)), os.getcwd(), len(os.environ), ns['cur']()])


class Host:
    """A program: operations in order.  line(i) is the line '#T' of the i-th, name(i) its function."""

    def __init__(self, ops, seed):
        self.ops, self.seed = list(ops), seed
        lines = HEAD.split('\n')
        self.marks = []
        for n, op in enumerate(self.ops):
            lines.append('def op%d_%s(out, st):' % (n, op))
            mark = None
            for line in OPS[op]:
                if line.endswith('  #T'):
                    line = line[:-4]
                    mark = len(lines) + 1
                lines.append('    ' + line)
            self.marks.append(mark)
            lines.append('')
        lines += ['def probe(out, st):', '    probed = 1', '    probed = probed + 1', '    return probed', '']
        self.probe = len(lines) - 2
        self.source = '\n'.join(lines)

    def line(self, i):
        """Line of a tracepoint."""
        return self.marks[i]

    def name(self, i):
        """Name of a function."""
        return 'op%d_%s' % (i, self.ops[i])

    def run(self, attach=None, limit=30.0, inherit=False, starts=None, probing=None):
        """Run in a new thread; attach: a trace function (inherit: the one that threads have anyway).  A dictionary of what is seen.

        starts: called in the thread before anything is traced, probing: before the operation that follows the program."""
        rng = random.Random(self.seed)
        hostile = c06.Hostile(rng, Values(rng), without=('make_key_changes',))   # what its text does, the program sees
        ns = {'__name__': 'host01', '__file__': PATH}
        exec(compile(self.source, PATH, 'exec'), ns)
        import contextvars
        var = contextvars.ContextVar('host', default='outer')
        st = {'data': [], 'n': self.seed, 'hostile': [hostile.one() for _ in range(3)], 'file': io.StringIO(), 'var': var}
        kept = list(st['hostile'])
        out = Out()
        box = {'result': '', 'error': '', 'traced': True, 'hung': False}
        text = io.StringIO()
        handler = logging.StreamHandler(text)
        handler.setFormatter(logging.Formatter('%(name)s %(levelname)s %(message)s'))
        logger = logging.getLogger('host')
        logger.setLevel(logging.INFO)
        logger.propagate = False
        logger.addHandler(handler)
        names = [ns[self.name(i)] for i in range(len(self.ops))]
        probe = ns['probe']

        def main():
            results = []
            for one in names:
                try:
                    results.append(show(one(out, st)))
                except BaseException as e:  # noqa
                    results.append('%s %s %s' % (type(e).__name__, show(e.args) if type(e) in (ns['E1'], ns['E2']) else '', ns['depth'](e)))
            out.ends()
            return results

        def body():
            state = random.getstate()
            random.seed(self.seed)
            import decimal
            decimal.setcontext(decimal.Context())
            old = threading.gettrace()
            if starts is not None:
                starts()
            if self.seed % 2:
                # (the program has a span already)
                otel_context.attach(otel_trace.set_span_in_context(ns['traced']().start_span('root')))
            if inherit:
                first.append(sys.gettrace())
            elif attach is not None:
                threading.settrace(attach)
                sys.settrace(attach)
            try:
                box['result'] = '|'.join(main())
                box['rand'] = repr(random.random()) + interpreter(ns)
                if probing is not None:
                    probing()
                probe(out, st)
            except BaseException as e:  # noqa
                box['error'] = '%s: %s' % (type(e).__name__, str(e)[:200])
            finally:
                out.ends()
                sys.settrace(None)
                if not inherit:
                    threading.settrace(old)
                random.setstate(state)
        first = []
        thread = threading.Thread(target=body, name='main', daemon=True)
        before = sys.gettrace()
        thread.start()
        thread.join(limit)
        logger.removeHandler(handler)
        if thread.is_alive():
            box['hung'] = True
            threading.settrace(None)
        assert sys.gettrace() is before
        if inherit:
            attach = first[0] if first else None
            box['traced'] = attach is not None
        if attach is not None:
            box['traced'] = bool(out.traces) and all(t == attach for t in out.traces)
        box['logs'] = [{'thread': k, 'items': list(v)} for k, v in sorted(out.data.items())]
        box['final'] = '|'.join([show(st['data']), str([st['hostile'].index(k) if False else [k is h for h in st['hostile']].index(True) for k in kept]),
                                 st['file'].getvalue(), text.getvalue().replace('\n', '/')[:3000], box.pop('rand', ''), show(ns.get('counter'))])
        return box
