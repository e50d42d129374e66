"""C06: collection is total, and the snapshots of different tracepoints do not affect each other."""
import array
import asyncio
import collections
import dataclasses
import datetime
import decimal
import enum
import functools
import io
import os
import random
import re
import sys
import threading
import types
import unittest.mock
import weakref

import c07
import graphs
import values
from rig import Tp


class Boom(Exception):
    """Raised by the hostile objects."""


class Base(BaseException):
    """Raised by the hostile objects (not an Exception)."""


RAISES = [Boom, Base, KeyboardInterrupt, SystemExit, RecursionError, StopIteration, GeneratorExit, MemoryError, AttributeError]


def boom(error):
    """A method that fails."""
    def fail(*args, **kw):
        raise error('hostile')
    return fail


def endless(self):
    """str() that never ends."""
    return str(self)


class StrLike(str):
    """Text that does not behave."""

    __slots__ = ()
    __len__ = boom(Boom)
    __getitem__ = boom(Boom)
    __str__ = boom(Boom)
    __iter__ = boom(Boom)
    __format__ = boom(Boom)
    encode = boom(Boom)
    startswith = boom(Boom)


class Meta(type):
    """A class that does not behave."""

    __repr__ = boom(Boom)
    __str__ = boom(Boom)
    __eq__ = boom(Boom)
    __hash__ = type.__hash__
    __instancecheck__ = boom(Boom)
    __subclasscheck__ = boom(Boom)

    @property
    def __name__(cls):
        raise Boom('hostile')


class Hashy:
    """Key of a dictionary that does not behave after it was stored."""

    angry = False

    def __hash__(self):
        if Hashy.angry:
            raise Boom('hostile')
        return 1

    def __eq__(self, other):
        if Hashy.angry:
            raise Boom('hostile')
        return self is other

    __str__ = boom(Boom)


class Hostile:
    """Makes objects that do not behave."""

    def __init__(self, rng, gen, without=()):
        self.rng, self.gen, self.without = rng, gen, without

    def cls(self, bases, slots=False, **methods):
        """A class with hostile methods."""
        meta = type(bases[0]) if bases else type
        space = dict(methods)
        if slots:
            space['__slots__'] = ('one', 'two')
        return meta('Hostile%d' % self.gen.fresh(), bases, space)

    def one(self):
        """Any object that does not behave."""
        rng = self.rng
        error = rng.choice(RAISES)
        fail = boom(error)
        kind = rng.choice([n for n in dir(self) if n.startswith('make_') and n not in self.without])
        return getattr(self, kind)(fail)

    def some(self):
        """Ordinary content."""
        return self.gen.value(1)

    def make_text(self, fail):
        return self.cls((), __str__=fail, __repr__=fail)()

    def make_text_content(self, fail):
        obj = self.cls((), __str__=fail, __repr__=fail)()
        obj.__dict__.update(a=self.some(), b=[self.some()])
        return obj

    def make_not_text(self, fail):
        return self.cls((), __str__=lambda s: 5, __repr__=lambda s: None)()

    def make_text_class(self, fail):
        return self.cls((), __str__=lambda s: StrLike('text'))()

    def make_endless(self, fail):
        return self.cls((), __str__=endless, __repr__=endless)()

    def make_getattribute(self, fail):
        obj = self.cls((), __getattribute__=fail)()
        object.__getattribute__(obj, '__dict__').update(a=self.some())
        return obj

    def make_getattr(self, fail):
        return self.cls((), __getattr__=fail)()

    def make_class_property(self, fail):
        return self.cls((), __class__=property(fail))()

    def make_class_lie(self, fail):
        return self.cls((), __class__=property(lambda s: self.rng.choice([list, dict, str, int])))()

    def make_dict_property(self, fail):
        return self.cls((), __dict__=property(fail))()

    def make_dict_odd(self, fail):
        return self.cls((), __dict__=property(lambda s: self.rng.choice([5, None, [1], 'text'])))()

    def make_slots(self, fail):
        obj = self.cls((), slots=True)()
        obj.one = self.some()
        return obj

    def make_slots_text(self, fail):
        return self.cls((), slots=True, __str__=fail, __repr__=fail)()

    def make_dict_keys(self, fail):
        obj = self.cls(())()
        obj.__dict__[5] = self.some()
        obj.__dict__[(1, 2)] = self.some()
        obj.ok = self.some()
        return obj

    def make_list(self, fail):
        obj = self.cls((list,), __len__=fail, __iter__=fail, __str__=fail, __repr__=fail)()
        list.append(obj, self.some())
        return obj

    def make_dict(self, fail):
        obj = self.cls((dict,), __len__=fail, __iter__=fail, keys=fail, items=fail, __getitem__=fail, __repr__=fail)()
        dict.__setitem__(obj, 'key', self.some())
        return obj

    def make_tuple(self, fail):
        return self.cls((tuple,), __len__=fail, __iter__=fail, __repr__=fail)((1, 2))

    def make_set(self, fail):
        return self.cls((set,), __len__=fail, __iter__=fail, __repr__=fail)()

    def make_int(self, fail):
        return self.cls((int,), __str__=fail, __repr__=fail, __format__=fail)(7)

    def make_strlike(self, fail):
        return StrLike('some text')

    def make_hashy(self, fail):
        Hashy.angry = False
        obj = {Hashy(): self.some(), 'ok': self.some(), 4: self.some()}
        Hashy.angry = True
        return obj

    def make_keys(self, fail):
        bad = self.cls((), __str__=fail, __repr__=fail)
        return {bad(): self.some(), b'raw': self.some(), None: self.some(), 1.5: 1, (1, 'x'): 2, frozenset([1]): 3, 'ok': 4}

    def make_key_changes(self, fail):
        """Asking a key for its text changes the dictionary (a cache, say)."""
        some = {}
        some[values.Changing(some, self.rng.random() < 0.5)] = self.some()
        some.update(ok=self.some(), last=1)
        return some

    def make_long_key(self, fail):
        return {tuple(range(80)): self.some(), 'n' * 3000: self.some(), frozenset(['f' * 200]): 1, b'b' * 150: 2, 10 ** 120: 3}

    def make_base_exception(self, fail):
        return self.rng.choice([KeyboardInterrupt, SystemExit, GeneratorExit, BaseException])(self.some(), self.some())

    def make_key_class(self, fail):
        return {StrLike('key'): self.some(), 'ok': self.some()}

    def make_empty_key(self, fail):
        return {'': self.some(), '_': 1, '__': 2, '___': self.some()}

    def make_metaclass(self, fail):
        return Meta('Odd', (), {})

    def make_of_metaclass(self, fail):
        obj = Meta('Odd', (), {})()
        object.__getattribute__(obj, '__dict__').update(a=self.some())
        return obj

    def make_exception(self, fail):
        return self.cls((Exception,), __str__=fail, __repr__=fail, args=property(fail))(self.some(), 1)

    def make_exception_group(self, fail):
        return ExceptionGroup('some', [ValueError(self.some()), KeyError(1)])

    def make_unicode_error(self, fail):
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'no')

    def make_surrogate(self, fail):
        return self.rng.choice(['\ud800', 'a\udcffb', '\udfff' * 2000, '\ud83d\ude00'])

    def make_surrogate_name(self, fail):
        obj = values.Plain()
        obj.__dict__['\ud800'] = self.some()
        obj.__dict__['ok'] = self.some()
        return obj

    def make_surrogate_key(self, fail):
        return {'\udcff': self.some(), 'ok': self.some(), '\udcfe': 1}

    def make_null(self, fail):
        return 'nul\x00 and \x01\x1b[0m'

    def make_huge_int(self, fail):
        return 10 ** 6000

    def make_generator(self, fail):
        def gen():
            yield 1
            raise Boom('hostile')
        obj = gen()
        next(obj)
        return obj

    def make_iterator(self, fail):
        return self.rng.choice([lambda: iter([1]), lambda: iter({1: 2}), lambda: iter({1}), lambda: reversed([1]), lambda: zip([1]),
                                lambda: map(boom(Boom), [1]), lambda: enumerate([1]), lambda: iter('abc'), lambda: iter(range(3)),
                                lambda: (x for x in [1]), lambda: {1: 2}.items(), lambda: {1: 2}.keys(), lambda: {1: 2}.values(),
                                lambda: iter(boom(Boom), 1), lambda: filter(None, [1])])()

    def make_builtin(self, fail):
        return self.rng.choice([
            lambda: len, lambda: str.join, lambda: [].append, lambda: type, lambda: object, lambda: object(), lambda: sys,
            lambda: memoryview(b'abc'), lambda: bytearray(b'abc'), lambda: array.array('i', [1]), lambda: re.compile('a'),
            lambda: re.match('a', 'a'), lambda: threading.Lock(), lambda: threading.RLock(), lambda: threading.local(),
            lambda: types.MappingProxyType({'a': 1}), lambda: types.SimpleNamespace(a=1), lambda: property(len),
            lambda: staticmethod(len), lambda: functools.partial(len, 1), lambda: slice(1, 2), lambda: super(values.Child, values.Child(1, 2)),
            lambda: sys._getframe(), lambda: (lambda: 0).__code__, lambda: types.CellType(5), lambda: io.StringIO('x'),
            lambda: weakref.ref(values.Plain), lambda: weakref.proxy(values.Plain), lambda: collections.OrderedDict(a=1),
            lambda: collections.defaultdict(list, a=[1]), lambda: collections.deque([1]), lambda: collections.Counter('aab'),
            lambda: collections.ChainMap({'a': 1}), lambda: collections.UserDict(a=1), lambda: decimal.Decimal('1.5'),
            lambda: datetime.datetime(2020, 1, 1), lambda: NotImplemented, lambda: Ellipsis, lambda: float('nan'),
            lambda: unittest.mock.MagicMock(), lambda: unittest.mock.Mock(spec=dict), lambda: os.environ, lambda: Color.RED,
            lambda: Point(1, [2]), lambda: Data(1, [2]), lambda: asyncio.Queue, lambda: types.GenericAlias(list, (int,)),
            lambda: range(10 ** 20), lambda: os.stat('/'), lambda: sys.flags, lambda: b'\xff\xfe'])()

    def make_dead_proxy(self, fail):
        obj = values.Plain(a=1)
        return weakref.proxy(obj)

    def make_cycle(self, fail):
        a, b, c = [], {}, values.Plain()
        a += [a, b, c]
        b.update(a=a, b=b, c=c)
        c.__dict__.update(me=c, a=a, d=c.__dict__)
        return self.rng.choice([a, b, c])

    def make_deep(self, fail):
        value = []
        for _ in range(3000):
            value = [value]
        return value

    def make_module(self, fail):
        mod = types.ModuleType('odd')
        mod.__class__ = self.cls((types.ModuleType,), __repr__=fail, __getattr__=fail)
        return mod

    def make_descriptor(self, fail):
        return self.cls((), a=property(fail), b=property(fail))()

    def make_bool(self, fail):
        return self.cls((), __bool__=fail, __len__=fail, __eq__=fail, __hash__=fail, __iter__=fail, __contains__=fail)()

    def make_eq(self, fail):
        return self.cls((), __eq__=lambda s, o: True, __hash__=lambda s: 1)()

    def make_format(self, fail):
        return self.cls((), __format__=fail, __sizeof__=fail, __reduce__=fail, __dir__=fail)()


class Color(enum.Enum):
    """Enum."""

    RED = 1


Point = collections.namedtuple('Point', 'x y')


@dataclasses.dataclass
class Data:
    """Dataclass."""

    x: int
    y: list


def one(check, rng, n, cases):
    """One program: good and hostile values side by side, several tracepoints on the line."""
    Hashy.angry = False
    gen = values.Values(rng)
    make = Hostile(rng, gen)
    locals_ = []
    for _ in range(rng.randint(1, 5)):
        kind = rng.choice(['bad', 'bad', 'good', 'list', 'dict', 'obj', 'tuple'])
        some = [make.one() if rng.random() < 0.5 else gen.value(1) for _ in range(rng.randint(1, 4))]
        locals_.append({'bad': lambda: make.one(), 'good': lambda: gen.value(2), 'list': lambda: some, 'tuple': lambda: tuple(some),
                        'dict': lambda: {'k%d' % j: v for j, v in enumerate(some)},
                        'obj': lambda: values.Plain(**{'a%d' % j: v for j, v in enumerate(some)})}[kind]())
    names = [('self' if j == 0 and rng.random() < 0.3 else 'v%d' % j) for j in range(len(locals_))]
    place = rng.choice(['func', 'func', 'class', 'gen', 'module'])
    if place == 'class':
        source = 'def f(%s):\n    class Inner:\n        %s\n        pass\n' % (
            ', '.join('_' + x for x in names), '; '.join('%s = _%s' % (x, x) for x in names))
        line = 4
    elif place == 'gen':
        source = 'def f(%s):\n    def inner(%s):\n        x = 1\n        yield x\n    return list(inner(%s))\n' % ((', '.join(names),) * 3)
        line = 4
    elif place == 'module':
        source = 'def f(%s):\n    exec(CODE, dict(%s))\n    return 1\n' % (', '.join(names), ', '.join('%s=%s' % (x, x) for x in names))
        line = 2
    else:
        source = 'def f(%s):\n    last = 0\n    return %s\n' % (', '.join(names), rng.choice(names))
        line = 3
    deco = rng.random() < 0.1
    ns = graphs.host(source, extra={'CODE': compile('a = 1\nb = 2\n', 'scene.py', 'exec'), 'BAD': make.one(), 'BADS': [make.one() for _ in range(5)]})
    outer = graphs.host('def main(f, args):\n    return f(*args)\n', '/app/\udcff.py' if deco else '/app/outer.py')
    pool = names + ['BAD', 'BADS[%d]' % rng.randrange(5), '[BAD, 1]', 'nope', '1/0', '__import__("sys").exit(3)', '(', '', 'exec("x = 1")', '\x00',
                    '\u00e9', '(_ for _ in ()).throw(KeyboardInterrupt)', 'BAD == BAD', 'last', '"\\ud800"', 'BADS[1:]',
                    'int("9" * 10000)', 'vars()', 'yield']
    tps = []
    for k in range(rng.choice([1, 1, 2, 3, 4])):
        frame_type = rng.choice(['single_frame', 'single_frame', 'all_frame', 'no_frame'])
        args = {'fire_count': '-1', 'fire_period': '0', 'frame_type': frame_type}
        watches = rng.sample(pool, rng.choice([0, 1, 2, 3]))
        if '"\\ud800"' in watches and rng.random() < 0.5:
            watches = []
        where = line
        if place in ('func', 'gen') and rng.random() < 0.25:
            args['method_name'] = 'f'
            where = 0
            if rng.random() < 0.5:
                args['stage'] = 'method_capture'
        tp = Tp('t%d' % k, 'scene.py', where, args, watches)
        if rng.random() < 0.3:
            tp.fields = [x for x in rng.sample(names + ['BAD', 'nope', 'BADS[%d]' % rng.randrange(5)], 2)]
            tp.args['log_msg'] = 'at ' + ' '.join('{%s}' % x for x in tp.fields)
        tps.append((tp, frame_type))
    scene = graphs.Scene(check, tps, rng.choice([None, None, None, {'depth': 3}, {'str': 20}, {'vars': 15}]))
    scene.run(lambda: outer['main'](ns['f'], locals_))
    Hashy.angry = False
    cases += scene.cases('hostile%d' % n)


CLAUSES = ['a variable within the limits is missing', 'a child is missing', 'a child was added', 'a local variable is missing',
           'a local variable was added', 'the type of a variable', 'the value of a variable', 'the name of a variable',
           'a watch has no value', 'the number of stack frames', 'a frame that should not has variables',
           'the watches are not those']


def run(check):
    rng = random.Random(check.seed * 3571 + 6)
    c07.models(check)
    cases = []
    for n in range(check.pick(700, 9000)):
        one(check, rng, n, cases)
    graphs.judge(check, cases, 'TFK', {'F': CLAUSES, 'K': ['does not resolve', 'two objects share']})
    check.notes['programs'] = n + 1
    for case in cases[:2]:
        check.sample({k: case[k] for k in ('nodes', 'frames', 'watches', 'got') if k in case})
    check.assumptions += ['an object whose str() does not come back, or that ends the process, is outside of the property',
                          'any text is accepted as the placeholder of a value whose text cannot be made']
