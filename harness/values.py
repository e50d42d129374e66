"""Random values for host programs."""
import random


class Plain:
    """An object with attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class _Under:
    def __init__(self, v):
        self._prot = v
        self.__priv = v
        self.pub = v


class Base:
    def __init__(self, v):
        self.__hidden = v
        self.__dunder__ = 1


class Child(Base):
    def __init__(self, v, w):
        Base.__init__(self, v)
        self.__hidden = w


class Mangled:
    """Attributes whose names look like those that python makes of private ones, in every place."""

    def __init__(self, rng, some):
        own = type(self).__name__
        for k, v in enumerate(some):
            self.__dict__[rng.choice(['_%s__a%d', '_%s_a%d', '__%s__a%d', '_%s__x_%s__a%d', '_%s___a%d', 'a_%s__b%d', '_Plain__a%.0s%d', '_%s__',
                                      '_%s__%s__a%d', '_%s__a_Mangled%d', '_%s__%d__', '%s__a%d', '_%s%s__a%d', '_%s__a%d__b__'])
                          .replace('%s', own).replace('%.0s', '').replace('%d', str(k))] = v


class _Mangled(Mangled):
    pass


class Slots:
    __slots__ = ('a', 'b')

    def __init__(self, a):
        self.a = a


class Err(Exception):
    pass


def cheap(value, budget=20000):
    """Does the text of the value stay small (the text of containers grows with every path through them)."""
    left = [budget]

    def walk(v, on):
        left[0] -= 1
        if left[0] < 0 or type(v) not in (list, tuple, dict) or id(v) in on:
            return
        for kid in (v.values() if type(v) is dict else v):
            walk(kid, on | {id(v)})
            if left[0] < 0:
                return
    walk(value, frozenset())
    return left[0] >= 0


class Changing:
    """A key that changes its dictionary when it is asked for its text."""

    def __init__(self, where, add):
        self.where, self.add = where, add

    def __str__(self):
        if self.add:
            self.where['new%d' % len(self.where)] = 1
        else:
            self.where.pop('last', None)
        return 'changes'

    __repr__ = __str__


class Values:
    """Generator of values."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def fresh(self):
        """A new number."""
        self.n += 1
        return self.n

    def scalar(self):
        """A scalar."""
        rng = self.rng
        k = self.fresh()
        return rng.choice([
            lambda: k, lambda: -k * 1000, lambda: 10 ** 30 + k, lambda: k + 0.5, lambda: True, lambda: False, lambda: None,
            lambda: 'text %d' % k, lambda: '', lambda: 'x' * rng.choice([1, 5, 1023, 1024, 1025, 3000]),
            lambda: 'line\nbreak\t%d' % k, lambda: 'gr\xfc\xdf \u4e2d %d' % k, lambda: '\U0001f600%d' % k, lambda: b'bytes',
            lambda: complex(1, k), lambda: range(k), lambda: float('inf'), lambda: int, lambda: len, lambda: Ellipsis])()

    def value(self, depth=3):
        """A value of any shape."""
        rng = self.rng
        if depth <= 0 or rng.random() < 0.35:
            return self.scalar()
        kind = rng.choice(['list', 'tuple', 'dict', 'set', 'frozenset', 'obj', 'err', 'iter', 'under', 'child', 'slots', 'keys', 'mangled',
                           'list', 'dict', 'obj'])
        count = rng.choice([0, 1, 2, 3, 4, 9, 10, 11, 14]) if depth < 3 else rng.randint(0, 5)
        some = [self.value(depth - 1) for _ in range(count)]
        if kind == 'list':
            return some
        if kind == 'tuple':
            return tuple(some)
        if kind == 'dict':
            return {'%sk%d' % (rng.choice(['', '_', '__']), j): v for j, v in enumerate(some)}
        if kind == 'set':
            return {self.fresh() for _ in range(count)}
        if kind == 'frozenset':
            return frozenset('s%d' % self.fresh() for _ in range(count))
        if kind == 'obj':
            return Plain(**{'%sa%d' % (rng.choice(['', '_', '__']), j): v for j, v in enumerate(some)})
        if kind == 'err':
            return rng.choice([Err, ValueError, KeyError, KeyboardInterrupt, BaseException])(*some[:3])
        if kind == 'iter':
            return rng.choice([iter, reversed])(some)
        if kind == 'under':
            return _Under(some)
        if kind == 'child':
            return Child(some, self.scalar())
        if kind == 'mangled':
            return rng.choice([Mangled, _Mangled])(rng, some)
        if kind == 'slots':
            return Slots(some)
        keys = [1, 'one', 2.5, (1, 2), None, True, b'b', frozenset([1]), tuple(range(60)), 'long' * 90, b'raw' * 50, -10 ** 110]
        if rng.random() < 0.5:
            rng.shuffle(keys)
        return dict(zip(keys, some))

    def shared(self, roots, size):
        """`roots` values over a random graph of `size` objects with sharing and cycles."""
        rng = self.rng
        objs = []
        for _ in range(size):
            kind = rng.choice(['list', 'dict', 'obj', 'list', 'dict', 'scalar', 'tuple'])
            if kind == 'scalar':
                objs.append(self.scalar())
            elif kind == 'tuple':
                objs.append(tuple(rng.choice(objs) for _ in range(rng.randint(0, 3))) if objs else ())
            else:
                objs.append({'list': list, 'dict': dict, 'obj': Plain}[kind]())
        for obj in objs:
            for j in range(rng.choice([0, 1, 2, 3, 3, 12])):
                other = rng.choice(objs)
                if type(obj) is list:
                    obj.append(other)
                elif type(obj) is dict:
                    obj['k%d' % j] = other
                elif type(obj) is Plain:
                    setattr(obj, 'a%d' % j, other)
        return [rng.choice(objs) for _ in range(roots)]
