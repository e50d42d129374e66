"""C02: a snapshot describes the paused frame."""
import random

import graphs
import values
from rig import Tp

import c07

PATHS = ['/app/src/scene.py', '/app/lib/scene.py', '/srv/app/scene.py', '/scene.py', 'scene.py', '/app/src/a b/scene.py']
OUTER = ['/app/src/outer.py', '/lib/outer.py', '/app/outer.py', '/srv/other/outer.py', '<generated>']
PREFIXES = ['/app', '/app/src', '/app/src/', '/app/lib', '/srv', '/lib', '/', '/srv/app/scene.py', '/verif', '/nowhere', 'scene']
KINDS = ['func', 'method', 'classmethod', 'static', 'lambda', 'gen', 'classbody', 'genexpr', 'nested', 'coroutine', 'recursive',
         'init', 'property', 'star', 'notself', 'decorated', 'except', 'with', 'dunder']
NAMES = ['v%d', '_p%d', '__d%d', 'self_%d', 'long_name_of_a_variable_%d', 'gr\xfc\xdf%d']


class Maker:
    """Source of one scene: a chain of callables, the innermost has the marked line."""

    def __init__(self, rng):
        self.rng = rng
        self.count = 0

    def names(self, some=None):
        """Names for local variables."""
        res = []
        for _ in range(self.rng.randint(0, 3) if some is None else some):
            self.count += 1
            res.append(self.rng.choice(NAMES) % self.count)
        return res

    def body(self, indent, call, mark):
        """Statements: assign values, then call the next callable (or the marked line), then change the data."""
        rng = self.rng
        pad = ' ' * indent
        names = self.names()
        lines = [pad + '%s = take()' % n for n in names]
        if rng.random() < 0.2:
            lines += [pad + 'box = [1, 2, 3]', pad + 'box.append(%s)' % (names[0] if names else '4')]
            names = names + ['box']
        if mark:
            target = rng.choice(names) if names else 'fresh'
            kind = rng.choice(['set', 'pass', 'clear', 'raise', 'call', 'multi'])
            if kind == 'multi':
                lines += [pad + 'after = (', pad + '    1,  #T', pad + '    2)']
            else:
                lines.append(pad + {'set': '%s = "changed"' % target, 'pass': 'fresh = 0', 'clear': 'spoil(%s)' % (target if names else '0'),
                                    'raise': 'fresh = 1 // len(str(0))', 'call': 'fresh = spoil(0)'}[kind] + '  #T')
        else:
            lines.append(pad + 'result = ' + call)
        lines.append(pad + 'spoil(%s)' % ', '.join(names))
        return lines

    def callable(self, k, depth):
        """Source of callable number k (of depth), and the expression that calls it from outside."""
        rng = self.rng
        kind = rng.choice(KINDS)
        inner = None if k + 1 == depth else self.callable(k + 1, depth)
        call, mark = (inner[1] if inner else None), inner is None
        pre = inner[0] if inner else []
        fn, cls = 'f%d' % k, rng.choice(['C%d', '_C%d', '__C%d']) % k
        params = self.names(rng.randint(0, 2))
        args = ', '.join('take()' for _ in params)
        par = ', '.join(params)
        both = lambda first: ', '.join([first] + params)  # noqa
        if kind == 'func':
            src = ['def %s(%s):' % (fn, par)] + self.body(4, call, mark)
            out = '%s(%s)' % (fn, args)
        elif kind == 'star':
            src = ['def %s(*args, **kw):' % fn] + self.body(4, call, mark)
            out = '%s(take(), take(), key=take(), _other=take())' % fn
        elif kind == 'method':
            src = ['class %s:' % cls, '    def __init__(self):', '        self.data = take()', '        self.__own = take()',
                   '    def %s(%s):' % (fn, both('self'))] + self.body(8, call, mark)
            out = '%s().%s(%s)' % (cls, fn, args)
        elif kind == 'init':
            src = ['class %s:' % cls, '    def __init__(%s):' % both('self'), '        self._half = take()'] + self.body(8, call, mark)
            out = '%s(%s)' % (cls, args)
        elif kind == 'property':
            src = ['class %s:' % cls, '    @property', '    def %s(self):' % fn] + self.body(8, call, mark)
            out = '%s().%s' % (cls, fn)
        elif kind == 'dunder':
            src = ['class %s:' % cls, '    def __call__(%s):' % both('self')] + self.body(8, call, mark)
            out = '%s()(%s)' % (cls, args)
        elif kind == 'classmethod':
            src = ['class %s:' % cls, '    @classmethod', '    def %s(%s):' % (fn, both('cls'))] + self.body(8, call, mark)
            out = '%s.%s(%s)' % (cls, fn, args)
        elif kind == 'static':
            src = ['class %s:' % cls, '    @staticmethod', '    def %s(%s):' % (fn, par)] + self.body(8, call, mark)
            out = '%s.%s(%s)' % (cls, fn, args)
        elif kind == 'notself':
            src = ['def %s(self=take()):' % fn, '    if %s: self = None' % rng.choice(['True', 'False'])] + self.body(4, call, mark)
            out = '%s()' % fn
        elif kind == 'lambda':
            if mark:
                src = ['%s = (lambda %s:' % (fn, par), '      spoil()  #T', '      )']
            else:
                src = ['%s = lambda %s: %s' % (fn, par, call)]
            out = '%s(%s)' % (fn, args)
        elif kind == 'gen':
            src = ['def %s(%s):' % (fn, par), '    yield take()'] + self.body(4, call, mark) + ['    yield take()']
            out = 'list(%s(%s))' % (fn, args)
        elif kind == 'genexpr':
            src = ['def %s(%s):' % (fn, par), '    return list(x for x in [take(), take()] if %s is not take)' % (call or 'x')]
            if mark:
                src = ['def %s(%s):' % (fn, par), '    return list(x', '                for x in [take(), take()]',
                       '                if x is not take  #T', '                )']
            out = '%s(%s)' % (fn, args)
        elif kind == 'classbody':
            src = ['def %s(%s):' % (fn, par), '    class %s:' % cls, '        """Text."""'] + self.body(8, call, mark)
            out = '%s(%s)' % (fn, args)
        elif kind == 'nested':
            src = ['def %s(%s):' % (fn, par), '    seen = take()', '    def inner(extra):', '        nonlocal seen',
                   '        used = seen'] + self.body(8, call, mark) + ['        seen = 2', '    inner(take())']
            out = '%s(%s)' % (fn, args)
        elif kind == 'decorated':
            src = ['def deco%d(func):' % k, '    def wrapper(*a):', '        return func(*a)', '    return wrapper', '@deco%d' % k,
                   'def %s(%s):' % (fn, par)] + self.body(4, call, mark)
            out = '%s(%s)' % (fn, args)
        elif kind == 'coroutine':
            src = ['async def %s(%s):' % (fn, par)] + self.body(4, call, mark)
            out = 'drive(%s(%s))' % (fn, args)
        elif kind == 'except':
            src = ['def %s(%s):' % (fn, par), '    try:', '        raise ValueError(take())', '    except ValueError as e:'] + \
                self.body(8, call, mark)
            out = '%s(%s)' % (fn, args)
        elif kind == 'with':
            src = ['def %s(%s):' % (fn, par), '    with manager(take()) as m, manager(1):'] + self.body(8, call, mark)
            out = '%s(%s)' % (fn, args)
        else:
            src = ['def %s(n):' % fn, '    mine = n', '    if n:', '        return %s(n - 1)' % fn] + self.body(4, call, mark)
            out = '%s(%d)' % (fn, rng.choice([1, 2, 3, 4, 17, 45]))
        return pre + src, out


HELPERS = '''
class manager:
    def __init__(self, v):
        self.v = v
    def __enter__(self):
        return self.v
    def __exit__(self, *a):
        return False
def drive(c):
    try:
        c.send(None)
    except StopIteration:
        pass
def spoil(*args):
    for a in args:
        if type(a) is list:
            a.append('later'); a.insert(0, 'earlier')
        elif type(a) is dict:
            a['later'] = 1; a.pop('k0', None)
        elif hasattr(a, '__dict__') and not isinstance(a, type) and type(a).__module__ == 'values':
            a.__dict__['later'] = 1
'''


def one(check, rng, n, cases):
    """One scene."""
    gen = values.Values(rng)
    maker = Maker(rng)
    depth = rng.choice([1, 1, 2, 3, 4])
    lines, call = maker.callable(0, depth)
    path, outer = rng.choice(PATHS), rng.choice(OUTER)
    threads = 3 if rng.random() < 0.15 else 1
    # the data of one thread may not change while another one is read
    pool = gen.shared(8, 6) if rng.random() < 0.3 and threads == 1 else []

    def take():
        return rng.choice(pool) if pool and rng.random() < 0.5 else gen.value(rng.choice([0, 1, 2, 3]))
    extra = {'take': take}
    graphs.host(HELPERS, '/app/src/helpers.py', extra)
    helpers = graphs.host(HELPERS, '/app/src/helpers.py', extra)
    ns = graphs.host('\n'.join(lines) + '\n\n\ndef start():\n    return %s\n' % call, path,
                     dict(extra, **{k: helpers[k] for k in ('manager', 'drive', 'spoil')}, G=gen.value(2), _shared=pool))
    go = graphs.host('def main():\n    before = 1\n    start()\n', outer, {'start': ns['start']})['main']
    line = 1 + [k for k, text in enumerate(lines) if '#T' in text][0]
    watches = rng.sample(['G', 'locals() and 1', '[G, 1]', 'nope', '1 / 0', '(', 'v1', '_p1', '__d1', 'take', 'len(str(1))',
                          '[G for _ in range(2)]', 'list(G for _ in range(1))', '(lambda: G)()', 'self', 'type(G)', 'box', 'x',
                          'e', 'm', 'args', 'kw', 'cls', 'mine', '{"a": 1}', '"text"', 'result', 'box[0]', 'len(box)'],
                         rng.randint(0, 4))
    watches = [w for w in watches if w != 'locals() and 1']
    frame_type = rng.choice([None, 'single_frame', 'all_frame', 'no_frame'])
    args = {'fire_count': '-1', 'fire_period': '0'}
    if frame_type:
        args['frame_type'] = frame_type
    if rng.random() < 0.25:
        # function entry: every callable that the chain has
        names = sorted({text.split('def ')[1].split('(')[0] for text in lines if 'def f' in text or 'def inner' in text})
        tp = Tp('t', 'scene.py', rng.choice([0, 7]), dict(args, method_name=rng.choice(names)), watches) if names else \
            Tp('t', 'scene.py', line, args, watches)
    else:
        tp = Tp('t', 'scene.py', line, args, watches)
    tps = [(tp, frame_type or 'single_frame')]
    if rng.random() < 0.25:
        other = rng.choice(['single_frame', 'all_frame', 'no_frame'])
        tps.append((Tp('u', 'scene.py', line, dict(args, frame_type=other, snapshot='collect'), watches[:1]), other))
    config = {'include': rng.sample(PREFIXES, rng.choice([0, 0, 1, 2])), 'exclude': rng.sample(PREFIXES, rng.choice([0, 0, 1, 2])),
              'root': rng.choice(PREFIXES)}
    scene = graphs.Scene(check, tps, rng.choice([None, None, {'str': 12}, {'coll': 3}, {'depth': 7}]), config)
    scene.run(*[go] * threads)
    cases += scene.cases('scene%d' % n)


def run(check):
    rng = random.Random(check.seed * 8191 + 2)
    c07.models(check)
    cases = []
    for n in range(check.pick(700, 9000)):
        one(check, rng, n, cases)
    check.notes['scenes'] = n + 1
    check.notes['frames'] = sum(len(c['frames']) for c in cases)
    graphs.judge(check, cases, 'F')
    for case in cases[:3]:
        check.sample({k: case[k] for k in ('conf', 'frames', 'watches') if k in case})
    check.assumptions += ['values whose class decides how a container subclass is shown are not prescribed',
                          'the text of a value is str() of it, the text of a container is its number of elements']
