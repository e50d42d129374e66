"""Random deterministic host programs (source text), shared by the checks that compare event streams.

A program is one or more source files with functions, methods, generators, coroutines, nested functions, recursion,
exceptions (caught, re-raised, propagating), context managers, comprehensions and threads. It always terminates: a
function only calls functions with a higher number, or itself with a smaller depth.
"""
import rig as R

PRELUDE = '''
import threading as _threading


class E1(Exception):
    pass


class E2(E1):
    pass


class CM:
    def __init__(self, out, v, swallow):
        self.out, self.v, self.swallow = out, v, swallow

    def __enter__(self):
        self.out('enter', self.v)
        return self.v

    def __exit__(self, et, ev, tb):
        self.out('exit', self.v, et.__name__ if et else None)
        return self.swallow


class Log:
    """Observations of the host, one list per thread name."""

    def __init__(self):
        self.data = {}

    def __call__(self, *args):
        self.data.setdefault(_threading.current_thread().name, []).append(args)


def run_async(coro):
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


class Tick:
    def __await__(self):
        yield


def spawn(out, name, fn, *args):
    def body():
        try:
            out('thread-result', fn(*args))
        except BaseException as e:
            out('thread-error', type(e).__name__, str(e))
    t = _threading.Thread(target=body, name=name)
    t.start()
    return t
'''


class Source:
    """One source file being written."""

    def __init__(self, name):
        self.name = name
        self.lines = []

    def add(self, indent, text):
        """Add a line; returns its number."""
        self.lines.append('    ' * indent + text)
        return len(self.lines)


class Program:
    """A generated program."""

    def __init__(self, rng, files=('/app/pa.py', '/app/lib/pb.py'), funcs=6, size=7, threads=True, hostile=False):
        self.rng = rng
        self.size = size
        self.threads = threads
        self.hostile = hostile
        self.sources = [Source(f) for f in files]
        self.funcs = []
        self.budget = 0
        count = funcs
        kinds = ['plain', 'plain', 'plain', 'gen', 'gen', 'method', 'async', 'nested', 'deco']
        for i in range(count):
            kind = 'plain' if i == 0 else rng.choice(kinds)
            name = 'f%d' % i
            if kind in ('method',):
                name = rng.choice(['run', 'work'])
            self.funcs.append({'n': i, 'kind': kind, 'name': name, 'src': rng.choice(self.sources), 'cls': 'C%d' % i})
        for func in self.funcs:
            self.function(func)
        self.fingerprint = '\n'.join('\n'.join(s.lines) for s in self.sources)

    # ---- writing ---------------------------------------------------------------------------------------------------
    def function(self, func):
        """Write one function."""
        src, rng = func['src'], self.rng
        src.add(0, '')
        base = 0
        self.cur = func
        self.budget = rng.randint(3, self.size)
        if func['kind'] == 'method':
            src.add(0, 'class %s:' % func['cls'])
            src.add(1, 'def __init__(self, v):')
            src.add(2, 'self.v = v')
            src.add(2, 'self.__hidden = [v]')
            src.add(0, '')
            base = 1
        if func['kind'] == 'deco':
            src.add(0, 'def wrap%d(fn):' % func['n'])
            src.add(1, 'def inner(out, x, depth):')
            src.add(2, 'r = fn(out, x, depth)')
            src.add(2, 'return r')
            src.add(1, 'return inner')
            src.add(0, '')
            src.add(0, '@wrap%d' % func['n'])
        args = 'out, x, depth'
        head = 'async def' if func['kind'] == 'async' else 'def'
        if func['kind'] == 'method':
            args = 'self, ' + args
        if rng.random() < 0.15:
            src.add(base, '%s %s(' % (head, func['name']))
            src.add(base + 2, '%s):' % args)
        else:
            src.add(base, '%s %s(%s):' % (head, func['name'], args))
        func['locals'] = ['x']
        src.add(base + 1, 'acc = [x]')
        if func['kind'] == 'nested':
            src.add(base + 1, 'def helper(v):')
            src.add(base + 2, 'w = v + x')
            src.add(base + 2, 'return w')
        self.block(src, base + 1, rng.randint(2, 5), 0, func)
        if func['kind'] == 'gen':
            src.add(base + 1, 'yield x')
        if rng.random() < 0.7:
            src.add(base + 1, 'return len(acc) + x')

    def block(self, src, ind, n, depth, func):
        """Write a block of statements."""
        for _ in range(n):
            self.statement(src, ind, depth, func)

    def callee(self, func):
        """A function with a higher number."""
        later = [f for f in self.funcs if f['n'] > func['n']]
        return self.rng.choice(later) if later else None

    def call(self, func, callee, arg='x'):
        """Expression that calls a function and consumes its result."""
        rng = self.rng
        if callee['kind'] == 'method':
            return "%s(x).%s(out, %s, 2)" % (callee['cls'], callee['name'], arg)
        if callee['kind'] == 'gen':
            return rng.choice(['list(%s(out, %s, 2))', 'next(%s(out, %s, 2), None)', 'sum(%s(out, %s, 1))',
                               'tuple(%s(out, %s, 1))[:1]']) % (callee['name'], arg)
        if callee['kind'] == 'async':
            return 'run_async(%s(out, %s, 2))' % (callee['name'], arg)
        return '%s(out, %s, %d)' % (callee['name'], arg, rng.randint(0, 2))

    def statement(self, src, ind, depth, func):
        """Write one statement."""
        rng = self.rng
        self.budget -= 1
        choices = ['assign', 'log', 'append', 'assign']
        if depth < 2 and self.budget > 0:
            choices += ['for', 'if', 'try', 'try', 'while', 'with', 'call', 'call', 'call', 'raise', 'recurse', 'multi',
                        'comp', 'lambda', 'return', 'genloop']
            if func['kind'] == 'gen':
                choices += ['yield', 'yield', 'yieldfrom']
            if func['kind'] == 'async':
                choices += ['await', 'await']
            if func['kind'] == 'nested':
                choices += ['helper', 'helper']
            if self.threads and func['n'] == 0:
                choices += ['thread']
        kind = rng.choice(choices)
        k = rng.randint(1, 9)
        if kind == 'assign':
            src.add(ind, rng.choice(['x = x + %d', 'x = x * %d %% 17', 'x -= %d', "y = {'k': x, 'n': [%d]}",
                                     "y = (x, 'v%d')"]) % k)
        elif kind == 'log':
            src.add(ind, "out('%s', x, %d)" % (func['name'], k))
        elif kind == 'append':
            src.add(ind, 'acc.append(x)')
        elif kind == 'for':
            src.add(ind, 'for i in range(%d):' % rng.randint(0, 3))
            self.block(src, ind + 1, rng.randint(1, 2), depth + 1, func)
            if rng.random() < 0.3:
                src.add(ind + 1, 'if i == 1:')
                src.add(ind + 2, rng.choice(['break', 'continue']))
        elif kind == 'while':
            src.add(ind, 'j = %d' % rng.randint(0, 3))
            src.add(ind, 'while j > 0:')
            src.add(ind + 1, 'j -= 1')
            self.block(src, ind + 1, 1, depth + 1, func)
        elif kind == 'if':
            src.add(ind, 'if x %% %d == %d:' % (rng.randint(2, 3), rng.randint(0, 1)))
            self.block(src, ind + 1, rng.randint(1, 2), depth + 1, func)
            if rng.random() < 0.5:
                src.add(ind, 'else:')
                self.block(src, ind + 1, 1, depth + 1, func)
        elif kind == 'try':
            src.add(ind, 'try:')
            self.block(src, ind + 1, rng.randint(1, 2), depth + 1, func)
            if rng.random() < 0.5:
                src.add(ind + 1, 'if x %% 2 == %d:' % rng.randint(0, 1))
                src.add(ind + 2, 'raise %s(x)' % rng.choice(['E1', 'E2', 'ValueError']))
            form = rng.randint(0, 3)
            if form != 3:
                src.add(ind, 'except %s as e:' % rng.choice(['E1', 'E2', 'Exception', '(E1, ValueError)']))
                src.add(ind + 1, "out('caught', type(e).__name__, str(e))")
                if form == 1:
                    src.add(ind + 1, 'if x > 4:')
                    src.add(ind + 2, rng.choice(['raise', "raise E2('again') from e"]))
            if form >= 2:
                src.add(ind, 'finally:')
                self.block(src, ind + 1, 1, 2, func)
        elif kind == 'with':
            src.add(ind, 'with CM(out, x, %s) as w:' % rng.choice(['True', 'False']))
            self.block(src, ind + 1, rng.randint(1, 2), depth + 1, func)
        elif kind == 'call':
            callee = self.callee(func)
            if callee is None:
                src.add(ind, "x = int(str(x)) + len(acc)")
            else:
                text = self.call(func, callee)
                src.add(ind, rng.choice(['y = %s', "out('got', %s)", 'acc.append(%s)']) % text)
        elif kind == 'raise':
            src.add(ind, 'if x %% 5 == %d:' % rng.randint(0, 4))
            src.add(ind + 1, 'raise %s(x)' % rng.choice(['E1', 'E2', 'KeyError']))
        elif kind == 'recurse':
            if func['kind'] in ('plain', 'nested', 'deco'):
                src.add(ind, 'if depth > 0:')
                src.add(ind + 1, 'y = %s(out, x + 1, depth - 1)' % func['name'])
            elif func['kind'] == 'method':
                src.add(ind, 'if depth > 0:')
                src.add(ind + 1, 'y = self.%s(out, x + 1, depth - 1)' % func['name'])
            else:
                src.add(ind, 'y = x')
        elif kind == 'multi':
            src.add(ind, 'y = [')
            src.add(ind + 1, 'x,')
            src.add(ind + 1, 'x + %d,' % k)
            src.add(ind, ']')
        elif kind == 'comp':
            src.add(ind, rng.choice(['y = [v + x for v in range(3)]', 'y = {v: x for v in range(2)}',
                                     'y = sum(v for v in range(3))']))
        elif kind == 'lambda':
            src.add(ind, 'y = (lambda v: v + x)(%d)' % k)
        elif kind == 'return':
            if func['kind'] == 'gen':
                src.add(ind, 'if x > 9:')
                src.add(ind + 1, 'return')
            else:
                src.add(ind, 'if x > %d:' % rng.randint(3, 12))
                src.add(ind + 1, 'return x')
        elif kind == 'genloop':
            gens = [f for f in self.funcs if f['n'] > func['n'] and f['kind'] == 'gen']
            if not gens:
                src.add(ind, 'for c in "ab": acc.append(c)' if False else 'acc.append(x)')
            else:
                g = rng.choice(gens)
                form = rng.randint(0, 2)
                if form == 0:
                    src.add(ind, 'for v in %s(out, x, 1):' % g['name'])
                    self.block(src, ind + 1, 1, 2, func)
                    if rng.random() < 0.5:
                        src.add(ind + 1, 'break')
                elif form == 1:
                    src.add(ind, 'g = %s(out, x, 1)' % g['name'])
                    src.add(ind, 'next(g, None)')
                    self.block(src, ind, 1, 2, func)
                    src.add(ind, 'g.close()')
                else:
                    src.add(ind, 'g = %s(out, x, 1)' % g['name'])
                    src.add(ind, 'next(g, None)')
                    src.add(ind, 'try:')
                    src.add(ind + 1, "g.throw(E1('thrown'))")
                    src.add(ind, 'except (E1, StopIteration) as e:')
                    src.add(ind + 1, "out('threw', type(e).__name__)")
        elif kind == 'yield':
            src.add(ind, rng.choice(['yield x', 'yield x + 1']))
        elif kind == 'yieldfrom':
            src.add(ind, rng.choice(['yield from (x, x + 1)', 'yield from range(2)']))
        elif kind == 'await':
            coros = [f for f in self.funcs if f['n'] > func['n'] and f['kind'] == 'async']
            if coros and rng.random() < 0.6:
                src.add(ind, 'y = await %s(out, x, 1)' % rng.choice(coros)['name'])
            else:
                src.add(ind, 'await Tick()')
        elif kind == 'helper':
            src.add(ind, 'y = helper(x)')
        elif kind == 'thread':
            callee = self.callee(func)
            if callee is None or callee['kind'] != 'plain':
                src.add(ind, 'acc.append(x)')
            else:
                n = len(src.lines)
                src.add(ind, "t = spawn(out, 'T%d', %s, out, x, 1)" % (n, callee['name']))
                src.add(ind, 't.join()')

    # ---- running ---------------------------------------------------------------------------------------------------
    def load(self):
        """Compile; returns (namespace, log)."""
        ns = {'__name__': 'host_prog'}
        exec(compile(PRELUDE, '/app/prelude_host.py', 'exec'), ns)
        for src in self.sources:
            exec(compile('\n'.join(src.lines) + '\n', src.name, 'exec'), ns)
        return ns, ns['Log']()

    def entry(self, ns, log, x=3):
        """The entry of the program as a function without arguments."""
        def main():
            try:
                log('result', ns['f0'](log, x, 2))
            except BaseException as e:  # noqa
                log('error', type(e).__name__, str(e))
        return main

    def executed(self, x=3):
        """Lines and functions that a run reaches: [(file, line)], [(file, function)]."""
        import os
        import sys
        import threading
        names = {s.name: os.path.basename(s.name) for s in self.sources}
        lines, funcs = {}, {}

        def trace(frame, event, arg):
            name = names.get(frame.f_code.co_filename)
            if name is None:
                return None
            if event == 'line':
                lines[name, frame.f_lineno] = lines.get((name, frame.f_lineno), 0) + 1
            elif event == 'call':
                funcs[name, frame.f_code.co_name] = 1
            return trace
        ns, log = self.load()
        main = self.entry(ns, log, x)

        def body():
            sys.settrace(trace)
            try:
                main()
            finally:
                sys.settrace(None)
        old = threading.gettrace()
        threading.settrace(trace)
        try:
            thread = threading.Thread(target=body, name='main')
            thread.run = body
            thread.start()
            thread.join()
        finally:
            threading.settrace(old)
        return sorted(lines), sorted(f for f in funcs if f[1] != '<module>')

    def locations(self):
        """Lines and functions: [(file, line)], [(file, function)]."""
        import os
        lines = [(os.path.basename(s.name), n + 1) for s in self.sources for n, t in enumerate(s.lines) if t.strip()]
        funcs = sorted({(os.path.basename(f['src'].name), f['name']) for f in self.funcs})
        return lines, funcs


def simple(source, filename='/app/simple.py', extra=None):
    """Namespace of a fixed program."""
    return R.compile_module(source, filename, extra)
