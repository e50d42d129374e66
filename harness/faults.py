"""Failures at every point of the agent: its functions are compiled with a call before each statement that can fail.

Only the check that uses this imports it (before the agent is imported).  A statement can fail when it calls something, iterates or
enters a context.  Left out: the handlers of exceptions and `finally` (what is done about a failure), the logging of the agent (it
is made to fail by handlers instead), and the function that the interpreter itself calls (a failure there has no frame to stop in).
"""
import ast
import builtins
import sys
import threading

import boot

NAME = '__verif_fault__'
SKIP = ('deep/logging/',)


class Faults:
    """What is to fail."""

    sites = {}            # number -> (file, line)
    mode = None           # None, 'count', 'fire'
    threads = set()       # idents of the threads of the host
    counts = {}
    entry = None
    site = left = None
    error = None
    fired = False
    only = None           # (function, event[, line]) of the host that is handled, or None

    @classmethod
    def count(cls, entry, only=None):
        """Only count."""
        cls.mode, cls.counts, cls.entry, cls.fired, cls.only = 'count', {}, entry, False, only

    @classmethod
    def fire(cls, entry, site, nth, error, only=None):
        """Fail the nth time that the site is reached."""
        cls.mode, cls.site, cls.left, cls.error, cls.entry, cls.fired, cls.only = 'fire', site, nth, error, entry, False, only

    @classmethod
    def off(cls):
        """No failures."""
        cls.mode = None


def handled(only):
    """Is this the event that is handled."""
    frame = sys._getframe(2)
    while frame is not None and frame.f_code is not Faults.entry:
        frame = frame.f_back
    if frame is None:
        return False
    names = frame.f_code.co_varnames
    seen = frame.f_locals
    host = seen[names[1]]
    return (host.f_code.co_name, seen[names[2]]) == only[:2] and host.f_lineno in (only[2:] or (host.f_lineno,))


def hit(number):
    """A statement is about to run."""
    mode = Faults.mode
    if mode is None or threading.get_ident() not in Faults.threads:
        return
    if sys._getframe(1).f_code is Faults.entry:
        return
    if Faults.only is not None and not handled(Faults.only):
        return
    if mode == 'count':
        Faults.counts[number] = Faults.counts.get(number, 0) + 1
    elif number == Faults.site and not Faults.fired:
        Faults.left -= 1
        if Faults.left <= 0:
            Faults.fired = True
            raise Faults.error


def code_of(function):
    """The code that runs when it is called."""
    inner = getattr(function, '__func__', function)
    code = getattr(inner, '__code__', None)
    if code is None:
        code = getattr(type(function).__call__, '__code__', None)
    return code


BODIES = ('body', 'orelse', 'finalbody', 'handlers', 'cases')


def own(node):
    """The parts of a statement without the statements in it."""
    for name, value in ast.iter_fields(node):
        if name in BODIES or name in ('decorator_list', 'args', 'returns', 'annotation'):
            continue
        for one in value if isinstance(value, list) else [value]:
            if isinstance(one, ast.AST):
                yield one


def can_fail(node):
    """Can the statement itself fail."""
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Try, ast.Pass, ast.Global, ast.Nonlocal, ast.Raise)):
        return False
    if isinstance(node, (ast.For, ast.With)):
        return True
    return any(isinstance(sub, (ast.Call, ast.Await, ast.comprehension)) for part in own(node) for sub in ast.walk(part))


class Insert(ast.NodeTransformer):
    """Puts the calls in."""

    def __init__(self, path):
        self.path, self.depth = path, 0

    def block(self, statements):
        """A block in a function."""
        result = []
        for node in statements:
            if self.depth and can_fail(node):
                number = len(Faults.sites)
                Faults.sites[number] = (self.path, node.lineno)
                call = ast.Expr(ast.Call(ast.Name(NAME, ast.Load()), [ast.Constant(number)], []))
                ast.copy_location(call, node)
                for sub in ast.walk(call):
                    sub.lineno, sub.col_offset, sub.end_lineno, sub.end_col_offset = node.lineno, node.col_offset, node.lineno, node.col_offset
                result.append(call)
            result.append(self.inside(node))
        return result

    def inside(self, node):
        """The blocks of a statement."""
        function = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef))
        self.depth += function
        for name in ('body', 'orelse'):
            value = getattr(node, name, None)
            if isinstance(value, list):
                setattr(node, name, self.block(value))
        for case in getattr(node, 'cases', ()):
            case.body = self.block(case.body)
        self.depth -= function
        return node


def transform(source, path):
    """The code of a module."""
    name = path[len(boot.SRC) + 1:].replace('\\', '/')
    tree = ast.parse(source, path)
    if not any(name.startswith(skip) for skip in SKIP):
        tree.body = Insert(name).block(tree.body)
    return compile(tree, path, 'exec')


def install():
    """From now on the agent is compiled like that."""
    setattr(builtins, NAME, hit)
    boot.Transform.function = transform
