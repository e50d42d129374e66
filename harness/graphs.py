"""Independent reading of a paused program, and snapshots as the service receives them, as cases of SnapshotJudge."""
import builtins
import os
import sys
import threading
import _thread
import types
import unittest.mock

import boot
import vlib
from recorder import Recorder
from rig import Rig, Tp
from values import Changing

from deep.grpc import convert_response

_name_of = type.__dict__['__name__'].__get__
_dict_of = object.__getattribute__
SEQS = (list, tuple, set, frozenset)
MOVING = unittest.mock.NonCallableMock    # str() of it changes it
SCALARS = (str, int, float, bool, type, type(None), types.ModuleType, types.TracebackType)
ITERS = (type(iter([])), type(reversed([])))
DEFAULTS = {'vars': 1000, 'coll': 10, 'str': 1024, 'depth': 5}


def esc(text):
    """ASCII form of any text."""
    return str.__str__(text).encode('ascii', 'backslashreplace').decode('ascii')


def plain(text):
    """Is the text the same for Python, for TLC and in JSON."""
    return all(32 <= ord(c) < 127 for c in text)


class Reader:
    """Reads objects into the nodes of a case, without running any code of theirs except str() (as a snapshot shows it)."""

    def __init__(self, limits):
        self.limits = limits
        self.nodes = []
        self.ids = {}
        self.hold = []
        self.anyfree = False
        self.todo = []

    def node(self, value):
        """Number of the node of an object."""
        if id(value) in self.ids:
            return self.ids[id(value)]
        self.hold.append(value)
        self.nodes.append(None)
        n = len(self.nodes)
        self.ids[id(value)] = n
        self.todo.append((n, value))
        return n

    def settle(self):
        """Read everything that is reachable (within the depth that can matter)."""
        depth = {}
        limit = self.limits['depth'] + 1
        while self.todo:
            n, value = self.todo.pop(0)
            d = depth.get(n, 0)
            before = len(self.nodes)
            self.nodes[n - 1] = self.read(value, d < limit)
            for m in range(before + 1, len(self.nodes) + 1):
                depth[m] = d + 1

    def text(self, value):
        """Text of a value: None if str() fails."""
        try:
            return str.__str__(str(value))
        except BaseException:  # noqa
            return None

    def read(self, value, deeper):
        """Read one object."""
        t = type(value)
        kids, cap, free = [], False, False
        if t is dict and any(type(key) is Changing for key in value):
            # (it changes while it is looked at)
            self.anyfree = True
            return {'type': 'dict', 'texts': [], 'ascii': True, 'long': False, 'kids': [], 'cap': False, 'free': True}
        texts = None
        if t is dict or any(t is s for s in SEQS):
            texts = ['Size: %d' % len(value)]
        elif issubclass(t, MOVING):
            texts, deeper, self.anyfree = [], False, True
        elif any(t is s for s in ITERS):
            texts = ['Iterator of type: %s' % t]
        else:
            text = self.text(value)
            texts = [] if text is None or self.lone(text) else [text]
        if not deeper:
            free = True
        elif t is dict:
            kids = self.items(list(value.items()), None)
        elif any(t is s for s in SEQS):
            cap = True
            kids = [{'names': [str(i)], 'raw': str(i), 'n': self.node(v)}
                    for i, v in enumerate(list(value)[:self.limits['coll'] + 2])]
        elif any(t is s for s in SCALARS + ITERS):
            pass
        elif issubclass(t, BaseException):
            cap = True
            kids = [{'names': [str(i)], 'raw': str(i), 'n': self.node(v)}
                    for i, v in enumerate(BaseException.args.__get__(value)[:self.limits['coll'] + 2])]
        elif issubclass(t, (dict,) + SEQS):
            # shown as their size with their elements, or as an object with its attributes
            texts = texts + ['Size: %d' % n for n in [self.size(value)] if n is not None] if texts else texts
            free = True
        elif issubclass(t, type):
            free = True
        else:
            try:
                attributes = _dict_of(value, '__dict__')
            except BaseException:  # noqa
                attributes = None
            if type(attributes) is dict:
                kids = self.items(list(attributes.items()), t)
            elif attributes is not None:
                free = True
        if free and deeper:
            self.anyfree = True
        ascii_ = all(plain(x) for x in texts)
        cut = self.limits['str']
        return {'type': '' if self.lone(_name_of(t)) else esc(_name_of(t)), 'texts': [x if ascii_ else esc(x[:cut]) for x in texts],
                'ascii': ascii_, 'long': bool(texts) and len(texts[0]) > cut, 'kids': kids, 'cap': cap, 'free': free}

    @staticmethod
    def size(value):
        """Number of elements of a container subclass."""
        for base in (dict,) + SEQS:
            if issubclass(type(value), base):
                return base.__len__(value)
        return None

    def items(self, items, cls):
        """Kids of a dictionary, or of the attributes of an object."""
        res = []
        for key, value in items:
            if issubclass(type(key), str):
                raw = str.__str__(key)
                names = [raw]
                if cls is not None:
                    own = '_' + _name_of(cls).lstrip('_') + '__'
                    if raw.startswith(own) and len(_name_of(cls).lstrip('_')):
                        names = [raw[len(own) - 2:]]
                    else:
                        for base in cls.__mro__:
                            other = '_' + _name_of(base).lstrip('_') + '__'
                            if raw.startswith(other) and len(other) > 3:
                                names.append(raw[len(other) - 2:])
            else:
                text = self.text(key)
                names, raw = ([], '') if text is None else ([text], text)
            res.append({'names': [esc(x) for x in names] if all(plain(x) for x in names + [raw]) else
                        [esc(x) for x in names if not self.lone(x)], 'raw': esc(raw), 'n': self.node(value)})
        return res

    @staticmethod
    def lone(text):
        """Text that cannot be encoded (it is sent as some other text)."""
        try:
            text.encode('utf-8')
            return False
        except UnicodeError:
            return True

    def locals(self, mapping):
        """Kids for the local variables of a frame."""
        return self.items(list(mapping.items()), None)


def read_frames(frame, reader, frame_type):
    """The call stack as it is."""
    res = []
    while frame is not None:
        f_locals = dict(frame.f_locals)
        own = f_locals.get('self', None)
        collect = frame_type == 'all_frame' or (frame_type != 'no_frame' and not res)
        res.append({'file': esc(frame.f_code.co_filename), 'func': esc(frame.f_code.co_name), 'line': frame.f_lineno,
                    'cls': '' if own is None else esc(_name_of(type(own))), 'collect': collect,
                    'locals': reader.locals(f_locals) if collect else []})
        frame = frame.f_back
    return res


SOURCES = ['WATCH', 'LOG', 'METRIC', 'CAPTURE']


def read_watches(frame, reader, watches, source='WATCH'):
    """The watches (or log fields) evaluated in the frame."""
    res = []
    for expr in watches:
        try:
            value = eval(expr, dict(frame.f_globals, **dict(frame.f_locals)))
            res.append({'expr': expr, 'source': source, 'n': reader.node(value), 'err': False})
        except BaseException:  # noqa
            res.append({'expr': expr, 'source': source, 'n': 0, 'err': True})
    return res


def read_snapshot(pb):
    """The message as the judge wants it."""
    def ref(v):
        return {'id': v.ID, 'name': esc(v.name), 'mods': list(v.modifiers), 'orig': esc(v.original_name)}
    table = {}
    for key, var in pb.var_lookup.items():
        table[key] = {'type': esc(var.type), 'value': esc(var.value), 'len': len(var.value), 'trunc': var.truncated,
                      'kids': [ref(v) for v in var.children]}
    return {
        'frames': [{'file': esc(f.file_name), 'func': esc(f.method_name), 'line': f.line_number, 'cls': esc(f.class_name),
                    'app': f.app_frame, 'short': esc(f.short_path), 'vars': [ref(v) for v in f.variables]} for f in pb.frames],
        'table': table or {'-': {'type': '', 'value': '', 'len': 0, 'trunc': False, 'kids': []}},
        'watches': [{'expr': w.expression, 'source': SOURCES[w.source], 'err': w.WhichOneof('result') != 'good_result',
                     'id': w.good_result.ID if w.WhichOneof('result') == 'good_result' else ''} for w in pb.watches],
        'tp': tp_text(pb.tracepoint)}


def tp_text(tp):
    """Everything a snapshot says about its tracepoint, as text."""
    return esc('%s|%s|%s|%s|%s' % (tp.ID, tp.path, tp.line_number, sorted(tp.args.items()), list(tp.watches)))


ENTRY = {}


def _enter(func):
    try:
        ENTRY['start']()
        ENTRY['func'](func)
    finally:
        ENTRY['stop']()


class Scene:
    """Run a host function with tracepoints; every snapshot delivered becomes a case."""

    def __init__(self, check, tps, limits=None, config=None, default_limits=False):
        self.check = check
        self.tps = tps                        # [(Tp, frame_type)]
        self.limits = dict(DEFAULTS, **(limits or {}))
        self.conf = {'include': [], 'exclude': [], 'root': ''}
        self.conf.update(config or {})
        self.rig = Rig(log=True, metrics=0, spans=0, config={
            'IN_APP_INCLUDE': list(self.conf['include']), 'IN_APP_EXCLUDE': list(self.conf['exclude']),
            'APP_ROOT': self.conf['root']})
        # the installation of Python is never part of the application
        self.conf['exclude'] = list(self.conf['exclude']) + [sys.exec_prefix]
        triggers = convert_response([tp.proto() for tp, _ in tps])
        if limits:
            for trigger in triggers:
                for action in trigger.actions:
                    action.config.update({'MAX_VARIABLES': self.limits['vars'], 'MAX_STRING_LENGTH': self.limits['str'],
                                          'MAX_COLLECTION_SIZE': self.limits['coll'],
                                          'MAX_VAR_DEPTH': self.limits['depth']})
        self.rig.handler.new_config(triggers)
        self.due = []
        self.rec = Recorder(self.rig, capture=self.capture)
        self.depth_ok = True

    def capture(self, record, frame, event, arg):
        """Read the program before the agent does."""
        if event == 'return':
            for due in self.due:
                if due['capture'] and due['act'] == record['a']:
                    due['watches'].append({'expr': 'return', 'source': 'CAPTURE', 'n': due['reader'].node(arg), 'err': False})
                    due['reader'].settle()
                    due['event'] = record['i']
        for tp, frame_type in self.tps:
            method = tp.args.get('method_name')
            if record['f'] != tp.path:
                continue
            if (method and event == 'call' and record['n'] == method) or \
                    (not method and event == 'line' and record['l'] == tp.line):
                reader = Reader(self.limits)
                frames = read_frames(frame, reader, frame_type)
                watches = read_watches(frame, reader, tp.watches)
                watches += read_watches(frame, reader, getattr(tp, 'fields', ()), 'LOG')
                reader.settle()
                self.due.append({'tp': tp, 'event': record['i'], 'frames': frames, 'watches': watches, 'reader': reader,
                                 'capture': tp.args.get('stage') == 'method_capture', 'act': record['a']})

    def run(self, func, *others):
        """Run (each function in its own thread), see cases()."""
        done = threading.Event()

        funcs = [func] + list(others)
        left = list(range(len(funcs)))

        def start():
            sys.settrace(self.rec)

        def stop():
            sys.settrace(None)
            left.pop()
            if not left:
                done.set()

        def guarded(func):
            try:
                func()
            except BaseException:  # noqa
                pass
        ENTRY.update(start=start, stop=stop, func=guarded)
        boot.Clock.source = lambda: 1_700_000_000_000_000_000
        try:
            for one in funcs:
                _thread.start_new_thread(_enter, (one,))
            if not done.wait(40):
                stuck = vlib.stuck_in_agent()
                if not stuck:
                    raise TimeoutError('host did not finish')
                self.check.violation('the agent does not come back from an event', {
                    'tracepoints': [(tp.args, tp.watches) for tp, _ in self.tps], 'limits': self.limits, 'stack': stuck[:1]})
                raise vlib.Stop
        finally:
            boot.Clock.source = None
        if self.rec.raised:
            self.check.violation('the trace function raised', {'raised': [r[1] for r in self.rec.raised[:3]]})
        return self

    def cases(self, ident):
        """The cases for the judge."""
        res = []
        snaps = {}
        for item in self.rig.effects.items:
            if item['kind'] == 'snapshot':
                snaps.setdefault((item['event'], item['tp']), []).append(item)
        for n, due in enumerate(self.due):
            tp = due['tp']
            found = snaps.get((due['event'], tp.id), [])
            # converted like the delivery does: later, when the program has moved on
            pb = self.rig.wire(found[0]['snapshot']) if found else None
            if pb is not None:
                pb = type(pb).FromString(pb.SerializeToString())
            case = {'id': '%s#%d' % (ident, n), 'limits': self.limits, 'conf': self.conf, 'nodes': due['reader'].nodes,
                    'frames': due['frames'], 'watches': due['watches'], 'anyfree': due['reader'].anyfree,
                    'dicts': sum(f['collect'] for f in due['frames']), 'tp': tp_text(tp.proto()),
                    'delivered': pb is not None}
            if pb is not None:
                case['got'] = read_snapshot(pb)
                case['anyfree'] = case['anyfree'] or not pb.var_lookup
            if len(found) > 1:
                self.check.violation('more than one snapshot for one hit', {'case': case['id'], 'tracepoint': tp.id})
            res.append(case)
        return res


def judge(check, cases, tags, only=None):
    """Judge the cases, report the clauses with one of the tags (and for the tags in `only`, one of the texts)."""
    by_id = {c['id']: c for c in cases}
    failing = check.judge('SnapshotJudge', cases, chunk=120)
    for case_id, clauses in failing.items():
        for clause in clauses:
            if clause[0] in tags and (only is None or clause[0] not in only or any(x in clause for x in only[clause[0]])):
                check.violation(clause[2:], by_id[case_id])
    check.notes['snapshots'] = check.notes.get('snapshots', 0) + len(cases)
    check.notes['variables'] = check.notes.get('variables', 0) + sum(
        len(c['got']['table']) for c in cases if c['delivered'])
    return failing


def host(source, filename='/app/src/scene.py', extra=None):
    """Namespace of host source."""
    ns = {'__name__': 'scene', '__builtins__': builtins}
    ns.update(extra or {})
    exec(compile(source, filename, 'exec'), ns)
    return ns
