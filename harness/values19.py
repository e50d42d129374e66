"""Values of settings, and the frames of a snapshot (for c19 and its child)."""
import sys

from graphs import esc
from rig import Rig, Tp, compile_module

LISTS = ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE', 'PLUGINS')
NUMBERS = ('POLL_TIMER',)
FLAGS = ('SERVICE_SECURE',)
KNOWN = ('LOGGING_CONF', 'SERVICE_URL', 'SERVICE_AUTH_PROVIDER', 'APP_ROOT') + LISTS + NUMBERS + FLAGS


def code_of(described):
    """The settings that are given in code."""
    res = {}
    for key, one in described.items():
        value = one['v']
        res[key] = (lambda value=value: value) if one['t'] == 'function' else value
    return res


def norm(key, value):
    """What a value says."""
    if key in LISTS:
        if value is None:
            value = []
        if isinstance(value, str):
            value = value.split(',')
        if isinstance(value, (list, tuple)):
            return {'on': True, 'v': ','.join(str(v) for v in value if v and v != sys.exec_prefix)}
        return {'on': True, 'v': repr(value)}
    if value is None:
        return {'on': False, 'v': ''}
    if key in NUMBERS:
        try:
            return {'on': True, 'v': repr(float(value))}
        except (ValueError, TypeError):
            return {'on': True, 'v': repr(value)}
    if key in FLAGS:
        return {'on': True, 'v': str(value).lower()}
    if key in KNOWN:
        return {'on': True, 'v': str(value)}
    return {'on': True, 'v': repr(value)}


INNER = 'def last():\n    return 1\n'
OUTER = 'def call(rest):\n    return rest()\n'


def frames(settings, files):
    """How the frames of these files come out in a snapshot."""
    rig = Rig(plugins=[], config=dict(settings))
    rig.install([Tp('tp', 'last19.py', 2, {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'all_frame'})])
    case = {'raised': '', 'frames': []}
    chain = compile_module(INNER, '/nowhere/last19.py')['last']
    for name in reversed(files):
        chain = (lambda call, rest: lambda: call(rest))(compile_module(OUTER, name)['call'], chain)
    rig.run(chain)
    got = [item['snapshot'] for item in rig.effects.items if item['kind'] == 'snapshot']
    if not got:
        case['raised'] = 'no snapshot'
        return case
    wanted = set(files)
    for frame in rig.wire(got[0]).frames:
        if frame.file_name in wanted:
            case['frames'].append({'file': esc(frame.file_name), 'app': frame.app_frame, 'short': esc(frame.short_path)})
    if len(case['frames']) < len(files):
        case['raised'] = 'frames are missing'
    return case
