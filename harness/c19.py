"""C19: how settings resolve and work, from code and from the environment; which frames are frames of the application."""
import json
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import boot
import values19
from graphs import esc
from values19 import KNOWN, LISTS, norm

FAULTS = {'envfirst': 'CodeWins', 'defaultfirst': 'CodeWins', 'falsy': 'CodeWins', 'nocall': 'CodeWins', 'noenv': 'EnvWorks', 'nounknown': 'EnvWorks',
          'textbreaks': ['CodeWins', 'EnvWorks'], 'truthytext': ['CodeWins', 'EnvWorks']}
CHILD = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c19_child.py')

# ---- reading: per key the values by number: (in code, as text) ---------------------------------------------------------
READS = {
    'SERVICE_URL': [('', 'a:0'), ('a:1', 'a:1'), ('b:2', 'b:2')],
    'SERVICE_SECURE': [(False, 'False'), (True, 'True'), (False, 'false')],
    'LOGGING_CONF': [('', '/x/0'), ('/x/one', '/x/one'), ('/x/two', '/x/two')],
    'POLL_TIMER': [(0, '0'), (5, '5'), (2.5, '2.5')],
    'SERVICE_AUTH_PROVIDER': [('', 'a.B'), ('a.C', 'a.C'), ('x.y.Z', 'x.y.Z')],
    'IN_APP_INCLUDE': [([], ','), (['/a', '/b'], '/a,/b'), (('/c',), '/c')],
    'IN_APP_EXCLUDE': [([], ','), (['/a', '/b'], '/a,/b'), (('/c',), '/c')],
    'APP_ROOT': [('', '/r'), ('/app', '/app'), ('/srv/x', '/srv/x')],
    'SERVICE_USERNAME': [('', ''), ('bob', 'bob'), (7, '7')],
    'NO_TRACE': [(False, ''), (True, 'True'), ('no', 'no')],
    'PLUGIN_X': [(False, ''), (True, 'True'), ('False', 'False')],
    'SOME_KEY': [(0, ''), ([1, 2], '[1, 2]'), ({'a': 1}, 'x' * 50)],
    'other_key': [('', ' '), (1.5, '1.5'), ('caf\xe9', 'caf\xe9')],
}
DEFAULTS = {'SERVICE_URL': 'deep:43315', 'SERVICE_SECURE': 'true', 'POLL_TIMER': '10.0', 'IN_APP_INCLUDE': '', 'IN_APP_EXCLUDE': '', 'APP_ROOT': ''}


def read_case(ident, key, code, env):
    """What is given, as the judge reads it."""
    off = {'on': False, 'v': ''}
    default = {'on': key in DEFAULTS, 'v': DEFAULTS.get(key, '')}
    return {'id': ident, 'kind': 'read', 'key': key, 'code': norm(key, code['v']) if code else off, 'env': norm(key, env) if env is not None else off,
            'default': default, 'called': bool(code) and code['t'] == 'function', 'got': off, 'raised': ''}


# ---- lives: per key the values by number: (in code, as text, what the agent does then) ---------------------------------
def life_values(logs):
    """Values of the settings of an agent."""
    return {
        'SERVICE_URL': [('a:1', 'a:1', 'a:1'), ('host.name:43315', 'host.name:43315', 'host.name:43315'), ('[::1]:5', '[::1]:5', '[::1]:5')],
        'SERVICE_SECURE': [(False, 'False', 'insecure'), (True, 'True', 'secure'), ('false', 'false', 'insecure'), ('true', 'true', 'secure')],
        'POLL_TIMER': [(0.02, '0.02', 'fast'), (30, '30', 'slow'), (0.03, '0.03', 'fast'), (25.5, '25.5', 'slow')],
        'SERVICE_AUTH_PROVIDER': [('', '', 'none'), ('deep.api.auth.BasicAuthProvider', 'deep.api.auth.BasicAuthProvider', 'basic'),
                                  ('auth19.Other', 'auth19.Other', 'other')],
        'SERVICE_USERNAME': [('', '', ''), ('bob', 'bob', 'bob'), (7, '7', '7')],
        'SERVICE_PASSWORD': [('', '', ''), ('s:cret', 's:cret', 's:cret'), (123456, '123456', '123456')],
        'NO_TRACE': [(False, 'False', 'traced'), (True, 'True', 'untraced')],
        'PLUGIN_PYTHONPLUGIN': [(False, 'False', 'off'), (True, 'True', 'on'), ('false', 'false', 'off')],
        'LOGGING_CONF': [('', '', 'default')] + [(path, path, name) for name, path in logs.items()],
        'APP_ROOT': [('/app', '/app', None), ('/srv/proj/pkg', '/srv/proj/pkg', None), ('/other', '/other', None)],
        'IN_APP_INCLUDE': [([], ',', None), (['/lib/a'], '/lib/a', None), (['/lib/b', '/app/vendor'], '/lib/b,/app/vendor', None)],
        'IN_APP_EXCLUDE': [([], ',', None), (['/app/vendor'], '/app/vendor', None), (('/lib/a/x', '/srv'), '/lib/a/x,/srv', None)],
    }


LIFE_DEFAULTS = {'SERVICE_URL': 'deep:43315', 'SERVICE_SECURE': 'secure', 'POLL_TIMER': 'slow', 'SERVICE_AUTH_PROVIDER': 'none', 'NO_TRACE': 'traced',
                 'PLUGIN_PYTHONPLUGIN': 'on', 'LOGGING_CONF': 'default'}
FILES = ['/app/main.py', '/app/vendor/x.py', '/app/app/x.py', '/srv/proj/pkg/main.py', '/srv/proj/pkg/deep/m.py', '/srv/other.py', '/lib/a/x/y.py', '/lib/a/z.py',
         '/lib/b/q.py', '/other/o.py', '/elsewhere/e.py', '<string>', 'relative/r.py']
CALLER = '/srv/proj/pkg/main.py'
LOG_CONF = '''[loggers]
keys=root,deep
[handlers]
keys=file
[formatters]
keys=
[logger_root]
level=INFO
handlers=
[logger_deep]
level=INFO
handlers=file
qualname=deep
propagate=0
[handler_file]
class=FileHandler
level=INFO
args=(%r,)
'''


def text_list(value):
    """Elements of a list that can be text."""
    if isinstance(value, str):
        value = value.split(',')
    return [v for v in value if v]


class Lab:
    """Runs children."""

    def __init__(self, check):
        self.check, self.n = check, 0

    def child(self, n, plan, env):
        """One fresh interpreter."""
        base = os.path.join(self.check.tmp, 'child%d' % n)
        with open(base + '.plan', 'w') as handle:
            json.dump(plan, handle)
        full = {k: v for k, v in os.environ.items() if not k.startswith('DEEP_')}
        full.update({'DEEP_' + k: v for k, v in env.items()})
        full['PYTHONDONTWRITEBYTECODE'] = '1'
        full['VERIF_REPO'] = boot.REPO
        try:
            done = subprocess.run([sys.executable, CHILD, base + '.plan', base + '.out'], env=full, timeout=90, capture_output=True, cwd=self.check.tmp)
        except subprocess.TimeoutExpired:
            return {'failed': 'the interpreter did not end'}
        if not os.path.exists(base + '.out'):
            return {'failed': (done.stderr or b'').decode('utf-8', 'replace')[-600:]}
        with open(base + '.out') as handle:
            text = handle.read()
        try:
            return json.loads(text)
        except ValueError:
            return {'failed': 'the interpreter ended half way: ' + (done.stderr or b'').decode('utf-8', 'replace')[-500:]}


def ways_by_env(ways, rng):
    """Ways to give the settings, grouped so that each group has one environment."""
    groups = {}
    for way in ways:
        groups.setdefault(way['form']['env'], []).append(way)
    return groups


def reads(check, rng, lab, ways):
    """The whole table of sources for every key."""
    plans = []
    for number, group in sorted(ways_by_env(ways, rng).items()):
        # the same environment for every key, and then environments in which only some keys are set
        env = {} if number < 0 else {key: READS[key][number][1] for key in READS}
        plans.append((env, [(w['key'], w['form']) for w in group]))
    forms = [w['form'] for w in ways]
    for _ in range(check.pick(6, 40)):
        env = {key: rng.choice(READS[key])[1] for key in READS if rng.random() < 0.5}
        plans.append((env, [(key, rng.choice(forms)) for key in READS for _ in range(3)]))
    jobs = []
    for env, wanted in plans:
        cases, queries = [], []
        for key, form in wanted:
            code = None
            if form['code'] != 'absent':
                typed, text = READS[key][form['c']]
                # (a text that means nothing is left out)
                value = text if form['code'] == 'text' else typed
                code = {'t': 'function' if form['code'] == 'function' else 'value', 'v': value}
            described = {key: code} if code else {}
            others = {k: {'t': 'value', 'v': 'unrelated'} for k in ('UNRELATED', 'SERVICE') if rng.random() < 0.2}
            queries.append({'key': key, 'code': dict(described, **others)})
            cases.append(read_case('read%d' % self_count(lab), key, code, env.get(key)))
        jobs.append((env, cases, queries))
    return jobs


def self_count(lab):
    """A number."""
    lab.n += 1
    return lab.n


def life_plan(check, rng, lab, n, forced=None):
    """An agent with settings from everywhere; returns (env, case, life)."""
    logs, conf = {}, {}
    for name in ('one', 'two'):
        logs[name] = os.path.join(check.tmp, 'life%d_%s.log' % (n, name))
        conf[name] = os.path.join(check.tmp, 'life%d_%s.conf' % (n, name))
        with open(conf[name], 'w') as handle:
            handle.write(LOG_CONF % logs[name])
    table = life_values(conf)
    env, code, settings, effective = {}, {}, [], {}
    bare = rng.random() < 0.15
    for key in table:
        if forced is not None and key == forced['key']:
            form = forced['form']
        else:
            form = {'code': 'absent' if bare else rng.choice(['absent', 'absent', 'typed', 'text', 'function']), 'c': rng.randrange(3), 'env': rng.choice([-1, -1, 0, 1, 2])}
        if key in ('SERVICE_USERNAME', 'SERVICE_PASSWORD') and form['code'] == 'absent' and form['env'] < 0:
            form = dict(form, env=rng.randrange(3))
        options = table[key]
        entry = {'key': key, 'code': {'on': False, 'v': ''}, 'env': {'on': False, 'v': ''}, 'default': {'on': True, 'v': LIFE_DEFAULTS.get(key, '')}, 'seen': 'unobserved'}
        given = None
        if form['env'] >= 0:
            option = options[form['env'] % len(options)]
            env[key] = option[1]
            entry['env'] = {'on': True, 'v': option[2]}
            given = option
        if form['code'] != 'absent':
            option = options[form['c'] % len(options)]
            code[key] = {'t': 'function' if form['code'] == 'function' else 'value', 'v': option[1] if form['code'] == 'text' else option[0]}
            entry['code'] = {'on': True, 'v': option[2]}
            given = option
        effective[key] = given
        settings.append(entry)
    timer = effective['POLL_TIMER']
    life = {'code': code, 'bare': bare, 'fast': bool(timer) and timer[2] == 'fast', 'caller': CALLER, 'logs': logs, 'files': FILES}
    frames = {'include': text_list(effective['IN_APP_INCLUDE'][1]) if effective['IN_APP_INCLUDE'] else [],
              'exclude': text_list(effective['IN_APP_EXCLUDE'][1]) if effective['IN_APP_EXCLUDE'] else [],
              'root': effective['APP_ROOT'][1] if effective['APP_ROOT'] else '?'}
    case = {'id': 'life%d' % n, 'kind': 'life', 'raised': '', 'settings': [s for s in settings if s['key'] not in ('APP_ROOT', 'IN_APP_INCLUDE', 'IN_APP_EXCLUDE')],
            'frames': dict(frames, raised='', frames=[])}
    return env, case, life


def finish_life(case, got):
    """Put what was seen into the case."""
    if got.get('raised'):
        case['raised'] = got['raised']
        return
    seen = got['seen']
    for entry in case['settings']:
        missing = 'unobserved' if entry['key'] in ('SERVICE_USERNAME', 'SERVICE_PASSWORD') and seen.get('SERVICE_AUTH_PROVIDER') != 'basic' else 'nothing'
        entry['seen'] = seen.get(entry['key'], missing)
    if case['frames']['root'] == '?':
        # it is derived from the caller: the folder of the file that starts the agent, or the one that has this folder
        if got['root'] not in ('/srv/proj', '/srv/proj/pkg'):
            case['raised'] = 'application root %r' % got['root']
        case['frames']['root'] = got['root']
    case['frames'].update(got['frames'])
    case['raised'] = case['raised'] or case['frames']['raised']


# ---- frames ----------------------------------------------------------------------------------------------------------
PARTS = ['app', 'srv', 'lib', 'a', 'b', 'x', 'vendor', 'caf\xe9', 'sp ace', 'app2']


def path(rng, least=1, most=4):
    """A path."""
    return '/' + '/'.join(rng.choice(PARTS) for _ in range(rng.randint(least, most)))


def prefix(rng, files):
    """A prefix: of one of the files, or any."""
    kind = rng.random()
    if kind < 0.6:
        name = rng.choice(files)
        return name[:rng.randint(1, len(name))]
    if kind < 0.75:
        return os.path.dirname(rng.choice(files)) or '/none'
    return path(rng) + rng.choice(['', '/'])


def frame_case(rng, n):
    """Files, and what is included and excluded (given in code)."""
    files = []
    for _ in range(rng.randint(1, 8)):
        name = rng.choice([lambda: path(rng) + '/m.py', lambda: path(rng) + '.py', lambda: '<string>', lambda: 'rel/x.py', lambda: 'C:\\a\\b.py',
                           lambda: '/app/app/app.py'])()
        if name not in files and not name.startswith(sys.exec_prefix):
            files.append(name)

    def some():
        res = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            one = prefix(rng, files)
            if ',' not in one and one.strip() == one and one:
                res.append(one)
        return res
    include, exclude, root = some(), some(), rng.choice(['', None]) if rng.random() < 0.06 else prefix(rng, files)
    settings = {}
    for key, value in (('IN_APP_INCLUDE', include), ('IN_APP_EXCLUDE', exclude), ('APP_ROOT', root)):
        if value is None or (not value and rng.random() < 0.3):
            continue
        if key != 'APP_ROOT':
            value = rng.choice([list, tuple, ','.join])(value)
        settings[key] = (lambda value=value: value) if rng.random() < 0.3 else value
    case = {'id': 'frm%d' % n, 'kind': 'frames', 'include': [esc(v) for v in include], 'exclude': [esc(v) for v in exclude],
            'root': esc(root) if root and 'APP_ROOT' in settings else '', 'raised': '', 'frames': []}
    try:
        case.update(values19.frames(settings, files))
    except Exception as e:
        case['raised'] = repr(e)
    return case


def run(check):
    rng = random.Random(check.seed * 6133 + 19)
    const = dict(Known='{"k"}', Unknown='{"u"}', Meanings='{"zero", "one", "two"}', MaxSteps=check.pick(2, 3))
    invariants = ['CodeWins', 'EnvWorks', 'ElseDefault']
    check.model('ConfigResolve', 'resolution', invariants=invariants, constants=dict(const, Fault='"none"'))
    for fault, names in FAULTS.items():
        check.model('ConfigResolve', 'faulty: ' + fault, expect=names, invariants=invariants, constants=dict(const, Fault='"%s"' % fault))
    keys = '{%s}' % ', '.join('"%s"' % k for k in READS)
    ways = check.generate('ConfigGen', 'ways to give settings', 'WAY', constraints=['Emit'], constants=dict(Keys=keys, Values='{0, 1, 2}'))
    table = life_values({'one': '1', 'two': '2'})
    life_keys = '{%s}' % ', '.join('"%s"' % k for k in table)
    forced = check.generate('ConfigGen', 'ways to give settings of an agent', 'WAY', constraints=['Emit'], constants=dict(Keys=life_keys, Values='{0, 1, 2}'))
    check.notes['generated_ways'] = len(ways) + len(forced)
    lab = Lab(check)
    jobs = [(env, cases, queries, None, None) for env, cases, queries in reads(check, rng, lab, ways)]
    rng.shuffle(forced)
    for n, one in enumerate(forced[:check.pick(90, len(forced))]):
        env, case, life = life_plan(check, rng, lab, n, one)
        jobs.append((env, [], [], case, life))
    cases = []
    lates = []

    def work(item):
        n, (env, rows, queries, case, life) = item
        if check.late():
            lates.append(n)
            return []
        seen = lab.child(n, dict({'reads': queries}, **({'life': life} if life else {})), env)
        if 'failed' in seen:
            for one in rows + ([case] if case else []):
                one['raised'] = seen['failed']
        else:
            for row, got in zip(rows, seen['reads']):
                row['got'], row['raised'] = {'on': got['on'], 'v': esc(got['v'])}, got['raised']
            if case:
                finish_life(case, seen['life'])
        for row in rows:
            for source in ('code', 'env', 'default'):
                row[source]['v'] = esc(row[source]['v'])
        return rows + ([case] if case else [])
    with ThreadPoolExecutor(6) as pool:
        parts = pool.map(work, enumerate(jobs))
        for n in range(check.pick(1200, 15000)):
            cases.append(frame_case(rng, n))
        for part in parts:
            cases += part
    failing = check.judge('ConfigJudge', cases)
    by_id = {c['id']: c for c in cases}
    for case_id, clauses in failing.items():
        for clause in clauses:
            check.violation(clause, by_id[case_id])
    check.notes['interpreters'] = len(jobs)
    check.sample(cases[-1])
    check.assumptions += ['an empty application root and None given in code are open', 'the python installation is no part of the application',
                          'the derived root is the folder of the starting file or the one above it']
