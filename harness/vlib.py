"""Framework of the checks: running TLC, judging cases, evidence, verdict lines."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    """The check itself is broken (never a verdict about the code)."""


class Stop(Exception):
    """Nothing more can be explored after the violation that was just recorded."""


class TlcResult:
    """Outcome of one TLC run."""

    def __init__(self, code, out):
        self.code = code
        self.out = out
        self.states = self.distinct = 0
        for gen, dist in re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out):
            self.states, self.distinct = int(gen.replace(',', '')), int(dist.replace(',', ''))
        if not self.states:
            m = re.search(r'states generated: ([\d,]+)|([\d,]+) states checked', out)
            if m:
                self.states = self.distinct = int((m.group(1) or m.group(2)).replace(',', ''))

    @property
    def violated(self):
        """Name of the violated property, if any."""
        m = re.search(r'Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated'
                      r'|Temporal property (\S+) was violated|(\S+) is violated', self.out)
        if not m:
            return None
        return next((g for g in m.groups() if g), 'temporal')

    @property
    def lines(self):
        """Strings printed with PrintT("TAG" \\o ToJson(..)), decoded, as (tag, value)."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    text = json.loads(line)
                except ValueError:
                    continue
                m = re.match(r'([A-Z]+)([\[{"].*|-?\d+)$', text, re.S)
                if m:
                    res.append((m.group(1), json.loads(m.group(2))))
        return res


class Check:
    """One run of the check of one property."""

    def __init__(self, pid, argv=None):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.notes = {}
        self.models = []
        self.assumptions = []
        with open(os.path.join(VERIF, 'known_findings.json')) as handle:
            self.known = [k for k in json.load(handle)['findings'] if k['property'] == pid and k['kind'] == 'known']
        self._pool = ThreadPoolExecutor(max_workers=3)
        self._jobs = []
        # the threads of the pool must exist before any driver changes threading.settrace
        barrier = threading.Barrier(3)
        for job in [self._pool.submit(barrier.wait) for _ in range(3)]:
            job.result()

    @property
    def thorough(self):
        """Is this the thorough tier."""
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        """Choose a bound by tier."""
        return thorough if self.thorough else quick

    def elapsed(self):
        """Seconds since the start."""
        return time.time() - self.t0

    def late(self):
        """Is it time to stop exploring (only when the agent is much slower than usual)."""
        if self.elapsed() < (300 if not self.thorough else 4 * 3600):
            return False
        self.notes['stopped_early'] = True
        return True

    # ---- TLC -------------------------------------------------------------------------------------------------------
    def _tlc(self, module, cfg_text, env=None, workers=None, extra=(), timeout=600):
        run_dir = tempfile.mkdtemp(prefix='tlc_', dir=self.tmp)
        for name in os.listdir(SPEC):
            if name.endswith('.tla'):
                os.symlink(os.path.join(SPEC, name), os.path.join(run_dir, name))
        cfg_text, constants = cfg_text
        with open(os.path.join(run_dir, 'run.cfg'), 'w') as handle:
            handle.write(cfg_text)
        # constants are arbitrary TLA+ expressions, so they are defined in a module that extends the specification
        with open(os.path.join(run_dir, 'MC.tla'), 'w') as handle:
            handle.write('---- MODULE MC ----\nEXTENDS %s\n' % module)
            for key, value in constants.items():
                handle.write('const_%s == %s\n' % (key, value))
            handle.write('====\n')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-Xss64m', '-Djava.io.tmpdir=' + run_dir,
               '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers or 'auto'), '-metadir', os.path.join(run_dir, 'md'),
               '-noGenerateSpecTE', '-config', 'run.cfg', *extra, 'MC.tla']
        full_env = dict(os.environ)
        full_env.update(env or {})
        try:
            proc = subprocess.run(cmd, cwd=run_dir, env=full_env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired as e:
            raise MachineryError('TLC timed out on %s' % module) from e
        finally:
            shutil.rmtree(os.path.join(run_dir, 'md'), ignore_errors=True)
        return TlcResult(proc.returncode, proc.stdout)

    @staticmethod
    def cfg(spec='Spec', constants=None, invariants=(), properties=(), constraints=(), view=None, deadlock=False,
            postcondition=None, init=None, next_=None, symmetry=None):
        """Build the text of a TLC config."""
        lines = []
        if init:
            lines += ['INIT ' + init, 'NEXT ' + next_]
        elif spec:
            lines.append('SPECIFICATION ' + spec)
        for key, value in (constants or {}).items():
            lines.append('CONSTANT %s <- const_%s' % (key, key))
        lines += ['INVARIANT ' + i for i in invariants]
        lines += ['PROPERTY ' + p for p in properties]
        lines += ['CONSTRAINT ' + c for c in constraints]
        if view:
            lines.append('VIEW ' + view)
        if symmetry:
            lines.append('SYMMETRY ' + symmetry)
        if postcondition:
            lines.append('POSTCONDITION ' + postcondition)
        lines.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
        return '\n'.join(lines) + '\n', constants or {}

    def model(self, *args, **kwargs):
        """Model check a design in the background (see _model); the result is looked at in finish()."""
        kwargs.setdefault('workers', 3)
        self._jobs.append(self._pool.submit(self._model, *args, **kwargs))

    def _model(self, module, label, expect=None, timeout=600, workers=None, extra=(), **cfg):
        """Model check a design. expect=None: must hold; otherwise: TLC must refute the named property."""
        res = self._tlc(module, self.cfg(**cfg), workers=workers, timeout=timeout, extra=extra)
        if expect is None:
            if 'No error has been found' not in res.out:
                raise MachineryError('design model %s (%s) does not hold:\n%s' % (module, label, res.out[-4000:]))
            self.states += res.distinct
            self.transitions += res.states
        else:
            if res.violated not in ([expect] if isinstance(expect, str) else list(expect)):
                raise MachineryError('faulty variant %s (%s) is not refuted by %s but by %s:\n%s' % (
                    module, label, expect, res.violated, res.out[-3000:]))
        self.models.append({'module': module, 'config': label, 'states': res.distinct, 'transitions': res.states,
                            'refuted': expect})
        return res

    def generate(self, module, label, tag, timeout=600, extra=(), env=None, workers=1, **cfg):
        """Let TLC print values (PrintT("TAG" \\o ToJson(v))), return them."""
        res = self._tlc(module, self.cfg(**cfg), timeout=timeout, extra=extra, env=env, workers=workers)
        if 'Error:' in res.out:
            raise MachineryError('generator %s (%s) failed:\n%s' % (module, label, res.out[-3000:]))
        values = [v for t, v in res.lines if t == tag]
        self.states += res.distinct
        self.transitions += res.states
        self.models.append({'module': module, 'config': label, 'states': res.distinct, 'transitions': res.states,
                            'generated': len(values)})
        return values

    def judge(self, module, cases, constants=None, timeout=600, chunk=None):
        """TLC evaluates `Failing(case)` of the module for every case.

        The module must define Results (sequence of [id, fails]) from Cases; see spec/Judge.tla.
        Returns {case id: [clause, ...]} only for failing cases.
        """
        failing = {}
        if not cases:
            return failing
        if chunk is None:
            chunk = max(50, min(400, -(-len(cases) // 6)))

        def run(part):
            folder = tempfile.mkdtemp(prefix='judge_', dir=self.tmp)
            path, out = os.path.join(folder, 'cases.ndjson'), os.path.join(folder, 'results.ndjson')
            with open(path, 'w') as handle:
                for case in part:
                    handle.write(json.dumps(case) + '\n')
            res = self._tlc(module, self.cfg(spec=None, constants=constants), env={'CASES': path, 'RESULTS': out},
                            workers=1, timeout=timeout)
            if not os.path.exists(out):
                raise MachineryError('judge %s failed:\n%s' % (module, res.out[-4000:]))
            with open(out) as handle:
                results = [json.loads(line) for line in handle if line.strip()]
            shutil.rmtree(folder, ignore_errors=True)
            if len(results) != len(part):
                raise MachineryError('judge %s: %d results for %d cases' % (module, len(results), len(part)))
            for case, result in zip(part, results):
                if str(result['id']) != str(case['id']):
                    raise MachineryError('judge %s: result order' % module)
            return [(case['id'], sorted(result['fails'])) for case, result in zip(part, results) if result['fails']]

        with ThreadPoolExecutor(5) as pool:
            for found in pool.map(run, [cases[k:k + chunk] for k in range(0, len(cases), chunk)]):
                failing.update(found)
        self.traces += len(cases)
        self.transitions += sum(len(c.get('trace', ())) or 1 for c in cases)
        return failing

    def validate(self, module, cases, constants=None, timeout=600, chunk=None, key='trace'):
        """TLC searches for a behaviour of the trace specification that explains each case.

        The module prints ACC<id> when a case is explained completely and keeps the longest explained prefix, which it
        prints in its POSTCONDITION. Returns {case id: explained prefix length} only for rejected cases.
        """
        rejected = {}
        if not cases:
            return rejected
        path = os.path.join(self.tmp, 'cases.ndjson')
        out = os.path.join(self.tmp, 'results.ndjson')
        size = chunk or len(cases)
        for start in range(0, len(cases), size):
            part = cases[start:start + size]
            with open(path, 'w') as handle:
                for case in part:
                    handle.write(json.dumps(case) + '\n')
            if os.path.exists(out):
                os.unlink(out)
            res = self._tlc(module, self.cfg(spec='TraceSpec', constants=constants, constraints=['Progress'],
                                             postcondition='Report'),
                            env={'CASES': path, 'RESULTS': out}, workers=1, timeout=timeout)
            if not os.path.exists(out) or 'Error:' in res.out:
                raise MachineryError('trace spec %s failed:\n%s' % (module, res.out[-4000:]))
            with open(out) as handle:
                results = [json.loads(line) for line in handle if line.strip()]
            if len(results) != len(part):
                raise MachineryError('trace spec %s: %d results for %d cases' % (module, len(results), len(part)))
            for case, result in zip(part, results):
                if result['reached'] <= len(case[key]):
                    rejected[case['id']] = result['reached'] - 1
            self.states += res.distinct
            self.transitions += res.states
        self.traces += len(cases)
        return rejected

    # ---- verdicts --------------------------------------------------------------------------------------------------
    def sample(self, value):
        """Keep a few of the cases of this run for the evidence."""
        if len(self.samples) < 6:
            text = json.dumps(value, default=repr)
            self.samples.append(value if len(text) < 3000 else text[:3000] + '...')

    def violation(self, clause, detail, ident=None):
        """Report that the property does not hold for one case (identified by `ident` for known findings)."""
        for known in self.known:
            if ident is not None and known['match'] == ident:
                self.known_hit[ident] = known
                return
        self.violations.append({'clause': clause, 'ident': ident, 'detail': detail})

    def _replay(self, violation, n):
        folder = os.path.join(VERIF, 'replays')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, '%s-%d.json' % (self.pid, n))
        with open(path, 'w') as handle:
            json.dump(dict(violation, property=self.pid, seed=self.seed, tier=self.tier), handle, indent=1, default=repr)
        return path

    def finish(self):
        """Write the evidence and print the verdict; returns the exit code."""
        for job in self._jobs:
            job.result()
        for known in self.known:
            if known['match'] in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known['what']))
        shutil.rmtree(self.tmp, ignore_errors=True)
        evidence = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {'states': self.states, 'transitions': self.transitions,
                         'traces_validated_against_impl': self.traces, 'samples': self.samples or ['none'],
                         'models': self.models, **self.notes},
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as handle:
            json.dump(evidence, handle, indent=1, default=repr)
        seen = set()
        for n, violation in enumerate(self.violations):
            if violation['clause'] in seen or len(seen) >= 8:
                continue
            seen.add(violation['clause'])
            path = self._replay(violation, n)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  clause: %s' % violation['clause'])
            print('  detail: %s' % json.dumps(violation['detail'], default=repr)[:1500])
        if not self.violations:
            print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
                self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def from_agent(exc):
    """Did the exception come out of the agent's code (as opposed to this machinery)."""
    src = os.path.join(REPO, 'src', 'deep')
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(src):
            return True
        tb = tb.tb_next
    return False


def digest(value):
    """Short stable digest of a JSON value."""
    return hashlib.sha1(json.dumps(value, sort_keys=True, default=repr).encode()).hexdigest()[:12]


def stuck_in_agent():
    """Stacks of the threads that are inside the agent's code."""
    res = []
    for frame in sys._current_frames().values():
        stack = traceback.extract_stack(frame)
        if any(f.filename.startswith(os.path.join(REPO, 'src', 'deep')) for f in stack):
            res.append(''.join(traceback.format_list(stack))[-2500:])
    return res


def watchdog(check, limit):
    """A driver that never comes back is a verdict when the agent's code is what it is stuck in."""
    def look():
        time.sleep(limit)
        stuck = stuck_in_agent()
        if stuck:
            check.violation('the agent does not come back', {'stacks': stuck[:3], 'limit_s': limit})
            check._jobs = []
            code = check.finish()
        else:
            print('check %s did not finish in %ss' % (check.pid, limit))
            code = 2
        sys.stdout.flush()
        os._exit(code)
    threading.Thread(target=look, daemon=True).start()


def main(pid, run):
    """Entry of a check process: run(check) -> None."""
    check = Check(pid)
    watchdog(check, 800 if check.tier == 'quick' else 6 * 3600)
    try:
        try:
            run(check)
        except Stop:
            pass
        except MachineryError:
            raise
        except BaseException as exc:  # noqa
            if isinstance(exc, (KeyboardInterrupt, SystemExit)) or not from_agent(exc):
                raise
            check.violation('the agent raised into its caller', {
                'exception': repr(exc), 'traceback': traceback.format_exc()[-3000:]})
        code = check.finish()
    except BaseException:  # noqa
        traceback.print_exc()
        shutil.rmtree(check.tmp, ignore_errors=True)
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
