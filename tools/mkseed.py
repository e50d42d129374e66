#!/usr/bin/env python3
"""Make and test one planted bug: mkseed.py DIR  (DIR holds change.py, demo.py, meta.json; id = name of DIR).

change.py defines EDITS = [(file relative to the repository, old, new), ...].
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ORIGINAL = '0029464'


def sh(cmd, cwd, timeout=600, env=None):
    """Run a command."""
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout,
                           env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def main():
    """Make the planted bug."""
    src = os.path.abspath(sys.argv[1])
    name = os.path.basename(src)
    meta = json.load(open(src + '/meta.json'))
    scratch = tempfile.mkdtemp(prefix='seed_%s_' % name, dir='/tmp')
    repo = scratch + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        demo = scratch + '/demo'
        os.mkdir(demo)
        for f in os.listdir(src):
            if f not in ('change.py', 'meta.json', 'patch.diff'):
                shutil.copy(src + '/' + f, demo)
        for f in ('lib.py', 'demo.sh'):
            if not os.path.exists(demo + '/' + f):
                shutil.copy('/tmp/seeds/' + f, demo)
        rc, out = sh('bash %s/demo.sh' % demo, repo, 300)
        print('demo clean rc=%d' % rc, out[-300:] if rc else '')
        if rc:
            return 1
        if os.path.exists(src + '/change.py'):
            for file, old, new in runpy.run_path(src + '/change.py')['EDITS']:
                text = open(repo + '/' + file).read()
                if text.count(old) != 1:
                    print('EDIT: found %d times: %r' % (text.count(old), old[:60]))
                    return 1
                open(repo + '/' + file, 'w').write(text.replace(old, new))
        else:
            subprocess.run(['git', 'apply', src + '/patch.diff'], cwd=repo, check=True)
        patch = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        # removed lines must be of the original commit
        changed = 0
        file = None
        for line in subprocess.run(['git', 'diff', '-U0'], cwd=repo, capture_output=True, text=True).stdout.split('\n'):
            if line.startswith('+++ b/'):
                file = line[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
            if m:
                start, count = int(m.group(1)), int(m.group(2) or 1)
                for n in range(start, start + count):
                    b = subprocess.run(['git', 'blame', '-s', '--abbrev=7', '-w', '-L', '%d,%d' % (n, n), 'HEAD', '--',
                                        file], cwd=repo, capture_output=True, text=True).stdout
                    if ORIGINAL in b[:9]:
                        changed += 1
                    elif b.split(')', 1)[-1].strip():
                        print('NOT ORIGINAL:', b.strip()[:120])
        print('original lines changed: %d' % changed)
        if not changed:
            return 1
        rc, out = sh('bash %s/demo.sh' % demo, repo, 300)
        print('demo patched rc=%d %s' % (rc, out.strip()[-160:]))
        if rc == 0:
            return 1
        rc, out = sh('%s -m pytest -q -x -p no:cacheprovider tests/unit_tests' % PY, repo, 300,
                     {'PYTHONDONTWRITEBYTECODE': '1'})
        print('unit rc=%d %s' % (rc, out.strip().split('\n')[-1][:160]))
        if rc:
            return 1
        dest = VERIF + '/seeded/' + name
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        for f in os.listdir(demo):
            if f != '__pycache__':
                shutil.copy(demo + '/' + f, dest)
        open(dest + '/patch.diff', 'w').write(patch)
        json.dump(meta, open(dest + '/meta.json', 'w'), indent=1)
        rc, out = sh('%s run.py %s' % (PY, meta['property']), VERIF, 900, {'VERIF_REPO': repo})
        hits = [x for x in out.split('\n') if 'clause' in x or x.startswith('VIOLATION')]
        print('CHECK %s rc=%d %s' % (name, rc, 'CAUGHT' if rc == 1 else 'MISSED'))
        for h in hits[:3]:
            print('   ', h[:200])
        if rc not in (0, 1):
            print(out[-600:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
