#!/opt/venv/bin/python
"""Write MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'TLA+ specification checked with TLC; conformance both ways: model behaviours replayed in the code, code traces judged by TLC'
NOTES = {}
with open(os.path.join(HERE, 'level_notes.json')) as handle:
    NOTES = json.load(handle)
checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'harness', pid.lower() + '.py')):
        checks.append({'property': pid, 'quick_cmd': './run.py ' + pid, 'thorough_cmd': './run.py ' + pid + ' --thorough',
                       'technique': TECH + ' (' + NOTES[pid]['spec'] + ')', 'level': 'model_checking',
                       'level_note': NOTES[pid]['note']})
    else:
        missing.append({'property': pid, 'reason': 'check not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as handle:
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': missing}, handle, indent=1)
    handle.write('\n')
print('%d checks, %d not yet' % (len(checks), len(missing)))
