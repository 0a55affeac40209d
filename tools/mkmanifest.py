"""Writes MANIFEST.json from the property modules that exist."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {}
exec(open(os.path.join(ROOT, 'tools', 'techniques.py')).read())
checks = []
missing = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    prop = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'rv', 'props',
                                   prop.lower() + '.py')):
        technique, note = TECHNIQUE[prop]
        checks.append({
            'property': prop,
            'quick_cmd': f'/opt/venv/bin/python -B check.py {prop}'
                         ' --tier quick',
            'thorough_cmd': f'/opt/venv/bin/python -B check.py {prop}'
                            ' --tier thorough',
            'technique': technique,
            'level': 'exploration',
            'level_note': note})
    else:
        missing.append({'property': prop,
                        'reason': 'check not built yet'})
manifest = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B tools/selftest.py',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo: every check uses the public API only.'}
json.dump(manifest, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
