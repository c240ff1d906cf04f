"""Write MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
checks = []
missing = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'talpbt/props', pid.lower() + '.py')):
        m = importlib.import_module('talpbt.props.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': 'bash check.sh %s quick' % pid,
            'thorough_cmd': 'bash check.sh %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': getattr(m, 'TECHNIQUE', 'property-based testing '
                                 'against an independent oracle'),
            'level': m.LEVEL,
            'level_note': m.__doc__.strip().split('\n')[0] + ' '
            + 'Quick %d and thorough %d generated cases.' % (
                m.CASES['quick'], m.CASES['thorough']),
        })
    else:
        missing.append({'property': pid, 'reason': 'check not built yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'Every check imports zope.tal from the working tree of '
                 '/repo, generates its inputs from VERIF_SEED and needs '
                 'nothing prepared by setup_cmd.',
    }, f, indent=1)
    f.write('\n')
