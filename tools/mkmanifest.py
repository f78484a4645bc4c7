"""Writes MANIFEST.json from properties.jsonl and lib/props.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from props import PROPS  # noqa
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
BASE = ('TLC checks the design within the bounds of the .cfg files and emits '
        'scenarios; each is replayed on the code in /repo and TLC accepts or '
        'rejects every recorded step. Assurance is bounded by those scenarios. '
        'Trusted: TLC, FixReal.java, the driver. ')
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        mods = sorted({g['module'] for g in c['gen']})
        checks.append({
            'property': i,
            'quick_cmd': 'bin/check %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough bin/check %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'TLA+ spec (%s) model-checked with TLC; generated '
                         'behaviours replayed on the code; recorded traces '
                         'validated by TLC against %s' % (', '.join(mods), c['trace']),
            'level': 'model_checking',
            'level_note': BASE + c.get('note', '')})
    else:
        na.append({'property': i, 'reason': 'no check built yet; the technique applies'})
json.dump({'version': 1, 'setup_cmd': 'bin/setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks in /repo; fixes of genuine defects are listed '
                    'in known_findings.jsonl.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
