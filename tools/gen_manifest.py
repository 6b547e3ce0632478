"""Writes MANIFEST.json from harness/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness.props import PROPS, NOT_APPLICABLE
ids = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    c = PROPS[i]
    checks.append({
        'property': i, 'quick_cmd': 'bin/check %s quick' % i,
        'thorough_cmd': 'bin/check %s thorough' % i,
        'technique': 'TLA+ specification model-checked with TLC (%s); behaviours replayed '
                     'into the code and recorded executions validated against %s.tla with TLC'
                     % (', '.join(m['module'] for m in c['models']), c['trace']),
        'level': 'model_checking',
        'level_note': 'exhaustive on the specification within its constants; code bound by '
                      'trace validation of replayed behaviours and seeded executions. '
                      + '; '.join(c.get('assumptions', []))})
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')}
      for i in ids if i not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'true',
           'checks': checks, 'not_applicable': na,
           'notes': 'No instrumentation in /repo: the public API exposes all observed state.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
