#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

VERIF = os.path.dirname(HERE)
props = [json.loads(line) for line in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in CHECKS:
        spec = CHECKS[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s' % pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % pid,
            'technique': spec.get('technique', 'deterministic simulation with fault injection (seeded search, '
                                               'reference-model oracle, minimised replay)'),
            'level': 'exploration',
            'level_note': spec['level_note'],
        })
    else:
        na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'no check built yet')})
manifest = {
    'version': 1,
    'setup_cmd': 'python3 -c "import sys; print(sys.version)" && g++ --version',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check builds its harness from /repo\'s working tree with g++ and runs it in-process under the '
             'simulator in sim/. No hooks are needed in /repo: all seams are allocators, streams, C library calls, the '
             'SQLite VFS and allocator, observers, and compiler-inserted memory-access callbacks. Known findings are '
             'in known_findings.txt. Replay: python3 check.py <ID> --replay <file>.',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print('claimed:', ' '.join(c['property'] for c in checks), '| not:', ' '.join(n['property'] for n in na))
