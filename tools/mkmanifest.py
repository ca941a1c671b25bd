#!/usr/bin/env python3
"""Writes MANIFEST.json from sim/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sim')
from table import CHECKS
NA = {
 'C30': 'What a name demangles to is a pure function of the name (that it is the same under every schedule, and that damaged names are harmless, is C24): there is no schedule, time, I/O, fault or second party for a simulator to control; deciding it needs input generation against a reference demangler, which is a different technique.',
 'C31': 'What the type information says is computed from template arguments and RTTI (that its lazy initialisation is safe under every schedule is C24), a pure function of the program text; nothing for a simulator to schedule or to make fail.',
 'C32': 'Escaped printing of characters and buffers is a pure function of the bytes; nothing for a simulator to schedule or to make fail.',
}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
for p in props:
    if p not in CHECKS and p not in NA:
        NA[p] = 'The simulation of this part (engine under construction) is not finished yet; nothing is claimed for it.'
m = dict(version=1, setup_cmd='python3 check.py build',
         hooks=dict(guard='none', enable='No hooks were added to /repo: every seam is at the symbols the library imports (pthread, malloc, clock, I/O, loader, memory-access instrumentation of the compiler).', source_commits=[]),
         checks=[dict(property=p, quick_cmd=f'python3 check.py {p} quick', thorough_cmd=f'python3 check.py {p} thorough',
                      technique='deterministic simulation with fault injection: seeded search over schedules, programs and faults against an executable model',
                      level='exploration', level_note=CHECKS[p].get('note', 'Seeded exploration, no exhaustiveness: ') + CHECKS[p]['oracle']) for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NA[p]) for p in props if p in NA])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
