#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and the checks that exist
(run with the Python of the repository: /opt/venv/bin/python)"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')
sys.path.insert(0, ROOT)
from sim.checks import CHECKS     # noqa: E402

LEVEL = ('Seeded search, no exhaustiveness: a clean batch is evidence for the '
         'faults, schedules and inputs sampled. ')
NOTE = {
    'P01': 'Real code on a real directory; every libc file operation is '
           'recorded and struck. Trusts the recorded-operation disk model '
           '(metadata in order, data durable by fsync only).',
    'P02': 'Refinement against a small workbook model read back with openpyxl; '
           'trusts openpyxl to read.',
    'P03': 'The prompt and the disk are simulated; answers, interruptions and '
           'failing deletions are injected.',
    'P04': 'Compares with the stored layouts; damage that leaves the stored '
           'values readable and equal is accepted.',
    'P05': 'Compares every saved value with the returned results and the '
           'problem; fault-free prefix order is taken from the recorded '
           'versions of the file.',
    'P06': 'Validity is judged by an independent checker of layouts.',
    'P07': 'The reference is the same search with no limit on the number of '
           'layouts kept; penalties are recomputed independently.',
    'P08': 'Bounds are counted in readings of the simulated clock plus the '
           'injected stalls.',
}
NA = {
    'N01': 'pure functions of one stacking sequence: no schedule, clock, fault '
           'or interleaving to simulate; judged only indirectly (P13, P14)',
    'N02': 'pure functions of constructor arguments: nothing to simulate',
    'N03': 'pure function of a panel and a stacking sequence: nothing to '
           'simulate',
    'N04': 'pure helper functions of their arguments: nothing to simulate',
    'N05': 'src/LAYLA_V02/optimiser.py cannot be imported at this commit '
           '(calc_penalty_ipo_oopo_ss does not exist), and it has no clock, '
           'file or thread: there is nothing to simulate',
}
ids = [json.loads(x)['id'] for x in open(os.path.join(ROOT,
                                                      'properties.jsonl'))]
checks, na = [], []
for i in ids:
    c = CHECKS.get(i)
    if c is None:
        na.append(dict(property=i, reason=NA.get(
            i, 'no check of this property is finished')))
        continue
    checks.append(dict(
        property=i, quick_cmd='./check %s --tier quick' % i,
        thorough_cmd='./check %s --tier thorough' % i,
        technique=c.technique, level=c.level,
        level_note=LEVEL + (getattr(c, 'note_text', None) or NOTE[i])))
m = dict(version=1,
         setup_cmd='gcc -O2 -w -shared -fPIC -o /dev/null sim/shim.c -ldl && '
         '(/opt/venv/bin/python -c "import numpy, pandas, openpyxl" || '
         'python3 -c "import numpy, pandas, openpyxl")',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: the seams are the libc file calls (shim '
         'loaded with LD_PRELOAD), the modules time and random, input(), and '
         'sys.settrace for interruptions and thread schedules.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
