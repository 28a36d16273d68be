#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
TECH = 'static value-graph dataflow analysis (gated value numbering of the type-checked AST against reference definitions)'
NOTE = ('Decides equality of what the code computes with an independent reference definition for all inputs, over real arithmetic: most obligations are '
        'closed by normal form (sound for equality); the rest only by failing to find a separating valuation of the value graph. Rounding, NaN propagation and '
        'library internals are trusted.')


def prop(pid, title, statement, over, qtext, tests, files, mech, tech=TECH, note=NOTE, na=None):
    assert len(title) <= 80, title
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': tests,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
    if na:
        NA.append({'property': pid, 'reason': na})
    else:
        CHECKS.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': tech, 'level': 'other', 'level_note': note})


CHECKS = []
exec(open(os.path.join(HERE, 'property_table.py')).read())

P.sort(key=lambda p: p['id'])
CHECKS.sort(key=lambda p: p['property'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump({'version': 1, 'setup_cmd': 'python3 -c "import check; print(check.tool())"', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks only read the sources', 'source_commits': []},
               'checks': CHECKS, 'not_applicable': NA,
               'notes': 'All checks parse /repo with libclang and decide from the source; nothing of /repo is executed.'}, fh, indent=1)
    fh.write('\n')
