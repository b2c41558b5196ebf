#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'include/tdzdd/'
P, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[T + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None),
                  tech=tech, note=note, na=na))


NOTE = ('Sound for the modelled semantics over all inputs of the most general client; trusts clang\'s IR, the stated '
        'contract of user specs, and no overflow of level/size arithmetic. ')
exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ('tech', 'note', 'na')}, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                      thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p['id'],
                      technique=p['tech'], level='other', level_note=p['note']) for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
         notes='No hooks: the checks analyse /repo/include as it is. fix: commits in /repo are listed in known_findings.jsonl.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'checks')
