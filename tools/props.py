#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, why, files, mech, bounds):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech, bounds=bounds))


exec(open(os.path.join(V, 'tools', 'table.py')).read())

NA = globals().get('NOT_APPLICABLE', [])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=['inputs'] + (['configurations'] if p['id'] in ('C02', 'C03', 'C04') else []) + (['histories'] if p['id'] in ('C07',) else []), text=p['over']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=m.split('@')[0].strip(), where=m.split('@')[1].strip()) for m in p['mech']],
                              observe_at=['return values, output arguments and errno of the public functions'], hook_needed=None))
        f.write(json.dumps(d) + '\n')
na = {n['property'] for n in NA}
m = dict(version=1, setup_cmd='python3-vt engine/run.py --setup',
         checks=[dict(property=p['id'], quick_cmd='python3-vt engine/run.py %s quick' % p['id'], thorough_cmd='python3-vt engine/run.py %s thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'],
                      technique='symbolic execution of the LLVM IR of the real headers; z3 decides every assertion on every path; counterexamples replayed natively',
                      level='model_checking',
                      level_note='Bounded: ' + p['bounds'] + ' Doubles are exact reals unless a harness says mode=fp (bit-exact IEEE-754); trusts clang -O0 IR, the IR interpreter, z3, and the identities stated for transcendental symbols.')
                 for p in P if p['id'] not in na],
         not_applicable=NA,
         notes='No hooks in /repo. Exact bounds of each obligation are the claim strings of the HARNESS macros, repeated in the evidence files.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
