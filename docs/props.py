"""Source of properties.jsonl and MANIFEST.json (run: python3 docs/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note='', claimed=True, level='proof', technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if claimed:
        CHK.append(dict(property=id, quick_cmd='python3-vt pv/check.py %s' % id, thorough_cmd='VERIF_TIER=thorough python3-vt pv/check.py %s' % id,
                        technique=technique or 'contracts on the compiled C++ functions, proved for all inputs by a VC generator over clang IR and Z3; failed obligations replayed on the real interpreter',
                        level=level, level_note=note))
    else:
        NA.append(dict(property=id, reason=note))


CHK = []
BASE = 'Every obligation of every contract (postconditions, frame, absence of null/out-of-bounds access, loop invariants) is discharged by Z3 from the IR of the current sources. Trusts clang\'s front end, the VC generator in pv/, Z3, and the listed contracts of the allocator and error reporter; assumes well-formed heap objects and successful allocation. '
exec(open(os.path.join(V, 'docs', 'list.py')).read())

ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
P.sort(key=lambda p: p['id'])
CHK.sort(key=lambda c: c['property'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as h:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        h.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='python3-vt pv/setup.py', checks=CHK, not_applicable=NA,
               notes='No hooks in /repo. See DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(CHK), 'claimed', len(NA), 'not applicable')
