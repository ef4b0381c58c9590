#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G15 = ['src/jstd/hashmap/group15_flat_map.hpp', 'src/jstd/hashmap/group15_flat_table.hpp']
G16 = ['src/jstd/hashmap/group16_flat_map.hpp', 'src/jstd/hashmap/group16_flat_table.hpp']
RO = ['src/jstd/hashmap/robin_hash_map.h']
TR = ['src/jstd/hashmap/slot_policy_traits.h', 'src/jstd/hashmap/flat_map_slot_policy.hpp', 'src/jstd/hashmap/map_slot_policy.h', 'src/jstd/hashmap/slot_policy_traits.hpp']
ALLF = G15 + G16 + RO
TABLES = 'group15_flat_map, group16_flat_map and robin_hash_map (direct and indirect layout)'
WTC = 'The existing tests compare checksums of a few integer and string workloads of fixed size; '
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na))
exec(open(os.path.join(H, 'tools', 'table.py')).read())
def exists(f): return os.path.exists(os.path.join('/repo', f))
with open(os.path.join(H, 'properties.jsonl'), 'w') as o:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        for f in p['files']: assert exists(f), f
        o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
M = dict(version=1, setup_cmd='python3 -m compileall -q vlib check.py',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                      technique=p['technique'], level='other', level_note=p['note']) for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
         notes='All checks are static: they compile drivers against /repo/src (or VERIF_REPO/src) with clang and analyse the IR or the syntax tree; nothing of the library is executed. Exit 2 with ANALYSIS-BROKEN means the analysis lost its subject.')
json.dump(M, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(M['checks']), 'checks', len(M['not_applicable']), 'not applicable')
