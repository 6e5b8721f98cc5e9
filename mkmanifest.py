#!/usr/bin/env python3
# Writes MANIFEST.json from check.py's table.
import json, check
NOTE = {
 'C01': 'histories of up to ~30 operations by 2-4 clients on Manhattan sets of both orientations, compared with a per-face winding/label model; coordinates on small grids scaled and offset up to 1e9',
 'C02': 'as C01 for 45-degree sets with integer crossings',
 'C03': 'as C01 for arbitrary-angle sets; tolerance near edges where crossings are not integer points',
 'C04': 'seeded allocation failures (single and persistent) and throwing output containers inside queries and lazy expressions of the three families; leaks judged by allocation site',
 'C05': 'seeded allocation failures and throwing input iterators inside every mutator of the three families; leaks judged by allocation site',
 'C06': 'seeded merges of all three families, interleaved and with faults, against a per-face label model',
 'C07': 'seeded extractions of all three families, interleaved and with faults, against an exact touch model',
 'C08': 'seeded builder lives over point and segment sites; structure, exact nearest-site and Delaunay oracles',
 'C09': 'seeded failures inside insertion and construction, then recovery compared with fresh objects',
 'C10': 'each client is rerun alone with another heap layout, fill pattern and stack; outputs must be byte-identical',
 'C16': 'seeded call sequences on accumulating results with failures; exact rational oracle where crossings are integer points, crossing-freeness and path oracle elsewhere',
 'C17': 'sampled points around the boundary of each result against distances to the union, mitred offsets and exact reflected-operand intersection; histories, interleaving and allocation failures',
 'C11': 'readers interleaved at library-step granularity on shared normal-form objects; object bytes compared',
}
NA = {
 'C12': 'pure arithmetic on its arguments: no history, schedule, time, I/O or fault that a simulator could vary; seeded inputs alone would be plain fuzzing',
 'C13': 'pure predicates on their arguments: nothing for a simulator to schedule or fault (their effect on diagrams is observed through C08)',
 'C14': 'pure value algebra: nothing for a simulator to schedule or fault',
 'C15': 'pure functions of one polygon value: nothing for a simulator to schedule or fault',
}
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    if p in check.CHECKS:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p, 'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                            'technique': 'deterministic simulation with fault injection (seeded search over histories, preemptions, faults and heap states)',
                            'level': 'exploration', 'level_note': NOTE[p]})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'the simulated world for it is still being built')})
m['notes'] = 'No hooks in /repo: the seams (allocator, input iterators, output containers, instrumented edges for preemption) exist outside it. See DESIGN.md.'
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
