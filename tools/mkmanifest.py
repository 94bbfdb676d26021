#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ('Sampled executions, not all of them. Trusts the harness: the independent reference model of wire format and JSON mapping, the simulated devices and allocator, '
          'ASan/UBSan, clang 18. ')
CHECKS = {
    'C01': ('deterministic simulation of process lives over a simulated disk: seeded crashes, lost tails, split I/O; reference model of the format', 'exploration',
            'Crash points, tails lost and I/O splits are drawn per run.'),
    'C02': ('deterministic simulation of process lives over a simulated disk: seeded crashes, lost tails, split I/O; independent JSON parser and mapping', 'exploration',
            'Numbers are restricted to finite ones, dates to years 1-9999, nested nullables to those JSON can tell apart.'),
    'C03': ('deterministic simulation of restores from a simulated device: every cut and read failure drawn by seed, split reads, retry; reference model', 'exploration',
            'Streams are set to throw, as the documentation of the library requires.'),
    'C04': ('deterministic simulation with stored-byte corruption: seeded damage of encodings, decoded both by the library and by an independent decoder; bounded allocator, step budget', 'exploration',
            'Sizes claimed by damaged input may end in bad_alloc or length_error.'),
    'C05': ('deterministic simulation with stored-text corruption: seeded damage of JSON texts and values, errors predicted by an independent model of the mapping', 'exploration',
            'Nesting depth of documents is bounded (recursion).'),
    'C06': ('deterministic simulation of saves to failing devices: seeded write refusals, short writes, full disks; reference encoder', 'exploration', ''),
    'C07': ('deterministic simulation of two peers over a simulated transport: seeded fragmentation, delay, drops; the other peer is an independent implementation of the format', 'exploration', ''),
    'C08': ('deterministic simulation of binary sessions under an address-assigning allocator (low, high, reused addresses); isomorphism of object graphs', 'exploration',
            'Shared pointers of different types to one address are a known finding and not generated.'),
    'C09': ('deterministic simulation of a rolling upgrade: nodes of versions 1-4 restart, upgrade and downgrade over common storage by seed; version-aware reference model', 'exploration',
            'Versioned records within containers and conditional members of unversioned bases are known findings.'),
    'C11': ('deterministic simulation of snapshot histories: seeded modification, destruction and reuse of memory between snapshot and inspection', 'exploration', ''),
    'C10': ('deterministic simulation of threads: a seeded scheduler decides after which basic-block edge, access to static data, allocation or device call another thread goes on; every session compared with its run alone', 'exploration', ''),
    'C12': ('deterministic simulation of memory running out: a seeded allocator fails one allocation or all from some point on; outcome, leaks, source, target and retry checked against the model', 'exploration', ''),
    'C13': ('deterministic simulation of histories of one error object with errors made fatal by seed, against fresh error objects and the model', 'exploration', ''),
    'C14': ('deterministic simulation of restore histories of one object (failed restores, other states, modifications) against fresh restores', 'exploration', ''),
    'C15': ('deterministic simulation of whole generator lives: every file call answered by the simulator, failures, short transfers, interruptions and kills drawn by seed; '
            'compared with the undisturbed life', 'exploration',
            'Standard output is modelled with the buffering of the C library; end-of-file in the middle of an input is not injected (it is a different input).'),
    'C17': ('deterministic simulation of histories of releases: generator lives under simulated files, memory, failures and kills drawn by seed; the programs built from what they '
            'leave exchange data over a simulated store, in any order of releases; reference model of what is to be restored', 'exploration',
            'Headers are drawn from a grammar of declarations (the limits are listed in DESIGN.md); the built programs themselves run undisturbed (C01-C09 disturb the library).'),
    'C16': ('deterministic simulation of whole generator lives under seeded memory layouts, split I/O, earlier outputs, environments, clocks and repetition; outputs compared byte for byte',
            'exploration', 'Inputs are generated declarations over a stand-in for the library headers.'),
}
NA = {}
m = {
    'version': 1,
    'setup_cmd': 'python3 build.py all',
    'checks': [],
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
    'notes': 'No hooks in /repo: every seam (streams, allocator, libc I/O, thread schedule) lies at the boundary of the code. '
             'python3 check.py --replay FILE re-executes a replay file. Known findings and repaired defects: KNOWN_FINDINGS.',
}
for k, (tech, level, note) in sorted(CHECKS.items()):
    m['checks'].append({
        'property': k,
        'quick_cmd': 'python3 check.py %s --tier quick' % k,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % k,
        'evidence_file': 'evidence/%s.json' % k,
        'technique': tech,
        'level': level,
        'level_note': COMMON + note,
    })
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = set(CHECKS) | set(NA)
for p in props:
    if p['id'] not in have:
        m['not_applicable'].append({'property': p['id'], 'reason': 'no check for it has been built yet'})
m['not_applicable'].sort(key=lambda x: x['property'])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
