#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--runs N] [--time S] | --replay FILE

Builds the simulator from /repo's working tree, searches seeded executions for a violation of PROPERTY,
writes evidence/PROPERTY.json. Exit 0: held on everything explored, 1: VIOLATION, anything else: no answer."""
import argparse
import json
import os
import resource
import subprocess
import sys
import time

import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')
GENERATOR_PROPERTIES = {'C15', 'C16', 'C17'}
FINE_PROPERTIES = {'C10'}
REAL = {
    'lib': 'all of lib/ (binary and JSON reflectors, serializable templates, error handling, versioning) compiled from the working tree with ASan+UBSan; '
           'reflection code written by the code generator built from the working tree; RapidJSON, libstdc++ streams and C++ utilities as installed',
    'gen': 'the whole generator (main, code factory, frontend action, JSON and binary generators) compiled from the working tree; LLVM/clang and C++ utilities as installed',
}
STUB = {
    'lib': 'devices behind the stream buffers, transport between peers, memory allocator (operator new/delete and malloc of the code under test), thread scheduler; '
           'generated build-time configuration headers of C++ utilities (application metadata)',
    'gen': 'libc file I/O (open, read, pread, write, writev, close, fstat, mmap, lseek) of the input and output files is answered by the simulator; build-time configuration header',
}
MORE_REAL = {
    'C17': '; the programs of every release: clang, the generated code and all of lib/ from the working tree, their own processes with real memory, exchanging data through the simulator',
}
TIME = {
    'lib': 'steps of the simulated world as counted by each scenario (process lives, deliveries, operations); the library itself reads no clock',
    'gen': 'generator process lives; the generator reads no clock',
    'C17': 'generator process lives and restores of one release\'s data by another\'s program; neither reads a clock',
}
STATES = {
    'default': 'distinct hashes of (type, operation, outcome, fault position class) met',
    'C17': 'distinct input headers',
    'C10': 'distinct interleavings: hash of the sequence of (thread, point) at which the scheduler switched',
}


def known(prop):
    out = {}
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                ident, text = rest.split(' ', 1)
                assert ident.startswith('id=')
                out[ident[3:]] = text
    except OSError:
        pass
    return out


def binary(prop):
    return build.build_gensim() if prop in GENERATOR_PROPERTIES else build.build_sim(prop in FINE_PROPERTIES)


def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:exitcode=99'
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--time', type=float, default=0)
    ap.add_argument('--replay')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if a.replay:
        fields = dict(l.rstrip('\n').split(' ', 1) for l in open(a.replay) if ' ' in l and not l.startswith('#'))
        a.property = fields['property']
        b = binary(a.property)
        if 'probe' in fields:
            text = subprocess.run([b, '--probe', '--property', a.property], stdout=subprocess.PIPE, env=env()).stdout.decode(errors='replace')
            shown = [l for l in text.splitlines() if l.startswith('%s %s present' % (a.property, fields['probe']))]
            print('\n'.join(shown) or 'replay: no violation')
            return 1 if shown else 0
        return subprocess.call([b, '--property', a.property, '--replay', a.replay], env=env())
    prop = a.property
    if not prop:
        ap.error('which property?')
    b = binary(prop)
    t1 = time.time()
    replays = os.path.join(VERIF, 'replays')
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    listed = known(prop)
    violations = 0
    lines = []
    findings = []
    if listed or prop not in GENERATOR_PROPERTIES:
        p = subprocess.run([b, '--probe', '--property', prop], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env())
        if p.returncode:
            sys.stderr.write('the probes end with %d\n%s' % (p.returncode, p.stderr.decode(errors='replace')[-2000:]))
            return 3
        for line in p.stdout.decode(errors='replace').splitlines():
            _, ident, status, text = (line + ' ').split(' ', 3)
            if status != 'present':
                continue
            if ident in listed:
                print('KNOWN-FINDING: property=%s %s' % (prop, listed[ident]))
                findings.append({'id': ident, 'what': listed[ident], 'seen': text.strip()})
            else:
                path = os.path.join(replays, '%s-probe-%s.replay' % (prop, ident))
                with open(path, 'w') as f:
                    f.write('property %s\nprobe %s\n# %s\n' % (prop, ident, text))
                lines.append('%s: %s' % (ident, text))
                lines.append('VIOLATION property=%s replay=%s' % (prop, path))
                violations += 1
    out = os.path.join(build.BUILD, 'out-%s-%d.json' % (prop, os.getpid()))
    cmd = [b, '--property', prop, '--tier', a.tier, '--seed', str(seed), '--replay-dir', replays, '--out', out, '--jobs', str(min(8, os.cpu_count() or 8))]
    if a.runs:
        cmd += ['--runs', str(a.runs)]
    cmd += ['--time', str(a.time or (300 if a.tier == 'quick' else 3600))]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, env=env())
    sys.stdout.write(p.stdout.decode(errors='replace'))
    for line in lines:
        print(line)
    sys.stdout.flush()
    if p.returncode not in (0, 1):
        sys.stderr.write('the simulator ends with %d\n' % p.returncode)
        return 3
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    violations += 1 if p.returncode == 1 else 0
    kind = 'gen' if prop in GENERATOR_PROPERTIES else 'lib'
    wall = max(r['search_wall_s'], 1e-3)
    c = r['counters']
    evidence = {
        'property': prop,
        'tier': a.tier,
        'seed': seed,
        'level': LEVELS.get(prop, 'exploration'),
        'coverage': {
            'evaluations': r['runs'],
            'distinct_nontrivial': r['distinct'],
            'rule': r['rule'],
            'samples': r['samples'],
            'runs_planned': r['runs_planned'],
            'simulated_runs_per_hour': int(r['runs'] / wall * 3600),
            'seeds': 'every run has its own seed, derived from VERIF_SEED=%d, the property and the number of the run' % seed,
            'simulated_time': {'units': r['sim_time'], 'what': TIME.get(prop, TIME[kind])},
            'faults_injected': {k[6:]: v for k, v in c.items() if k.startswith('fault:')},
            'rare_conditions_reached': {k[6:]: v for k, v in c.items() if k.startswith('probe:')},
            'counters': {k: v for k, v in c.items() if not k.startswith(('fault:', 'probe:'))},
            'distinct_states': {'count': r['states'], 'measure': STATES.get(prop, STATES['default'])},
            'code_edges': {'reached': r['edges_hit'], 'instrumented': r['edges_total'], 'steps': r['steps']},
            'real_code': REAL[kind] + MORE_REAL.get(prop, ''),
            'stubbed': STUB[kind],
            'known_findings_seen': findings,
        },
        'assumptions': ['sampled, not enumerated: a clean batch is evidence, not proof'],
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    evidence['coverage']['build_s'] = round(t1 - t0, 2)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)
    return 1 if violations else 0


LEVELS = {}

if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        sys.exit(main())
    except build.BuildError as e:
        sys.stderr.write('cannot build: %s\n' % e)
        sys.exit(3)
