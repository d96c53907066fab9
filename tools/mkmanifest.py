#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

TECH = 'deterministic simulation with fault injection: '
NOTE = {
    'C01': (TECH + 'seeded delivery schedules, compared with the undisturbed execution', 'Every run compares the real parse under a seeded schedule of short reads and interruptions with the real parse delivered at once (std, all features, no_std). Sampling: a clean batch is evidence, not proof. Trusts the simulated reader and the generator of formats.'),
    'C02': (TECH + 'every reader call fails in turn, bursts of failures, damaged data', 'All single-failure points of the sampled parses are enumerated (formats and images are sampled); position after a failure is checked on the real reader, also for nested parses. Excuses only a failing last seek.'),
    'C03': (TECH + 'record streams with transient faults and client retries', 'The history of records must equal that of the undisturbed real run, each exactly once, with bounded reader calls after the last fault. Sampled streams, formats without declared alternatives.'),
    'C04': (TECH + 'fault enumeration over reader calls, error identity', 'All single-failure points of the sampled parses; outcome must carry the injected error, or be what the reference interpreter gives for an alternative. The interpreter is consulted only where it agrees with the real undisturbed parse.'),
    'C05': (TECH + 'data cut at every byte', 'All cut points of sampled images; compared with the reference interpreter where it agrees on the whole image.'),
    'C13': (TECH + 'hostile data and failing readers under panic, allocation and step monitors', 'Panics, aborts, hangs, memory beyond a bound proportional to the image, and reader calls beyond a bound from the reference interpreter. Sampled; recursive formats and zero-sized items are out of scope.'),
    'C14': (TECH + 'operation histories with faults against a std::io twin', 'Operation histories over the no_std cursor, buffers and adaptors on simulated readers, step by step against std::io. Sampled histories.'),
    'C15': (TECH + 'the same executions in three builds', 'The same seeded executions in std, all-features (with a live, failing or absent template output) and no_std builds, compared run by run.'),
    'C16': (TECH + 'threads parked at every lock, counter and reader call and released by a seeded scheduler', 'Real threads and the real template writer; the seeded scheduler decides every interleaving at lock/counter/reader granularity through a guarded hook. Records are compared with solo runs.'),
    'C17': (TECH + 'parses interleaved at every reader call, nested and abandoned parses', 'Every parse of a seeded interleaving must return what it returns alone. Interleaving granularity is one reader call.'),
}
GEN = (TECH + 'refinement against a reference interpreter under faulty readers', 'Result, position and evaluated expressions of every sampled execution equal the reference interpreter\'s under benign delivery, damaged data and at most one hard failure. Trusts sim/src/model.rs; sampled.')


def main():
    ids = sorted(plan.QUICK)
    checks = []
    for i in ids:
        t, n = NOTE.get(i, GEN)
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': plan.LEVEL.get(i, 'exploration'), 'level_note': n})
    na = [
        {'property': 'C19', 'reason': 'Decided entirely at compile time by the derive macro: no reader call, schedule, fault or interleaving takes part, so there is nothing to simulate.'},
        {'property': 'C20', 'reason': 'Pure conversions of a value already in memory: no reader call, schedule, fault or interleaving takes part, so there is nothing to simulate.'},
    ]
    allids = ['C%02d' % k for k in range(1, 21)]
    for i in allids:
        if i not in ids and i not in ('C19', 'C20'):
            na.append({'property': i, 'reason': 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
    hooks = os.environ.get('HOOK_COMMITS')
    if os.path.exists('/verif/tools/hooks.json'):
        m['hooks'] = json.load(open('/verif/tools/hooks.json'))
    with open('/verif/MANIFEST.json', 'w') as o:
        json.dump(m, o, indent=1)
        o.write('\n')


main()
