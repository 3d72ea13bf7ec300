#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import scenarios
CONC = 'stateful model checking of the real code: exhaustive interleaving exploration under a controlled scheduler'
SEQ = 'model checking of the real code: exhaustive exploration of operation sequences with state deduplication'
NOTE = ('Exhaustive within the bounds reported in the evidence file (programs, preemptions, spurious failures); the implementation itself is executed, '
        'no model of it. Trusts: clang instrumentation, the runtime mc/rt.cpp, sequential consistency (C05 treats weak memory), 64-bit state hashing. ')
T = {
 'C05': 'explicit-state model checking of the real code under an operational C++11 memory model (stale reads, happens-before)',
 'C12': SEQ, 'C13': SEQ, 'C14': SEQ, 'C15': SEQ + ' and fault points', 'C16': CONC + ' and operation-sequence exploration with two mappings',
 'C17': 'exhaustive enumeration of the state space of tagged references on the real code', 'C18': 'exhaustive enumeration of element counts around every width boundary on the real code',
 'C22': 'exhaustive enumeration of element types, storage configurations, placements and operation sequences up to a depth on the real code',
 'C23': 'exhaustive enumeration of operation sequences with nested operations up to a depth on the real code',
 'C24': CONC + ' and of operation sequences, in several builds, with traps on undefined operations',
 'C20': SEQ + ' and allocation failure points', 'C21': 'exhaustive enumeration of all policy combinations and all operation sequences up to a depth on the real code',
}
claimed = [p for p in ['C%02d' % i for i in range(1, 25)] if p in scenarios.PROPS]
m = dict(version=1, setup_cmd='python3 check.py build', checks=[], not_applicable=[])
for p in claimed:
    m['checks'].append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 check.py run %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py run %s' % p,
        evidence_file='evidence/%s.json' % p, technique=T.get(p, CONC), level='model_checking', level_note=NOTE + 'Bounds: ' + scenarios.PROPS[p]['bounds']))
for i in range(1, 25):
    p = 'C%02d' % i
    if p not in claimed: m['not_applicable'].append(dict(property=p, reason='the technique applies, but the check is not built yet'))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
