#!/usr/bin/env python3
"""Writes MANIFEST.json from obligations.py and properties.jsonl (run by hand after a change, result is committed)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import obligations
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {
 'C28': 'a statement about elapsed time on real hardware under real workloads; no pre/postcondition over program states expresses it and no verifier here decides it',
 'C29': 'asynchronous interruption between any two instructions: the signal handler calls g_timeout_add_full (which allocates and takes the GLib context lock), so the property is false by design of the handler; showing or refuting it needs an interleaving semantics at instruction level, which function contracts do not have. What happens once a signal has been delivered is C26',
}
checks = []; na = []
for i in ids:
    if i in obligations.PROPS and i not in NA and obligations.PROPS[i]['obligations']:
        s = obligations.PROPS[i]
        bounded = [o.name for o in s['obligations'] if o.bounded]
        checks.append({'property': i, 'quick_cmd': 'python3 lib/run.py %s quick' % i, 'thorough_cmd': 'python3 lib/run.py %s thorough' % i,
          'technique': 'contract-based deductive verification of the real C functions (CBMC code contracts, harness contracts and inductive callbacks); runtime contract check for replay',
          'level': s.get('level', 'proof'),
          'level_note': s.get('note', 'Every obligation generated from the current source is discharged for all inputs.') +
             (' Bounded parts (not counted as proved): ' + ', '.join(bounded) + '.' if bounded else '') +
             ' Trusted: CBMC, the environment contracts of GLib/libc in /verif/proofs and /verif/lib. ' + '; '.join(s.get('assumptions', []))})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: contracts, ghost state and environment contracts live in /verif and are compiled together with the unchanged sources of /repo on every run.'},
  open(V + '/MANIFEST.json', 'w'), indent=1)
