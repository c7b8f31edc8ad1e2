#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
claimed = subprocess.check_output([os.path.join(here, 'target/release/psbt-sim'), 'list'], text=True).split()
na = {
    'N01': 'a pure conversion of one integer or string: no party, history, storage, schedule or fault takes part, so there is nothing to simulate',
    'N03': 'a property of the build configuration, decided by compiling feature combinations, not by any execution the simulator could schedule',
}
note = ('Seeded search over schedules and fault sequences on the real crate, with independent models as oracles: '
        'a sample of executions, not a proof. Trusts the simulator\'s own container parser and models, and the bitcoin, '
        'secp256k1 and miniscript crates.')
checks = []
for p in props:
    if p['id'] in claimed:
        checks.append({
            'property': p['id'],
            'quick_cmd': './check.sh %s quick' % p['id'],
            'thorough_cmd': './check.sh %s thorough' % p['id'],
            'technique': 'deterministic simulation with fault injection, seeded schedule and fault search, reference-model oracles',
            'level': 'exploration',
            'level_note': note,
        })
m = {
    'version': 1,
    'setup_cmd': './build.sh',
    'checks': checks,
    'not_applicable': [
        {'property': p['id'], 'reason': na.get(p['id'], 'its check is not built yet')}
        for p in props if p['id'] not in claimed],
    'notes': 'No hooks in /repo: every seam the simulator needs (streams, key providers, encodings) is public API. '
             'Replay a violation with: target/release/psbt-sim replay FILE.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
