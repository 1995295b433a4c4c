#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Exhaustive only for the design models at their constants; for the code, every recorded execution (TLC-generated '
        'call patterns with seeded and corner data, sanitized and optimised builds) is checked record by record against '
        'the TLA+ specification. Trusts TLC, the compilers and the recording driver.')
NOTES = {
 'C13': ' One recorded finding (final-block padding) is accepted under its own name.',
 'C15': ' One recorded finding (final-block padding) is accepted under its own name.',
 'C20': ' Schedules are those the model generates, forced at the points where the library calls back into caller objects; data races are additionally reported by ThreadSanitizer as events no behaviour contains.',
}
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
skip = {}


m = {
 'version': 1,
 'setup_cmd': 'bin/setup',
 'checks': [dict(property=p['id'], quick_cmd='bin/check %s quick' % p['id'], thorough_cmd='bin/check %s thorough' % p['id'],
                 technique='explicit TLA+ specification checked with TLC; recorded executions of the real code validated against it',
                 level='model_checking', level_note=NOTE + NOTES.get(p['id'], ''))
            for p in props if p['id'] not in skip],
 'not_applicable': [dict(property=k, reason=v) for k, v in skip.items()],
 'notes': 'No hooks in /repo: the public API exposes what the specification talks about.',
}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
