#!/usr/bin/env python3
"""merge_evidence.py OUT PART... : one evidence file from those of the builds
(feature combinations) a property was checked with."""
import json, os, sys
out, parts = sys.argv[1], sys.argv[2:]
ev = [json.load(open(p)) for p in parts if os.path.exists(p)]
if not ev:
    sys.exit("no evidence was written")
for p in parts:
    if os.path.exists(p):
        os.unlink(p)
m = ev[0]
if len(ev) > 1:
    c = m['coverage']
    c['builds'] = [e['coverage']['build'] for e in ev]
    for e in ev[1:]:
        d = e['coverage']
        for k in ('evaluations', 'distinct_nontrivial', 'simulated_time_s', 'scheduler_steps', 'distinct_interleavings', 'model_states_visited', 'inconclusive_runs'):
            c[k] += d[k]
        for k in ('faults_injected', 'scenario_counts', 'inconclusive_reasons'):
            for n, x in d[k].items():
                c[k][n] = c[k].get(n, 0) + x
        c['samples'] += d['samples']
        m['wall_s'] += e['wall_s']
        m['violations'] += e['violations']
    for k in ('simulated_runs_per_hour', 'seeds_per_hour'):
        c[k] = int(sum(e['coverage'][k] * e['wall_s'] for e in ev) / max(0.1, m['wall_s']))
json.dump(m, open(out, 'w'), indent=1)
open(out, 'a').write('\n')
