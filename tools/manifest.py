"""writes MANIFEST.json from the property modules that exist"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'C01': 'deterministic simulation of operation histories with seeded fault injection at interpreter seams; snapshot comparison',
 'C02': 'deterministic simulation with fault injection; refinement against a never-faulted twin history',
 'C03': 'deterministic simulation of fit histories; reference model (independent dense likelihood, complex-step derivatives)',
 'C04': 'deterministic simulation with injected NaN/trap transients; invariant on every iteration against a reference objective, bounded work on a virtual clock',
 'C05': 'deterministic simulation of histories, faults and schedules; invariant checked in every model evaluation',
 'C06': 'deterministic simulation of caller threads under a seeded scheduler with faults; bitwise comparison with solo runs',
 'C07': 'deterministic simulation of a writer and readers under a seeded scheduler; snapshot-read / version-order check of the history',
 'C08': 'deterministic simulation of histories with mutations of inputs and outputs and injected failures; model comparison',
 'C09': 'deterministic simulation of the process environment (random state, FP mode, streams, prior activity, failures); twin comparison',
 'C10': 'deterministic simulation with fault injection into the kernels; bounded progress on a virtual clock and reference answers',
 'C11': 'deterministic simulation of arrival orders, batches and interrupted calls; reference model',
 'C12': 'deterministic simulation of tensor operation histories with aborts and concurrent clients; dense reference model',
 'C13': 'deterministic simulation of builder histories with failing and interrupted calls; reference expression model',
 'C14': 'deterministic simulation of fit histories with faults; reference reports recomputed from an independent model',
 'C15': 'deterministic simulation with exceptions injected into user components at seeded invocations; propagation check',
}
NOTE = {
 'default': 'Seeded sampling of histories, schedules and faults, not enumeration: a clean run is evidence within the sampled space. '
            'Real maxlike/numpy/scipy code runs; faults strike at calls, function entries and arithmetic only.'}
NA = {
 'C16': 'pure function of (u, v, rho): no schedule, clock, I/O, fault or history for the property to depend on; a simulation would only be input generation (concurrent use of copulas is covered by C06)',
 'C17': 'pure function of the parameters: nothing to simulate (the kernels are exercised as parts of fitted models in C03/C13)',
 'C18': 'pure function of the argument: nothing to simulate (derivatives inside fits and built functions are covered by C03/C13)',
 'C19': 'pure numerical accuracy of a closed expression: nothing to simulate (the root finders built on it are covered by C10)',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(V, 'dst/props/%s.py' % i.lower())):
        checks.append({'property': i, 'quick_cmd': './check %s' % i,
                       'thorough_cmd': './check %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE['default']})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -W ignore dst/main.py setup',
           'hooks': {'guard': 'none', 'enable': 'no hooks were needed: all seams are taken through sys.monitoring from outside /repo',
                     'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
