"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'P01': 'Hypothesis-generated parameters; exact-law goodness of fit (Rosenblatt transform) of sampled paths',
    'P02': 'Hypothesis-generated bridges; exact conditional law (whitening, density-ratio PIT) of sampled paths',
    'P03': 'Hypothesis-generated query histories against a history invariant / reference record',
    'P04': 'Hypothesis-generated query schedules; exact bridge law, layer and hit probabilities',
    'P05': 'Hypothesis-generated intervals and parameters against the discount on dense grids and exact optima',
    'P06': 'Hypothesis-generated data; mean of the estimator against closed-form likelihoods, formulas written out',
    'P07': 'Hypothesis-generated regime paths; mean of the estimator against the exact piecewise OU likelihood',
    'P08': 'Hypothesis-generated parameters and states; numeric differentiation, round trips, domination on grids',
    'P09': 'Hypothesis-generated configurations; one-step kernel invariance from exact joint draws (Geweke style)',
    'P10': 'Hypothesis-generated configurations; one-step kernel invariance from exact conditional draws',
    'P11': 'Hypothesis-generated configurations; one-step kernel invariance and gamma PIT of the conjugate update',
    'P12': 'Hypothesis-generated configurations; one-step kernel invariance from exact joint draws',
    'P13': 'Hypothesis-generated data and runs; data-retention and round-trip invariants over the whole history',
    'P14': 'Hypothesis-generated data; EM steps against independent maximisers of the same objective',
    'P15': 'Hypothesis-generated generators; chi-square against matrix exponentials and own count distributions',
    'P16': 'Hypothesis-generated jump paths and split times; exact round trips, reference evaluation, invariance of law',
    'P17': 'Hypothesis-generated boxes and batch sizes; Poisson counts and order-statistics PIT',
    'P18': 'Hypothesis-generated jump paths; independent formulas, conjugacy identities, gamma PIT',
    'P19': 'Hypothesis-generated weights and coins; exact success probabilities, scripted coins as reference model',
    'P20': 'Hypothesis-generated log-concave families; PIT of draws, hull domination',
    'P21': 'Hypothesis-generated bridges; closed-form probabilities, inverse pairs, threshold search per seed',
    'P22': 'Hypothesis-generated bridges; layer probabilities, killed-density PIT, nesting invariants',
    'P23': 'Hypothesis-generated time sets; Gaussian/Bessel PIT, moment identities, metamorphic transforms',
    'P24': 'Hypothesis-generated runs; differential re-execution, argument snapshots',
    'P25': 'Hypothesis-generated sampler histories; density identities, reference statistics',
    'P26': 'Hypothesis-generated invalid requests and budgets; rejection oracle and isolation after failure',
}
NOTE = ('Random search with an exact oracle: no absence claim beyond the explored cases. Statistical parts alarm only after '
        'two independent stages (p<3e-3, then p<1e-6 on fresh draws of larger size), so small distortions stay unseen. '
        'Trusts numpy/scipy and the closed forms in harness/lib.py.')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'harness', 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='./run.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + i,
                           evidence_file='evidence/%s.json' % i, technique=TECH[i], level='exploration', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='no check built yet'))
json.dump(dict(version=1, setup_cmd='./run.sh selftest', checks=checks, not_applicable=na,
               notes='No hooks in /repo: everything is observed through its public and module-level functions.'),
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
