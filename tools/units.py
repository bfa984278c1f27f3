"""Writes sa/units.json: which units feed which property on this tree."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
os.environ['VERIF_TIER'] = 'thorough'
from sa import catalog, runner
runner.JOB_SECONDS = 3000

out = {}
by_kind = {}
for p, meta in catalog.PROPERTIES.items():
    by_kind.setdefault(meta['kind'], []).append(p)
for kind, props in by_kind.items():
    jobs = {}
    for p in (props if kind in ('parser', 'cli') else props[:1]):
        for tier in ('thorough', 'quick'):
            for j in catalog.jobs_of(p, tier, runner.REPO):
                jobs.setdefault(j[1], j)
    res = runner.run_jobs(list(jobs.values()))
    for r in res:
        if r['error']:
            print('ERROR', r['name'], r['error'][:200])
        for f in r['findings']:
            out.setdefault(f[0], set()).add(r['name'])
with open(os.path.join(VERIF, 'sa', 'units.json'), 'w') as fout:
    json.dump({p: sorted(us) for p, us in sorted(out.items())}, fout,
              indent=0, sort_keys=True)
    fout.write('\n')
