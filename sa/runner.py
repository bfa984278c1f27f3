"""Runs the analyses a property needs and reports.

An analysis is a named unit of work.  Its result is a dictionary:
  findings     [(property, rule, file, function, line, ok, message)]
  analysed     names of the functions analysed
  loops        loop reports
  seconds
  error        text, when the analysis could not be completed
"""

import fnmatch
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

JOB_SECONDS = 600


def _work(args):
    group, name, spec = args
    t0 = time.time()
    try:
        res = group.run(name, spec)
        res.setdefault('error', None)
    except Exception as e:      # the analysis gives no answer
        res = {'findings': [], 'analysed': [], 'loops': [],
               'error': f'{type(e).__name__}: {e}',
               'trace': traceback.format_exc()[-1500:]}
    res['name'] = name
    res['seconds'] = round(time.time() - t0, 2)
    return res


def run_jobs(jobs):
    """jobs: [(group, name, spec)]; group.prepare() has been called."""
    n = min(8, os.cpu_count() or 1, max(1, len(jobs)))
    if n == 1 or os.environ.get('VERIF_SERIAL'):
        return [_work(j) for j in jobs]
    ctx = multiprocessing.get_context('fork')
    out = []
    with ctx.Pool(n, maxtasksperchild=20) as pool:
        hs = [pool.apply_async(_work, (j,)) for j in jobs]
        deadline = time.time() + JOB_SECONDS
        for j, h in zip(jobs, hs):
            try:
                out.append(h.get(max(.01, deadline - time.time())))
            except multiprocessing.TimeoutError:
                out.append({'name': j[1], 'findings': [], 'analysed': [],
                            'loops': [], 'error': 'time limit',
                            'seconds': JOB_SECONDS})
        pool.terminate()
    return out


def load_known(prop):
    """Construct patterns listed for a property: [(pattern, text)]"""
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if not os.path.exists(path):
        return out
    with open(path) as fin:
        for line in fin:
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('property') == prop:
                out.append(d)
    return out


def construct(f):
    """Identity of a finding that does not depend on line numbers."""
    prop, rule, file, fn, line, ok, msg = f
    return f'{file}:{fn}:{rule}'


def check(prop, meta, jobs, tier, extra_coverage=None):
    t0 = time.time()
    results = run_jobs(jobs)
    mine = [f for r in results for f in r['findings'] if f[0] == prop]
    bad = [f for f in mine if not f[5]]
    known = load_known(prop)
    new, old = [], {}
    for f in bad:
        for k in known:
            if fnmatch.fnmatch(construct(f), k['construct']):
                old.setdefault(k['construct'], (k, f))
                break
        else:
            new.append(f)
    # Units that have something to say about the property.
    feeding = {}
    path = os.path.join(VERIF, 'sa', 'units.json')
    if os.path.exists(path):
        with open(path) as fin:
            feeding = json.load(fin)
    names = {u for us in feeding.values() for u in us}
    relevant = [r for r in results
                if r['name'] not in names
                or r['name'] in feeding.get(prop, ())]
    errors = [r for r in relevant if r['error']]
    complete = not errors
    enough = mine and len(errors) * 2 <= len(relevant)
    rules = {}
    for f in mine:
        e = rules.setdefault(f[1], [0, 0])
        e[0] += 1
        e[1] += f[5]
    functions = sorted({x for r in results for x in r['analysed']})
    loops = [l for r in results for l in r['loops']]
    kinds = {}
    for l in loops:
        kinds[l[2]] = kinds.get(l[2], 0) + 1
    cov = {
        'obligations': len(mine),
        'discharged': len(mine) - len(bad),
        'checker_cmd': f'python3 check.py {prop}',
        'trusted_base': meta['trusted'],
        'explanation': meta['explanation'],
        'rules': {r: {'sites': n, 'discharged': k}
                  for r, (n, k) in sorted(rules.items())},
        'units_analysed': sum(not r['error'] for r in results),
        'units': [r['name'] for r in results if not r['error']],
        'complete': complete,
        'units_not_analysed': [[r['name'], r['error'][:300]]
                               for r in errors],
        'functions_analysed': functions,
        'loops': kinds,
        'sample_sites': sorted({f'{f[2]}:{f[4]} {f[3]}: {f[1]}'
                                for f in mine})[:40],
    }
    if extra_coverage:
        cov.update(extra_coverage)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': meta['level'],
        'coverage': cov,
        'assumptions': meta['assumptions'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fout:
        json.dump(ev, fout, indent=1)
        fout.write('\n')
    print(f'{prop}: {len(results)} units, {len(functions)} functions, '
          f'{len(mine)} obligations under {len(rules)} rules, '
          f'{len(mine) - len(bad)} discharged, {ev["wall_s"]} s')
    for r, (n, k) in sorted(rules.items()):
        print(f'  {k}/{n} {r}')
    for k, f in old.values():
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    if new:
        replay = os.path.join(VERIF, 'evidence', f'{prop}.violations.txt')
        seen = set()
        lines = []
        for f in new:
            text = f'{f[2]}:{f[4]}: {f[3]}: rule "{f[1]}": {f[6]}'
            key = (f[2], f[3], f[1])
            lines.append(text[:4000])
            if key not in seen:
                seen.add(key)
                if len(seen) <= 20:
                    print('  ' + text[:600])
        with open(replay, 'w') as fout:
            fout.write('\n'.join(lines) + '\n')
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    for r in errors[:10]:
        what = 'INCOMPLETE' if enough else 'ERROR'
        print(f'{what}: {r["name"]} was not analysed: {r["error"][:300]}')
        if os.environ.get('VERIF_TRACE'):
            print(r.get('trace'))
    if not mine:
        print('ERROR: nothing to check was found')
    if not enough or errors and os.environ.get('VERIF_STRICT'):
        return 2
    return 0
