'''Entry point: decide one property.  See check.sh.'''
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_property(pid):
    import vt.core as core
    import vt.registry as registry
    for mod in registry.MODULES[pid]:
        importlib.import_module('vt.checks.' + mod)
    return core.REGISTRY.get(pid, [])


QUICK_SHARDS = 3
THOROUGH_DEPTH = int(os.environ.get('VERIF_DEPTH', '3'))
SCRATCH = os.environ.get('VERIF_SCRATCH')


def job(args):
    pid, name, seed, n, budget = args
    import vt.core as core
    if os.environ.get('VERIF_SCRATCH'):
        # series of cases that run in parallel do not share any file
        os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp(dir=SCRATCH)
        os.chdir(os.environ['VERIF_SCRATCH'])
    s = [x for x in core.REGISTRY[pid] if x.name == name][0]
    try:
        r = core.run_sub(s, seed, n, budget)
    except BaseException:
        r = {'name': name, 'violation': None, 'error': traceback.format_exc(),
             'evaluations': 0, 'nontrivial': [], 'samples': [], 'labels': {},
             'known': [], 'wall': 0}
    r['seed'] = seed
    return r


def known_lines():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('KNOWN-FINDING:'):
                    out.append(line)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run just this sub-check')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = a.property
    t0 = time.time()

    import numpy as np
    np.seterr(all='ignore')
    try:
        subs = load_property(pid)
        import vt.registry as registry
    except Exception as e:
        # The package under test (or one of its modules) cannot be imported.
        tb = traceback.format_exc()
        frames = traceback.extract_tb(e.__traceback__)
        if frames and any('/repo/' in f.filename for f in frames):
            path = write_replay(pid, 'import', seed, a.tier,
                                {'case': 'import of the package', 'error': tb, 'blob': None})
            print(tb)
            print(f'VIOLATION property={pid} replay={path}')
            return 1
        print(tb, file=sys.stderr)
        return 3

    if a.replay:
        return replay(pid, a.replay)

    thorough = a.tier == 'thorough'
    total_budget = 1e9
    jobs = []
    for s in subs:
        if a.only and s.name != a.only:
            continue
        base = (seed * 1000003 + zlib.crc32(s.name.encode())) % (2 ** 32)
        if thorough and s.strategies:
            # several independent series of cases; VERIF_DEPTH makes it longer
            shards = max(1, min(8, s.thorough // 100))
            for k in range(shards * THOROUGH_DEPTH):
                jobs.append((pid, s.name, (base + 7919 * k) % (2 ** 32),
                             max(1, s.thorough // shards), s.budget or 2400))
        else:
            # independent series of cases, for the use of all cores
            for k in range(QUICK_SHARDS if s.strategies else 1):
                jobs.append((pid, s.name, (base + 104729 * k) % (2 ** 32), s.quick,
                             s.budget or 150))
    # longest first
    order = {s.name: s.quick for s in subs}
    jobs.sort(key=lambda j: -order[j[1]])

    results = []
    if a.j > 1 and len(jobs) > 1:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(a.j, len(jobs)), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(job, jobs, chunksize=1):
                results.append(r)
                if r['violation'] and not thorough and not a.only:
                    # one violation decides a quick run
                    pool.terminate()
                    break
    else:
        for j in jobs:
            results.append(job(j))

    for r in results:
        if os.environ.get('VERIF_VERBOSE'):
            print(f"  {r['name']:45s} eval={r['evaluations']:6d} nontrivial="
                  f"{len(r['nontrivial']):6d} {r['wall']:.1f}s {r['labels'] or ''}")
    violations = [r for r in results if r['violation']]
    errors = [r for r in results if r['error']]
    # the findings that are listed and were reproduced
    seen = {k for r in results for k in r['known']}
    rc = 0
    listed = known_lines()
    for k in sorted(seen):
        hits = [l for l in listed if f'property={pid} ' in l and k in l]
        if hits:
            print(hits[0])
        else:
            path = write_replay(pid, 'known:' + k, seed, a.tier,
                                {'case': k, 'error': 'not in known_findings.txt', 'blob': None})
            print(f'VIOLATION property={pid} replay={path}')
            rc = 1
    if not a.no_evidence:
        write_evidence(pid, a.tier, seed, results, time.time() - t0, registry)
    for r in violations:
        path = write_replay(pid, r['name'], r['seed'], a.tier, r['violation'])
        print(f"--- {pid}/{r['name']} (seed {r['seed']}) ---")
        print('falsifying case: ' + str(r['violation']['case']))
        print(r['violation']['error'])
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    for r in errors:
        print(f"--- harness error in {pid}/{r['name']} ---", file=sys.stderr)
        print(r['error'], file=sys.stderr)
    if rc == 0 and errors:
        rc = 3
    if rc == 0:
        ev = sum(r['evaluations'] for r in results)
        nt = sum(len(set(r['nontrivial'])) for r in results)
        print(f'OK property={pid} tier={a.tier} seed={seed} subchecks={len(subs)} '
              f'cases={ev} nontrivial={nt} wall={time.time() - t0:.1f}s')
    return rc


def write_replay(pid, name, seed, tier, v):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-{name}.json'.replace(':', '_').replace('/', '_').replace(' ', '_'))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'subcheck': name, 'seed': seed, 'tier': tier,
                   'case': v.get('case'), 'blob': v.get('blob'),
                   'error': v.get('error'),
                   'how': f'./check.sh {pid} --replay {path}'}, f, indent=1)
    return path


def replay(pid, path):
    import vt.core as core
    with open(path) as f:
        d = json.load(f)
    subs = [x for x in core.REGISTRY[pid] if x.name == d['subcheck']]
    if not subs:
        print('unknown subcheck', d['subcheck'])
        return 3
    s = subs[0]
    if d.get('blob'):
        r = core.run_sub(s, d['seed'], 1, 1e9, replay_blob=d['blob'])
    else:
        n = s.thorough if d.get('tier') == 'thorough' else s.quick
        r = core.run_sub(s, d['seed'], n, 1e9)
    if r['violation']:
        print('falsifying case: ' + str(r['violation']['case']))
        print(r['violation']['error'])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if r['error']:
        print(r['error'])
        # the recorded choice sequence no longer fails
        if 'DidNotReproduce' in r['error']:
            print(f'replay of {path}: no violation')
            return 0
        return 3
    print(f'replay of {path}: no violation')
    return 0


def write_evidence(pid, tier, seed, results, wall, registry):
    distinct = set()
    per = {}
    samples = []
    for r in sorted(results, key=lambda r: r['name']):
        p = per.setdefault(r['name'], {'cases': 0, 'nontrivial': 0, 'labels': {}})
        p['cases'] += r['evaluations']
        for h in r['nontrivial']:
            distinct.add((r['name'], h))
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        for x in r['samples'][:2]:
            if len([q for q in samples if q['subcheck'] == r['name']]) < 2:
                samples.append({'subcheck': r['name'], 'case': x})
    for n in per:
        per[n]['nontrivial'] = len([1 for a, b in distinct if a == n])
        if not per[n]['labels']:
            del per[n]['labels']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {
              'evaluations': sum(r['evaluations'] for r in results),
              'distinct_nontrivial': len(distinct),
              'rule': registry.RULES.get(pid, registry.DEFAULT_RULE),
              'samples': samples[:40],
              'subchecks': per},
          'assumptions': registry.ASSUMPTIONS,
          'wall_s': round(wall, 2),
          'violations': sum(1 for r in results if r['violation'])}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
