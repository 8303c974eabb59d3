#!/usr/bin/env python3
'''Development helper: confirm planted bugs in scratch copies of /repo.

plant.py new SPEC.py [ID ...]   spec defines BUGS = [dict(id, property, edits=[(file, old, new)],
                                needs, breaks, demo)]; writes /verif/seeded/ID if confirmed
plant.py check [ID ...]         run the property's quick check against planted bugs
plant.py verify [ID ...]        repeat the confirmation (tests, demo) for existing ones
'''
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = '/verif/seeded'
DEMO = '''#!/bin/sh
# exit 0: behaviour as documented; nonzero: broken.  Run with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d) || exit 3
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" || exit 3
MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo" /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, timeout=880, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True,
                           timeout=timeout, env=e)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'TIMEOUT'


def scratch():
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    return d


def tests(d, n=4):
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for attempt in range(4):
        sh(f'timeout 840 /opt/venv/bin/python -m pytest -q -n {n} -p no:cacheprovider --timeout=300 '
           f'--disable-warnings --continue-on-collection-errors --basetemp={d}/t '
           f'-o junit_family=xunit2 --junitxml={d}/j.xml', cwd=d + '/repo',
           env={'PYTHONHASHSEED': '0', 'PYTHONPATH': d + '/repo'})
        sh(f'/opt/venv/bin/python /opt/vp/results.py {d}/o.json junit:{d}/j.xml')
        b -= set(json.load(open(d + '/o.json'))['passed'])   # some tests are flaky
        miss = sorted(b)
        if not miss:
            return []
    return miss


def demo(d, folder):
    # lay the demonstration elsewhere, as the final check does
    t = tempfile.mkdtemp(prefix='demo.', dir='/tmp')
    for f in os.listdir(folder):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
            shutil.copy(os.path.join(folder, f), t)
    r = sh(f'sh {t}/demo.sh', cwd=d + '/repo', timeout=300)
    shutil.rmtree(t)
    return r


def check(d, prop, tier='quick', extra=''):
    v = d + '/verif'
    if not os.path.exists(v):
        shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence',
                                                                   'replays'))
        t = open(v + '/check.sh').read().replace('$here:/repo', f'$here:{d}/repo')
        open(v + '/check.sh', 'w').write(t)
    return sh(f'sh {v}/check.sh {prop} --tier {tier} -j 4 {extra}', cwd=d, timeout=900,
              env={'VERIF_SEED': '1', 'VERIF_TIER': tier, 'PYTHONHASHSEED': '0'})


def report_check(d, prop):
    rc, out = check(d, prop)
    lines = [x for x in out.splitlines() if x.startswith('VIOLATION')]
    caught = rc == 1 and any(f'property={prop}' in x for x in lines)
    return ('CAUGHT' if caught else f'MISSED rc={rc}') + ('' if caught else ' ' + out[-300:])


def new(spec):
    folder = os.path.join(SEEDED, spec['id'])
    if os.path.exists(folder):
        return spec['id'], 'exists already'
    d = scratch()
    try:
        os.makedirs(d + '/s')
        open(d + '/s/demo.sh', 'w').write(DEMO)
        open(d + '/s/demo.py', 'w').write(spec['demo'])
        rc, out = demo(d, d + '/s')
        if rc != 0:
            return spec['id'], 'demo fails on unchanged tree: ' + out[-1500:]
        for f, old, newtext in spec['edits']:
            p = os.path.join(d, 'repo', f)
            t = open(p).read()
            if t.count(old) != 1:
                return spec['id'], f'text occurs {t.count(old)} times in {f}: {old!r}'
            open(p, 'w').write(t.replace(old, newtext))
        rc, out = demo(d, d + '/s')
        if rc == 0:
            return spec['id'], 'demo passes with the change: ' + out[-1000:]
        demoout = out[-200:]
        miss = tests(d)
        if miss:
            return spec['id'], f'tests fail: {miss[:5]}'
        rc, diff = sh('git diff', cwd=d + '/repo')
        # lines must be from the original repository
        base = sh('git -C /repo rev-list --max-parents=0 HEAD')[1].strip()
        for f, old, newtext in spec['edits']:
            orig = sh(f'git -C /repo show {base}:{f}')[1]
            minus = [x[1:] for x in diff.splitlines() if x.startswith('-') and not x.startswith('---')]
            for m in minus:
                if m.strip() and m not in orig.splitlines() and len(spec['edits']) == 1:
                    print(spec['id'], 'WARNING: not an original line:', m)
        os.makedirs(folder)
        for f in ('demo.sh', 'demo.py'):
            shutil.copy(d + '/s/' + f, folder)
        open(folder + '/patch.diff', 'w').write(diff)
        json.dump({'property': spec['property'], 'needs': spec['needs'],
                   'what_it_breaks': spec['breaks']}, open(folder + '/meta.json', 'w'), indent=1)
        return spec['id'], 'OK ' + spec['property'] + ' ' + report_check(d, spec['property']) + ' | demo: ' + demoout.strip()[-100:]
    finally:
        shutil.rmtree(d)


def existing(ident, verify):
    folder = os.path.join(SEEDED, ident)
    meta = json.load(open(folder + '/meta.json'))
    d = scratch()
    try:
        res = ''
        if verify:
            rc, out = demo(d, folder)
            res += f'demo unchanged {rc} '
        rc, out = sh(f'git apply {folder}/patch.diff', cwd=d + '/repo')
        if rc:
            return ident, 'patch does not apply ' + out
        if verify:
            res += f'patched {demo(d, folder)[0]} tests missing {tests(d)} '
        return ident, meta['property'] + ' ' + res + report_check(d, meta['property'])
    finally:
        shutil.rmtree(d)


def main():
    cmd = sys.argv[1]
    with ThreadPoolExecutor(2 if cmd == 'new' else 2) as ex:
        if cmd == 'new':
            ns = {}
            exec(open(sys.argv[2]).read(), ns)
            jobs = [ex.submit(new, b) for b in ns['BUGS'] if not sys.argv[3:] or b['id'] in sys.argv[3:]]
        else:
            ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
            jobs = [ex.submit(existing, i, cmd == 'verify') for i in ids]
        for j in jobs:
            print(*j.result(), flush=True)


if __name__ == '__main__':
    main()
