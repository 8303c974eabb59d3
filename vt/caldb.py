'''Synthetic Arcus calibration databases.

The Arcus model reads its hardware from a calibration database that is not part of the
repository. This module writes databases of the same format with generated content.
'''
import os
import subprocess

import numpy as np
import astropy.units as u
from astropy.table import Table, QTable

SPOS = [('spos', 'geometricthroughput'), ('spos', 'porespecifications')]
CURVES = [('filters', 'sifilter'), ('filters', 'opticalblocking'), ('filters', 'uvblocking'),
          ('detectors', 'contam'), ('detectors', 'qe')]
ORDERS = np.arange(-9, 4)


def write(root, d, name, tab):
    os.makedirs(os.path.join(root, d), exist_ok=True)
    tab.write(os.path.join(root, d, name), format='ascii.ecsv', overwrite=True)


def layout(rng, n_r=2, n_az=3):
    '''Petal with ``n_r`` rows of SPOs, symmetric about the middle of the petal.'''
    rows = []
    r = rng.uniform(300., 360.)
    for i in range(n_r):
        prim = rng.uniform(30, 100)
        dr = rng.uniform(25, 45)
        az = rng.uniform(45, 85)
        step = (az + rng.uniform(3, 10)) / r   # no overlap at the inner edge
        for j in range(n_az):
            rows.append((r, r + dr, prim, az, 12000., dr / 36, (j - (n_az - 1) / 2) * step))
        r += dr + rng.uniform(10, 40)
    t = Table(rows=rows, names=['inner_radius', 'outer_radius', 'primary_length', 'azwidth',
                                'focal_length', 'plate_height', 'clocking_angle'])
    for c in t.colnames:
        t[c].unit = u.mm
    if rng.random() < .5:
        t['clocking_angle'].unit = u.rad
    else:
        t['clocking_angle'] = np.rad2deg(t['clocking_angle'].data)
        t['clocking_angle'].unit = u.deg
    return t


def clocking(t):
    return u.Quantity(t['clocking_angle']).to(u.rad).value


def facets(rng, lay, nf=2, jitter=2e-3, shuffle=True):
    '''``nf`` facets in the converging beam behind each SPO of a petal.'''
    rows = []
    num = int(rng.integers(0, 5))
    for i, (row, ang) in enumerate(zip(lay, clocking(lay))):
        rm = (row['inner_radius'] + row['outer_radius']) / 2
        for j in range(nf):
            x = rm * np.sin(ang) + (j - (nf - 1) / 2) * 31
            y = rm * np.cos(ang)
            p = np.array([x, y, 12000.]) * (1 - rng.uniform(.011, .013))
            n = p / np.linalg.norm(p) + rng.normal(size=3) * jitter
            n = n + np.array([np.sin(np.deg2rad(1.8)), 0, 0])
            n /= np.linalg.norm(n)
            d = np.cross([jitter * rng.normal(), 1, 0], n)
            d /= np.linalg.norm(d)
            g = np.cross(n, d)
            rows.append((i + 1, num) + tuple(p) + tuple(n) + tuple(d) + tuple(g)
                        + (rng.uniform(20, 28.), rng.uniform(20, 28.5),
                           2e-4 * (1 + rng.normal() * 1e-2)))
            num += 1
    f = Table(rows=rows, names=['SPO_MM_num', 'facet_num']
              + [a + b for a in ['', 'NormN', 'DispN', 'GBarN'] for b in 'XYZ']
              + ['xsize', 'ysize', 'period'])
    f['period'].unit = u.mm
    if shuffle:
        # windows in any order and interleaved, facets of one window in ascending order
        key = rng.random(len(f))
        for i in set(f['SPO_MM_num']):
            ind = (f['SPO_MM_num'] == i).nonzero()[0]
            key[ind] = np.sort(key[ind])
        f = f[np.argsort(key)]
    return f


def curve(rng, lo=.05, hi=13., n=None, spectral=True):
    '''Throughput curve: energy (or wavelength) column and throughput column'''
    n = n or int(rng.integers(3, 60))
    e = np.concatenate([[lo], np.sort(rng.uniform(lo, hi, n)), [hi]])
    v = rng.uniform(.05, 1, len(e))
    q = e * u.keV
    unit = ['keV', 'eV', 'nm', 'Angstrom'][rng.integers(4)] if spectral else 'keV'
    q = q.to(u.Unit(unit), equivalencies=u.spectral())
    order = rng.permutation(len(e)) if rng.random() < .5 else np.argsort(q.value)
    t = Table([q[order], v[order]], names=['energy', ['transmission', 'qe'][rng.integers(2)]])
    if rng.random() < .3:
        t['comment'] = ['x'] * len(t)
    return t, e, v


def efficiency(rng):
    w = np.linspace(.05, 14, 30)
    th = np.linspace(0, 4, 9)
    W, T = np.meshgrid(w, th, indexing='ij')
    cols = [W.ravel() * u.nm, T.ravel() * u.deg]
    for o in ORDERS:
        cols.append(np.ravel(.6 / len(ORDERS) * (1. + .5 * np.sin(o + W + T))))
    return Table(cols, names=['wave', 'theta'] + [str(o) for o in ORDERS])


def reflectivity(rng):
    en = np.linspace(.05, 14, 40)
    an = np.linspace(0, 3, 25)
    E, A = np.meshgrid(en, an, indexing='ij')
    R = .95 * np.exp(-E * A / 15)
    return Table([E.ravel() * u.keV, A.ravel() * u.deg, R.ravel()],
                 names=['energy', 'angle', 'refl'])


def mirr_grat(rng, n=40):
    w = np.sort(rng.uniform(1, 120, n))
    return QTable([w * u.Angstrom] + [rng.uniform(0, 100, n) * u.cm**2 for o in ORDERS],
                  names=['wave'] + [str(o) for o in ORDERS])


def make(root, rng, n_r=2, n_az=3, nf=2):
    '''Write everything the Arcus model reads, return what was written.'''
    out = {}
    out['layout'] = layout(rng, n_r, n_az)
    write(root, 'spos', 'petallayout.csv', out['layout'])
    out['reflectivity'] = reflectivity(rng)
    write(root, 'spos', 'coated_reflectivity.csv', out['reflectivity'])
    out['efficiency'] = efficiency(rng)
    write(root, 'gratings', 'efficiency.csv', out['efficiency'])
    os.makedirs(os.path.join(root, 'detectors', 'ccd_2021'), exist_ok=True)
    e = np.linspace(.1, 3, 20)
    out['fwhm'] = (e, 50 + 30 * e + rng.uniform(0, 5, 20))
    with open(os.path.join(root, 'detectors', 'ccd_2021', 'arcus_ccd_rmf_20210211.txt'), 'w') as f:
        for a, b in zip(*out['fwhm']):
            f.write(f'{a} {b}\n')
    out['facets'] = facets(rng, out['layout'], nf)
    write(root, 'gratings', 'facets.csv', out['facets'])
    for d, n in SPOS:
        out[n] = rng.uniform(.7, .95)
        write(root, d, n + '.csv', Table([[out[n]]], names=['transmission']))
    for d, n in [('spos', 'lossterm')] + CURVES:
        t, e, v = curve(rng)
        out[n] = (e, v)
        write(root, d, n + '.csv', t)
    out['jitter'] = rng.uniform(.5, 5)
    write(root, 'other', 'pointingjitter.csv', Table([[out['jitter']] * u.arcsec], names=['FWHM']))
    out['aeff'] = mirr_grat(rng)
    write(root, 'aeff', 'mirr_grat.tab', out['aeff'])
    return out


def commit(root):
    '''Put the database under version control; returns abbreviated hash and date'''
    env = dict(os.environ, GIT_CONFIG_NOSYSTEM='1', GIT_CONFIG_GLOBAL='/dev/null',
               GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b.c', GIT_COMMITTER_NAME='a',
               GIT_COMMITTER_EMAIL='a@b.c', GIT_AUTHOR_DATE='2020-02-03T04:05:06 +0000',
               GIT_COMMITTER_DATE='2021-03-04T05:06:07 +0000')

    def git(*a):
        return subprocess.run(['git', *a], cwd=root, env=env, check=True,
                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode()
    try:
        git('init', '-q')
        git('add', '-A')
        git('commit', '-q', '-m', 'calibration')
        return git('rev-parse', 'HEAD').strip()
    except Exception:
        return None
