'''C42: the Arcus model and its response files follow the calibration database.

The database itself is not part of the repository, so a synthetic one is generated; see
vt/caldb.py.
'''
import copy
import os
import string
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.table import Table, QTable

from vt import caldb, instrument
from vt.core import sub, ensure, close, same, raises, trivial, label, known_finding
from vt.gen import rng_of, seeds, make_pos4d, photon_table, rand_rot, h

ROOT = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
CAL0 = os.path.join(ROOT, 'cal')
DATA0 = caldb.make(CAL0, np.random.default_rng(20231), n_r=2, n_az=3, nf=2)
HASH = caldb.commit(CAL0)
with open(os.path.join(ROOT, 'arcus.cfg'), 'w') as f:
    f.write(f'[data]\ncaldb_inputdata = {CAL0}\n')

_cwd, _home = os.getcwd(), os.environ.get('HOME')
os.chdir(ROOT)
os.environ['HOME'] = ROOT     # do not read the configuration of the user
try:
    from marxs.missions.arcus import arcus, arfrmf, analyze_grid, defaults, ralfgrating, load_csv
    from marxs.missions.arcus import spo as aspo
    from marxs.missions.arcus.utils import config, id_num_offset, tagversion
    from marxs.missions.AXIS import AXIS
finally:
    os.chdir(_cwd)
    if _home is None:
        del os.environ['HOME']
    else:
        os.environ['HOME'] = _home

from marxs import optics
from marxs.base import MarxsElement
from marxs.design import rowland, tolerancing as tol
from marxs.math.geometry import Cylinder
from marxs.math.utils import xyz2zxy
from marxs.missions.athena.spo import SPOChannelMirror, ScatterPerChannel, spogeom2pos4d
from marxs.missions.mitsnl.catgrating import CATL1L2Stack, NonParallelCATGrating
from marxs.optics import CATGrating
from marxs.reduction import ogip
from marxs.simulator import Sequence, KeepCol
from marxs.source import PointSource, FixedPointing, JitterPointing

OFFSET = {'1': 0, '2': 1000, '1m': 10000, '2m': 11000}
CHANNELS = ['1', '1m', '2', '2m']
HC = 12.398419843320026     # keV Angstrom


class Database:
    '''A database of its own for one example'''
    def __enter__(self):
        self.dir = tempfile.TemporaryDirectory(dir=ROOT)
        self.path = self.dir.name
        self.old = config['data']['caldb_inputdata']
        config['data']['caldb_inputdata'] = self.path
        return self

    def __exit__(self, *args):
        config['data']['caldb_inputdata'] = self.old
        self.dir.cleanup()


def refl(e, ang, grid):
    assert grid is False
    return .9 * np.exp(-np.asarray(e) * np.asarray(ang) * 3)


def make_conf(rng, lay, scatter=False):
    '''Arcus with other dimensions and offsets of channels'''
    conf = rowland.double_rowland_from_channel_distance(rng.uniform(600, 900.),
                                                        rng.uniform(5500, 6200.),
                                                        12000. - rng.uniform(100, 140))
    offs = {c: [0, rng.uniform(-8, 8), rng.uniform(-8, 8)] for c in CHANNELS}
    rowland.add_offset_double_rowland_channels(conf, offs)
    for k, v in conf.items():
        if isinstance(v, rowland.RowlandTorus):
            v.pos4d = xyz2zxy @ v.pos4d
    for k, v in conf['pos_opt_ax'].items():
        conf['pos_opt_ax'][k] = xyz2zxy @ v
    expect = {c: np.array([offs[c][1] + (1 if 'm' in c else -1) * conf['d'], offs[c][2], 0, 1])
              for c in CHANNELS}
    for k in ['blazeang', 'n_CCDs', 'phi_det_start', 'det_kwargs', 'gratinggrid',
              'alignmentbudget', 'ccdredist']:
        conf[k] = copy.deepcopy(arcus.defaultconf[k])
    conf['inplanescatter'] = (rng.uniform(1, 40) if scatter else 0) * u.arcsec
    conf['perpplanescatter'] = (rng.uniform(1, 10) if scatter else 0) * u.arcsec
    lay = lay.copy()
    lay['r_mid'] = (lay['outer_radius'] + lay['inner_radius']) / 2
    conf['spo_geom'] = lay
    conf['spo_pos4d'] = [xyz2zxy @ p for p in spogeom2pos4d(lay)]
    conf['reflectivity_interpolator'] = refl
    return conf, expect


def spo_center(lay, i, chan):
    '''relative to the optical axis of a channel'''
    r = (lay['inner_radius'][i] + lay['outer_radius'][i]) / 2
    a = caldb.clocking(lay)[i]
    s = -1 if '2' in chan else 1
    return s * np.array([r * np.sin(a), r * np.cos(a), 0])


def pick_channels(rng):
    return [CHANNELS[i] for i in rng.permutation(4)[:rng.integers(1, 5)]]


def mids(x):
    return .5 * (x[1:] + x[:-1])


# --------------------------------------------------------------------------------------
@sub('C42', dict(seed=seeds, n_r=st.integers(1, 3), n_az=st.integers(1, 4)), quick=25, thorough=1500)
def apertures_cover_their_channel(seed, n_r, n_az):
    '''One rectangle per channel, in front of the modules of the channel'''
    rng = rng_of(seed)
    lay = caldb.layout(rng, n_r, n_az)
    conf, axis = make_conf(rng, lay)
    chans = pick_channels(rng)
    given = list(chans)
    before = {k: v.copy() for k, v in conf['pos_opt_ax'].items()}
    a = arcus.Aperture(conf, chans) if rng.random() < .5 else arcus.Aperture(conf, channels=chans)
    ensure(chans == given, 'list of channels was modified')
    for c in CHANNELS:
        same(before[c], conf['pos_opt_ax'][c], 'optical axis in the configuration was modified')
        close(conf['pos_opt_ax'][c], axis[c], 'position of the optical axis')
    ensure(len(a.elements) == len(chans), 'one aperture per channel')
    area = 0
    for c, e in zip(chans, a.elements):
        cen = np.array([spo_center(lay, i, c) for i in range(len(lay))])
        daz = lay['azwidth'].max()
        dr = (lay['outer_radius'] - lay['inner_radius']).max()
        xl = np.abs(cen[:, 0]).max() + 1.1 * daz
        ylo, yhi = cen[:, 1].min() - .8 * dr, cen[:, 1].max() + .8 * dr
        p = e.pos4d
        close(p[:3, 3], [axis[c][0], axis[c][1] + (ylo + yhi) / 2, 12200], 'center of the aperture',
              atol=1e-6)
        corners = np.array([p @ [0, s, t, 1] for s in [-1, 1] for t in [-1, 1]])[:, :3]
        close(corners.min(axis=0) - [axis[c][0], axis[c][1], 12200], [-xl, ylo, 0],
              'edges of the aperture', atol=1e-6)
        close(corners.max(axis=0) - [axis[c][0], axis[c][1], 12200], [xl, yhi, 0],
              'edges of the aperture', atol=1e-6)
        area += 2 * xl * (yhi - ylo)
    close(a.area.to(u.mm**2).value, area, 'area of the apertures')
    # photons enter only in front of the modules of these channels
    n = 200
    ph = photon_table(rng, rng.normal(size=(n, 3)), np.tile([0, 0, -1.], (n, 1)))
    ph.remove_column('pos')
    ph = a(ph)
    num = np.asarray(ph['aperture'])
    ensure(np.all((num >= 0) & (num < len(chans))), 'number of the aperture', got=num)
    for k, (c, e) in enumerate(zip(chans, a.elements)):
        i = num == k
        loc = (np.linalg.inv(e.pos4d) @ np.asarray(ph['pos'])[i].T).T
        ensure(np.all(np.abs(loc[:, 1:3]) <= 1 + 1e-9) and np.all(np.abs(loc[:, 0]) < 1e-6),
               'photons enter through the aperture they are labelled with')
    with raises(Exception, 'a channel that does not exist is refused'):
        arcus.Aperture(conf, ['1', '3'])


# --------------------------------------------------------------------------------------
@sub('C42', dict(seed=seeds, n_r=st.integers(1, 3), n_az=st.integers(1, 4)), quick=25, thorough=1200)
def mirrors_focus_each_channel_on_its_axis(seed, n_r, n_az):
    rng = rng_of(seed)
    with Database() as db:
        lay = caldb.layout(rng, n_r, n_az)
        tput = []
        for d, n in caldb.SPOS:
            tput.append(rng.uniform(.3, 1))
            caldb.write(db.path, d, n + '.csv', Table([[tput[-1]]], names=['transmission']))
        t, e, v = caldb.curve(rng)
        caldb.write(db.path, 'spos', 'lossterm.csv', t)
        conf, axis = make_conf(rng, lay)
        chans = pick_channels(rng)
        spos = arcus.SimpleSPOs(conf, chans)
        # photons aimed at points of modules of all channels
        n = 120
        chan = rng.integers(0, 4, n)
        mod = rng.integers(0, len(lay), n)
        loc = rng.uniform(-1.15, 1.15, (n, 2))
        loc = np.where(np.abs(np.abs(loc) - 1) < 1e-3, 0, loc)
        target = np.empty((n, 3))
        for k in range(n):
            a = caldb.clocking(lay)[mod[k]]
            c = CHANNELS[chan[k]]
            er = spo_center(lay, mod[k], c)
            er /= np.linalg.norm(er)
            eaz = np.array([-er[1], er[0], 0])
            target[k] = (axis[c][:3] + [0, 0, 12000] + spo_center(lay, mod[k], c)
                         + eaz * loc[k, 0] * lay['azwidth'][mod[k]] / 2
                         + er * loc[k, 1] * (lay['outer_radius'] - lay['inner_radius'])[mod[k]] / 2)
        tilt = rng.normal(size=(n, 3)) * rng.choice([0, 1e-4])
        dirs = np.array([0, 0, -1.]) + tilt
        dirs /= np.linalg.norm(dirs, axis=1)[:, None]
        en = rng.uniform(.06, 12.9, n)
        ph = photon_table(rng, target - dirs * 200, dirs, energy=en)
        p0 = np.array(ph['probability'])
        ph = spos(ph)
        hit = np.all(np.abs(loc) < 1, axis=1) & np.isin(chan, [CHANNELS.index(c) for c in chans])
        # modules of one petal do not overlap but a point outside one can be in another one
        sure = hit | ~other_module(lay, axis, chans, target)
        xou = np.asarray(ph['xou'])
        expect = np.array([OFFSET[CHANNELS[c]] + m for c, m in zip(chan, mod)])
        same(xou[hit], expect[hit], 'id of the mirror module')
        same(xou[sure & ~hit], np.full((sure & ~hit).sum(), -1), 'photon that misses all modules')
        close(np.asarray(ph['probability'])[sure & ~hit], 0 * p0[sure & ~hit],
              'photon that hits the petal')
        label('photons that miss', (sure & ~hit).any())
        trivial(not hit.any())
        k = hit
        d = np.asarray(ph['dir'])[k, :3]
        pos = np.asarray(ph['pos'])[k, :3]
        close(pos, target[k], 'photons are on the module', atol=1e-5)
        # central ray is not bent: p_opt + f * dir
        foc = np.array([axis[CHANNELS[c]][:3] + [0, 0, 12000] for c in chan])[k] + 12000 * dirs[k]
        close(pos + d * np.linalg.norm(foc - pos, axis=1)[:, None], foc, 'rays go to the focus',
              atol=1e-5, rtol=0)
        bend = 2 * np.arcsin(np.clip(np.linalg.norm(d - dirs[k], axis=1) / 2, 0, 1))
        prob = (p0[k] * refl(en[k], bend / 4, False)**2 * tput[0] * tput[1]
                * np.interp(en[k], e, v))
        close(np.asarray(ph['probability'])[k], prob, 'throughput of the mirrors', rtol=1e-6,
              atol=1e-12)


def other_module(lay, axis, chans, target):
    '''Is the point on (or very close to) any module of the given channels?'''
    out = np.zeros(len(target), dtype=bool)
    for c in chans:
        for i in range(len(lay)):
            cen = spo_center(lay, i, c)
            er = cen / np.linalg.norm(cen)
            eaz = np.array([-er[1], er[0], 0])
            rel = target - axis[c][:3] - [0, 0, 12000] - cen
            out |= ((np.abs(rel @ eaz) < lay['azwidth'][i] / 2 + .05)
                    & (np.abs(rel @ er) < (lay['outer_radius'] - lay['inner_radius'])[i] / 2 + .05))
    return out


@sub('C42', dict(seed=seeds), quick=20, thorough=800)
def every_channel_is_scattered_once(seed):
    '''Scattering acts on all channels with the widths set'''
    rng = rng_of(seed)
    with Database() as db:
        lay = caldb.layout(rng, 2, 3)
        for d, n in caldb.SPOS:
            caldb.write(db.path, d, n + '.csv', Table([[1.]], names=['transmission']))
        caldb.write(db.path, 'spos', 'lossterm.csv', Table([[.01, 20.] * u.keV, [1., 1]],
                                                           names=['energy', 'x']))
        conf, axis = make_conf(rng, lay)
        sig = 10**rng.uniform(-6, -4, 2)
        conf['inplanescatter'] = sig[0] * u.rad if rng.random() < .5 else np.rad2deg(sig[0]) * u.deg
        conf['perpplanescatter'] = (sig[1] * u.rad).to(u.arcsec)
        chans = pick_channels(rng)
        spos = arcus.SimpleSPOs(conf, chans)
        n = 400
        chan = rng.integers(0, len(chans), n)
        mod = rng.integers(0, len(lay), n)
        target = np.array([axis[chans[c]][:3] + [0, 0, 12000] + spo_center(lay, m, chans[c])
                           for c, m in zip(chan, mod)])
        target[:, :2] += rng.uniform(-5, 5, (n, 2))
        dirs = np.tile([0, 0, -1.], (n, 1))
        ph = photon_table(rng, target + [0, 0, 50], dirs, prob=np.ones(n))
        np.random.seed(rng.integers(2**31))
        ph = spos(ph)
        ensure(np.all(np.asarray(ph['xou']) >= 0), 'photons hit modules')
        d = np.asarray(ph['dir'])[:, :3]
        foc = np.array([axis[chans[c]][:3] for c in chan])
        un = foc - target
        un /= np.linalg.norm(un, axis=1)[:, None]
        dev = d - un
        # in plane of reflection / perpendicular to it
        rad = target - foc
        rad[:, 2] = 0
        rad /= np.linalg.norm(rad, axis=1)[:, None]
        perp = np.cross(un, rad)
        perp /= np.linalg.norm(perp, axis=1)[:, None]
        inp = np.cross(perp, un)
        for name, vec, s in [('in plane', inp, sig[0]), ('perpendicular', perp, sig[1])]:
            x = np.sum(dev * vec, axis=1) / s
            for c in range(len(chans)):
                y = x[chan == c]
                if len(y) < 60:
                    continue
                # sum of y**2 is distributed as chi**2; 1e-12 quantiles
                from scipy.stats import chi2
                ss = np.sum(y**2)
                ensure(chi2.ppf(1e-12, len(y)) < ss < chi2.isf(1e-12, len(y)),
                       f'width of {name} scattering of channel {chans[c]}',
                       rms=np.sqrt(ss / len(y)), n=len(y))
        close(np.linalg.norm(d, axis=1), np.ones(n), 'directions stay normalised')


# --------------------------------------------------------------------------------------
def facet_pos4d(row, chan, axis):
    m = np.eye(4)
    for k, nam in enumerate(['NormN', 'DispN', 'GBarN']):
        m[:3, k] = [row[nam + 'X'], row[nam + 'Y'], row[nam + 'Z']]
    m[:3, 1] *= row['xsize'] / 2
    m[:3, 2] *= row['ysize'] / 2
    m[:3, 3] = [row['X'], row['Y'], row['Z']]
    mirr = np.diag([1 if 'm' in chan else -1, -1 if '2' in chan else 1, 1, 1.])
    s = np.eye(4)
    s[:3, 3] = axis[chan][:3]
    return s @ mirr @ m


@sub('C42', dict(seed=seeds, nf=st.integers(1, 3)), quick=15, thorough=600)
def gratings_where_tabulated(seed, nf):
    '''All facets of all channels: position, size, period, id, and photons that go through them'''
    rng = rng_of(seed)
    with Database() as db:
        lay = caldb.layout(rng, int(rng.integers(1, 3)), int(rng.integers(1, 4)))
        tab = caldb.facets(rng, lay, nf)
        caldb.write(db.path, 'gratings', 'facets.csv', tab)
        conf, axis = make_conf(rng, lay)
        chans = pick_channels(rng)
        cat = arcus.CATGratings(conf, chans)
        conts = cat.elements_of_class(arcus.CATfromMechanical)
        ensure(len(conts) == len(chans), 'one petal of gratings per channel')
        where = {}
        move = np.eye(4)
        moved = rng.random() < .3
        if moved:
            move = make_pos4d(rng.normal(size=3) * 20, rand_rot(rng), 1.)
        for c, cont in zip(chans, conts):
            if moved:
                cont.geometry.pos4d = move @ cont.geometry.pos4d
                cont.generate_elements()
            ensure(len(cont.elements) == len(set(tab['SPO_MM_num'])), 'one window per module')
            for win in cont.elements:
                for e in win.elements:
                    where[c, e.id_num] = e
                    ensure(isinstance(e, CATL1L2Stack), 'facets are CAT gratings')
            ensure(len(where) and len([k for k in where if k[0] == c]) == len(tab),
                   'number of facets')
            for row in tab:
                i = OFFSET[c] + row['facet_num']
                ensure((c, i) in where, 'facets are numbered as tabulated', chan=c,
                       num=row['facet_num'], ids=sorted(k[1] for k in where if k[0] == c))
                e = where[c, i]
                close(e.pos4d, move @ facet_pos4d(row, c, axis), 'position of a facet', atol=1e-8,
                      rtol=1e-9, facet=i)
                g = [x for x in e.elements if type(x) is not type(None) and isinstance(x, CATGrating)]
                d = g[0]._d
                close(d, row['period'], 'period of the facet')
                ensure(g[0].order_selector is conf['gratinggrid']['elem_args']['order_selector'],
                       'efficiencies from the configuration')
        label('moved', moved)
        # petals and windows turn about their own centers
        for c, cont in zip(chans, conts):
            cen = np.mean([(move @ facet_pos4d(row, c, axis))[:3, 3] for row in tab], axis=0)
            close(cont.pos4d[:3, 3], cen, 'center of a petal', atol=1e-7, rtol=1e-9)
            for i, win in zip(sorted(set(tab['SPO_MM_num'])), cont.elements):
                cen = np.mean([(move @ facet_pos4d(row, c, axis))[:3, 3] for row in tab if row['SPO_MM_num'] == i], axis=0)
                close(win.pos4d[:3, 3], cen, 'center of a window', atol=1e-7, rtol=1e-9)
        # rays from behind through points on facets
        n = 60
        en = rng.uniform(.2, 1.2, n)
        pos = np.empty((n, 3))
        dirs = np.empty((n, 3))
        exp = np.empty(n, dtype=int)
        period = np.empty(n)
        frames = []
        for k in range(n):
            c = chans[rng.integers(len(chans))]
            row = tab[rng.integers(len(tab))]
            m = move @ facet_pos4d(row, c, axis)
            p = (m @ np.array([0, *rng.uniform(-.99, .99, 2), 1]))[:3]
            t = (move @ axis[c])[:3] - p
            dirs[k] = t / np.linalg.norm(t)
            pos[k] = p - dirs[k] * 20
            exp[k] = OFFSET[c] + row['facet_num']
            period[k] = row['period']
            frames.append(m)
        ph = photon_table(rng, pos, dirs, energy=en, prob=np.ones(n))
        np.random.seed(rng.integers(2**31))
        ph = cat(ph)
        fac = np.asarray(ph['facet'])
        # facets of neighboring channels or windows can overlap: the first or last one counts
        one = np.array([in_facets(where, pos[k], dirs[k], exp[k]) == [exp[k]] for k in range(n)])
        same(fac[one], exp[one], 'facet the photon went through')
        trivial(not one.any())
        # grating equation in the frame of the facet, photons without cross-dispersion
        k = one & (np.asarray(ph['order_L1']) == 0)
        F = np.array(frames)[k]
        ey = F[:, :3, 1] / np.linalg.norm(F[:, :3, 1], axis=1)[:, None]
        ez = F[:, :3, 2] / np.linalg.norm(F[:, :3, 2], axis=1)[:, None]
        d1 = np.asarray(ph['dir'])[k, :3]
        change = d1 - dirs[k]
        m = np.asarray(ph['order'])[k]
        lam = HC * 1e-7 / en[k]
        along = np.sum(change * ey, axis=1)
        # L2 scattering of a few arcsec in both directions
        close(np.abs(along), np.abs(m) * lam / period[k], 'dispersion', rtol=0, atol=3e-5)
        close(np.sum(change * ez, axis=1), 0 * along, 'no dispersion along the bars', rtol=0,
              atol=3e-5)


def in_facets(where, p, d, expected):
    '''Facets that the ray might hit after it is diffracted in another one'''
    out = []
    e = [e for (c, i), e in where.items() if i == expected][0]
    m = np.linalg.inv(e.pos4d)
    t0 = -(m @ np.array([*p, 1]))[0] / (m @ np.array([*d, 0]))[0]
    for (c, i), e in where.items():
        m = np.linalg.inv(e.pos4d)
        q = (m @ np.array([*p, 1]))
        v = (m @ np.array([*d, 0]))
        t = -q[0] / v[0]
        x = q + t * v
        if t > 0 and np.all(np.abs(x[1:3]) < 1.001 + .05 * abs(t - t0)):
            out.append(i)
    return out


# --------------------------------------------------------------------------------------
@sub('C42', dict(seed=seeds), quick=40, thorough=2000)
def filters_multiply(seed):
    '''Filters, contamination and quantum efficiency'''
    rng = rng_of(seed)
    with Database() as db:
        curves = []
        wide = rng.random() < .5
        for d, n in caldb.CURVES:
            lo, hi = (.05, 13.) if wide else (rng.uniform(.05, .3), rng.uniform(5, 13))
            t, e, v = caldb.curve(rng, lo, hi)
            caldb.write(db.path, d, n + '.csv', t)
            curves.append((e, v))
        lo = max(e[0] for e, v in curves)
        hi = min(e[-1] for e, v in curves)
        n = 50
        en = rng.uniform(lo + 1e-6, hi - 1e-6, n)
        out = rng.random() < .5
        fill = rng.choice([0., .25])
        kw = {}
        if out:
            en[:10] = rng.uniform(.01, 15, 10)
            kw = {'kwargs_interp1d': {'bounds_error': False, 'fill_value': fill}}
        expect = np.ones(n)
        for e, v in curves:
            x = np.interp(en, e, v)
            x[(en < e[0]) | (en > e[-1])] = fill
            expect *= x
        label('outside of the tabulated range', out)
        kwin = copy.deepcopy(kw)
        f = arcus.FiltersAndQE(**kw)
        q = arfrmf.FiltersQE(**kw)
        ensure(kw == kwin, 'settings were modified')
        ph = photon_table(rng, rng.normal(size=(n, 3)), rng.normal(size=(n, 3)), energy=en)
        p0 = np.array(ph['probability'])
        d0 = np.array(ph['dir'])
        ph = f(ph)
        close(ph['probability'], p0 * expect, 'throughput of filters and detector', rtol=1e-7)
        same(ph['dir'], d0, 'filters do not change directions')
        arg = en * u.keV if rng.random() < .7 else (en * 1e3 * u.eV).to(u.keV)
        close(np.asarray(q(arg)), expect, 'throughput for response files', rtol=1e-7)
        if not out and not wide:
            ph = photon_table(rng, rng.normal(size=(2, 3)), rng.normal(size=(2, 3)),
                              energy=[(lo + hi) / 2, rng.choice([lo - .01, hi + .01])])
            with raises(Exception, 'energy outside of the tables is refused by default'):
                f(ph)


# --------------------------------------------------------------------------------------
def camera_conf(rng):
    conf, axis = make_conf(rng, caldb.layout(rng, 1, 1))
    conf['phi_det_start'] = rng.uniform(.01, .04)
    z = conf['det_kwargs']['elem_args']['zoom']
    if rng.random() < .5:
        conf['det_kwargs']['elem_args']['zoom'] = [1, rng.uniform(10, 28), rng.uniform(8, 20)]
    return conf, axis


@sub('C42', dict(seed=seeds), quick=25, thorough=1000)
def camera_follows_the_rowland_circle(seed):
    rng = rng_of(seed)
    conf, axis = camera_conf(rng)

    class Cam(arcus.DetCamera):
        pass
    if rng.random() < .5:
        Cam.d_ccd = rng.uniform(.5, 4)
        Cam.d_fsupport = rng.uniform(4, 8)
        s = rng.uniform(-8, 8)
        Cam.offset = [-s, s]
    before = copy.deepcopy(conf['det_kwargs'])
    cam = Cam(conf)
    ensure(before.keys() == conf['det_kwargs'].keys(), 'configuration modified')
    ensure(len(cam.elements) == 16, 'number of CCDs')
    tor = conf['rowland_detector']
    r = tor.r
    # circle through the focal plane: center (0, 0, zc) in the x-z plane
    zc = np.sqrt(r**2 - conf['d']**2)
    half = conf['det_kwargs']['elem_args']['zoom'][1]
    cen = np.array([e.geometry['center'][:3] for e in cam.elements])
    close(cen[:, 1], np.zeros(16), 'CCDs are in the dispersion plane', atol=1e-6)
    close(np.hypot(cen[:, 0], cen[:, 2] - zc), np.full(16, r), 'CCDs are on the Rowland circle',
          rtol=1e-7)
    ang = np.arctan2(cen[:, 0], zc - cen[:, 2])
    ensure(np.all(np.diff(ang) > 0), 'numbers increase with x', ang=ang)
    gaps = np.diff(ang) * r - 2 * half
    for strip in [gaps[:7], gaps[8:]]:
        close(np.sort(strip), sorted([Cam.d_ccd] * 5 + [Cam.d_fsupport] * 2), 'gaps between CCDs',
              atol=1e-6)
    close(gaps[8:], gaps[:7][::-1], 'both strips have the same pattern', atol=1e-6)
    # innermost edges: phi_det_start from the center, both strips moved in the same direction
    inner = np.array([ang[7] * r + half, ang[8] * r - half])
    close(inner, np.array([-1, 1]) * conf['phi_det_start'] * r - np.array(
        [-Cam.offset[0], Cam.offset[1]]), 'inner edges of the strips', atol=1e-6)
    for k, e in enumerate(cam.elements):
        ensure(e.id_num == k + 1, 'CCDs are counted from 1', got=e.id_num)
        ensure(e.display['color'] == 'orange', 'color of CCDs', got=e.display['color'])
        nrm = np.asarray(e.geometry['plane'] if 'plane' in getattr(e.geometry, '_geometry', {})
                         else e.geometry['e_x'])[:3]
        to = np.array([0, 0, zc]) - cen[k]
        close(abs(nrm @ to) / np.linalg.norm(to) / np.linalg.norm(nrm), 1, 'CCD is tangential')
    ensure(optics.FlatDetector.display.get('color') != 'orange', 'other detectors keep their color')
    # photons
    n = 100
    k = rng.integers(0, 16, n)
    loc = rng.uniform(-.99, .99, (n, 2))
    tang = np.array([zc - cen[k, 2], 0 * ang[k], cen[k, 0]]).T / r
    width = conf['det_kwargs']['elem_args']['zoom'][2]
    target = cen[k] + tang * (loc[:, 0] * half)[:, None] + np.outer(loc[:, 1] * width, [0, 1, 0])
    dirs = np.array([0, 0, -1.]) + rng.normal(size=(n, 3)) * .02
    ph = cam(photon_table(rng, target - dirs * 300, dirs))
    same(np.asarray(ph['CCD']), k + 1, 'number of the CCD')
    sx = np.sign(np.asarray(ph['det_x'])) * np.sign(loc[:, 0])
    sy = np.sign(np.asarray(ph['det_y'])) * np.sign(loc[:, 1])
    same(sx, np.full(n, sx[0]), 'all CCDs are oriented in the same direction')
    same(sy, np.full(n, sy[0]), 'all CCDs are oriented in the same direction')
    if sx[0] < 0:
        known_finding('det_x on the CCDs of Arcus decreases with increasing x')
    close(np.abs(ph['det_x']), np.abs(loc[:, 0]) * half, 'position on the CCD', atol=1e-6)
    close(np.abs(ph['det_y']), np.abs(loc[:, 1]) * width, 'position on the CCD', atol=1e-6)
    # pixels: linear, increasing
    o = np.argsort(np.asarray(ph['det_x']))
    px = np.asarray(ph['detpix_x'])[o]
    ensure(np.all(np.diff(px) >= 0), 'pixels increase with det_x')
    close(np.diff(px), np.diff(np.asarray(ph['det_x'])[o]) / .024, 'pixel scale', atol=1e-6)


@sub('C42', dict(seed=seeds), quick=20, thorough=800)
def chip_gaps_are_where_the_chips_are(seed):
    '''OnCCD says what a ray of that order and wavelength through the camera does'''
    rng = rng_of(seed)
    with Database() as db:
        conf, axis = camera_conf(rng)
        lay = caldb.layout(rng, 1, 2)
        tab = caldb.facets(rng, lay, 2)
        if rng.random() < .3:
            tab['period'] = (tab['period'].data * 1e6)
            tab['period'].unit = u.nm
        caldb.write(db.path, 'gratings', 'facets.csv', tab)
        conf['blazeang'] = rng.uniform(0, 3)
        on = arfrmf.OnCCD(conf)
        cam = arcus.DetCamera(conf)
        d = np.mean(u.Quantity(tab['period']).to(u.AA).value) * np.cos(np.deg2rad(conf['blazeang']))
        c = CHANNELS[rng.integers(4)]
        m = int(rng.integers(-9, 4))
        n = 300
        # wavelengths that end up somewhere close to the camera
        lam = rng.uniform(5, min(180., 1900 / max(1, abs(m))), n)
        if rng.random() < .5:
            got = on(lam * u.AA, m, c)
        else:
            got = on((HC / lam) * u.keV, m, c)
        got = np.asarray(got)
        th = np.arcsin(m * lam / d)
        sgn = np.sign(axis[c][0])
        pos = np.tile([axis[c][0], 0, conf['f']], (n, 1))
        dirs = np.array([sgn * np.sin(th), 0 * th, -np.cos(th)]).T
        ph = cam(photon_table(rng, pos, dirs))
        if 'CCD' not in ph.colnames:      # no photon hits any CCD
            ensure(not got.any() or np.abs(m) * np.ptp(lam) / d < 1e-6, 'wavelength falls on a CCD',
                   order=m, chan=c, lam=lam[got])
            trivial()
            return
        exp = np.asarray(ph['CCD']) > 0
        # distance to the edges of CCDs
        x = np.asarray(ph['det_x'], dtype=float)
        half = conf['det_kwargs']['elem_args']['zoom'][1]
        edge = exp & (np.abs(np.abs(x) - half) < .01)
        miss = ~exp
        # for photons that miss: look at slightly different directions
        for eps in [-2e-6, 2e-6]:
            dirs2 = np.array([sgn * np.sin(th + eps), 0 * th, -np.cos(th + eps)]).T
            e2 = np.asarray(cam(photon_table(rng, pos, dirs2))['CCD']) > 0
            edge |= e2 != exp
        same(got[~edge], exp[~edge], 'wavelength falls on a CCD', order=m, chan=c)
        trivial(not (exp.any() and (~exp).any()))
        label('zeroth order', m == 0)
        # gaps are at the same m * lambda
        m2 = m - 1 if m < 0 else m + 1
        if m != 0:
            same(np.asarray(on(lam * m / m2 * u.AA, m2, c))[~edge], got[~edge],
                 'gaps are at fixed m * lambda')


# --------------------------------------------------------------------------------------
@sub('C42', dict(seed=seeds), quick=30, thorough=2000)
def effective_area_tables_are_interpolated(seed):
    rng = rng_of(seed)
    n = int(rng.integers(4, 30))
    w = np.sort(rng.uniform(1, 100, n)) + np.arange(n) * .1
    cols = {str(o): rng.uniform(-5, 50, n) for o in rng.choice(caldb.ORDERS, 3, replace=False)}
    unit = [u.cm**2, u.mm**2][rng.integers(2)]
    perm = rng.permutation(n)
    tab = QTable([w[perm] * u.AA] + [v[perm] * unit for v in cols.values()],
                 names=['wave'] + list(cols))
    before = tab.copy()
    kind = ['quadratic', 'linear', None][rng.integers(3)]
    mg = arfrmf.MirrGrat(tab) if kind is None else arfrmf.MirrGrat(tab, kind=kind)
    same(tab['wave'].value, before['wave'].value, 'input table modified')
    # another table, to be sure that they do not share anything
    arfrmf.MirrGrat(QTable([w * u.AA] + [w * u.m**2 for v in cols], names=tab.colnames))
    for o, v in cols.items():
        inner = slice(1, -1)
        got = mg(w[inner] * u.AA, int(o))
        close(got.to(unit).value, np.clip(v, 0, None)[inner], 'value at tabulated wavelength',
              rtol=1e-6, atol=1e-6)
        got = mg((HC / w[inner]) * u.keV, o)
        close(got.to(unit).value, np.clip(v, 0, None)[inner], 'value at tabulated energy',
              rtol=1e-5, atol=1e-5)
        x = rng.uniform(.1, 130, 40)
        got = mg(x * u.AA, int(o)).to(unit).value
        ensure(np.all(got >= 0), 'effective area is not negative')
        out = (x < w[0]) | (x > w[-1])
        close(got[out], 0 * got[out], 'outside of the table')
        if kind == 'linear':
            close(got[~out], np.clip(np.interp(x, w, v), 0, None)[~out], 'linear interpolation',
                  rtol=1e-7)
    with raises(Exception, 'order that is not tabulated'):
        mg(w * u.AA, 77)


@sub('C42', dict(seed=seeds), quick=20, thorough=600)
def arf_is_the_product(seed):
    rng = rng_of(seed)
    with Database() as db:
        lay = caldb.layout(rng, 1, 2)
        caldb.write(db.path, 'gratings', 'facets.csv', caldb.facets(rng, lay, 2))
        for d, n in caldb.CURVES:
            caldb.write(db.path, d, n + '.csv', caldb.curve(rng)[0])
        aeff = caldb.mirr_grat(rng)
        caldb.write(db.path, 'aeff', 'mirr_grat.tab', aeff)
        conf = arcus.defaultconf
        n = int(rng.integers(2, 60))
        lam = np.sort(rng.uniform(10, 60, n + 1))
        ediff = np.sort(HC / lam)
        edges = lam * u.AA if rng.random() < .5 else (HC / lam) * u.keV
        if rng.random() < .5:
            edges = edges[::-1]
        if rng.random() < .2:
            edges = edges.to(u.nm if edges.unit == u.AA else u.eV)
        before = edges.copy()
        o = int(rng.choice(caldb.ORDERS))
        chans = pick_channels(rng)
        kw = {}
        filt = arfrmf.FiltersQE(kwargs_interp1d={'bounds_error': False, 'fill_value': 0.})
        mg = arfrmf.MirrGrat(aeff)
        custom = rng.random()
        if custom < .3:
            filt = kw['trans_filters_qe'] = lambda e: np.exp(-e.to(u.keV).value)
        if custom < .2:
            mg = kw['mirr_grat'] = lambda e, o: (e.to(u.keV).value + o**2) * u.cm**2
        allch = rng.random() < .3
        if allch:
            chans = CHANNELS
        else:
            kw['channels'] = chans
        arf = arfrmf.mkarf(edges, o, **kw)
        same(edges.value, before.value, 'edges modified')
        ensure(len(arf) == n, 'number of bins', got=len(arf))
        close(u.Quantity(arf['ENERG_LO']).to(u.keV).value, ediff[:-1], 'ENERG_LO', rtol=1e-6)
        close(u.Quantity(arf['ENERG_HI']).to(u.keV).value, ediff[1:], 'ENERG_HI', rtol=1e-6)
        close(u.Quantity(arf['BIN_LO']).to(u.AA).value, HC / ediff[1:], 'BIN_LO', rtol=1e-6)
        close(u.Quantity(arf['BIN_HI']).to(u.AA).value, HC / ediff[:-1], 'BIN_HI', rtol=1e-6)
        mid = .5 * (u.Quantity(arf['ENERG_LO']) + u.Quantity(arf['ENERG_HI']))
        on = arfrmf.OnCCD(conf)
        num = sum(np.asarray(on(mid, o, c)).astype(int) for c in chans)
        close(np.asarray(arf['ONCCD']), num, 'number of channels on a CCD')
        close(u.Quantity(arf['MIRROR_GRAT']).to(u.cm**2).value, mg(mid, o).to(u.cm**2).value,
              'area of mirror and gratings', rtol=1e-7)
        close(np.asarray(arf['FILTERS_QE']), np.asarray(filt(mid)), 'filters', rtol=1e-7)
        close(u.Quantity(arf['SPECRESP']).to(u.cm**2).value,
              np.asarray(arf['ONCCD']) * np.asarray(arf['FILTERS_QE'])
              * u.Quantity(arf['MIRROR_GRAT']).to(u.cm**2).value, 'SPECRESP', rtol=1e-9)
        flag = ''.join('1' if c in chans else '0' for c in conf['pos_opt_ax'])
        ensure(arf.meta['ARCCHAN'] == flag, 'ARCCHAN', got=arf.meta['ARCCHAN'], expected=flag)
        ordm = arf.meta['ORDER']
        ensure(int(ordm[0] if isinstance(ordm, tuple) else ordm) == o, 'ORDER', got=ordm)
        label('chip gap', np.any(num < len(chans)) and np.any(num > 0))
        if rng.random() < .3:
            name = arfrmf.filename_from_meta('arf', **arf.meta)
            with tempfile.TemporaryDirectory(dir=ROOT) as tmp:
                arf.write(os.path.join(tmp, name))
                back = ogip.ARF.read(os.path.join(tmp, name))
                close(np.asarray(back['SPECRESP']), np.asarray(arf['SPECRESP']), 'saved ARF',
                      rtol=1e-6)
                ensure(back.meta['ARCCHAN'] == flag and int(back.meta['ORDER']) == o,
                       'header of saved ARF')
                n2 = arfrmf.filename_from_meta('arf', **back.meta)
                ensure(n2 == name, 'name from the header of a file', got=n2, expected=name)
        with raises(ValueError, 'channel that does not exist'):
            arfrmf.mkarf(edges, o, channels=['1', '4m'])


@sub('C42', dict(seed=seeds), quick=15, thorough=500)
def zeroth_order_rmf_is_gaussian(seed):
    rng = rng_of(seed)
    n = int(rng.integers(5, 120))
    lo = rng.uniform(.2, .6)
    e = np.sort(np.concatenate([[lo, lo + 1], rng.uniform(lo, lo + 1, n - 1)]))
    e = e[np.concatenate([[True], np.diff(e) > 1e-4])]
    n = len(e) - 1
    fe = np.sort(rng.uniform(.1, 2, 5))
    fw = rng.uniform(20, 200, 5)
    tab = QTable([fe * u.keV, fw * u.eV], names=['energy', 'FWHM'])
    edges = e * u.keV if rng.random() < .5 else ((HC / e) * u.AA)[::-1 if rng.random() < .5 else 1]
    thr = float(rng.choice([1e-6, 1e-4, 0]))
    rmf = arfrmf.mkrmf0(edges, ccdfwhm=tab, threshold=thr)
    eb = rmf.ebounds
    close(rmf.matrix.meta['LO_THRES'], thr, 'threshold in the header')
    close(u.Quantity(eb['E_MIN']).to(u.keV).value, e[:-1], 'E_MIN', rtol=1e-6)
    close(u.Quantity(eb['E_MAX']).to(u.keV).value, e[1:], 'E_MAX', rtol=1e-6)
    close(u.Quantity(rmf.matrix['ENERG_LO']).to(u.keV).value, e[:-1], 'ENERG_LO', rtol=1e-6)
    close(u.Quantity(rmf.matrix['ENERG_HI']).to(u.keV).value, e[1:], 'ENERG_HI', rtol=1e-6)
    same(tab['FWHM'].value, fw, 'table modified')
    for k in rng.integers(0, n, 8):
        mid = (e[k] + e[k + 1]) / 2
        s = np.interp(mid, fe, fw) / 1e3 / 2.354820045
        full = norm.cdf(e[1:], mid, s) - norm.cdf(e[:-1], mid, s)
        got = np.zeros(n)
        row = rmf.matrix[k]
        ensure(row['N_GRP'] == len(np.atleast_1d(row['F_CHAN'])), 'number of groups')
        i = 0
        for f, c in zip(np.atleast_1d(row['F_CHAN']), np.atleast_1d(row['N_CHAN'])):
            got[int(f):int(f) + int(c)] = np.atleast_1d(row['MATRIX'])[i:i + int(c)]
            i += int(c)
        ensure(np.all(np.abs(got - full) <= thr * 1.01 + 1e-6 * full + 1e-9), 'redistribution',
               got=got, expected=full, row=k)
        big = full > thr * 1.01 + 1e-9
        ensure(np.all(got[big] > 0), 'entries above the threshold are kept')


# --------------------------------------------------------------------------------------
@sub('C42', dict(seed=seeds), quick=40, thorough=3000)
def names_and_numbers(seed):
    '''File names tell files apart; numbers come with their units'''
    rng = rng_of(seed)
    seen = {}
    for i in range(30):
        meta = {'ARCCHAN': ''.join(rng.choice(['0', '1'], 4)), 'ORDER': int(rng.integers(-12, 13))}
        if rng.random() < .6:
            meta['TRUEORD'] = int(rng.integers(-12, 13))
            meta['CCDORDER'] = int(rng.integers(-12, 13))
        given = dict(meta)
        if rng.random() < .5:
            given = {k: v if k == 'ARCCHAN' else f'{v:+d}' for k, v in meta.items()}
        before = dict(given)
        name = arfrmf.filename_from_meta('arf', **given)
        ensure(given == before, 'arguments modified')
        key = (meta['ARCCHAN'],) + ((meta['ORDER'],) if 'TRUEORD' not in meta else
                                    (meta['TRUEORD'], meta['CCDORDER']))
        ensure(seen.setdefault(name, key) == key, 'two files with the same name', name=name, a=key,
               b=seen[name])
        ensure(name.startswith('chan_' + ('all' if meta['ARCCHAN'] == '1111' else meta['ARCCHAN'])
                               + '_') and name.endswith('.arf'), 'file name', name=name)
    with Database() as db:
        val = rng.normal() * 10.**rng.integers(-3, 4)
        unit = [None, u.mm, u.arcsec, u.keV][rng.integers(4)]
        tab = Table([[val], [1.]], names=['value', 'other'])
        if unit is not None:
            tab['value'].unit = unit
        caldb.write(db.path, 'sub', 'num.csv', tab)
        got = load_csv.load_number('sub', 'num', 'value')
        if unit is None:
            ensure(not isinstance(got, u.Quantity), 'number without unit')
            close(got, val, 'number')
        else:
            ensure(isinstance(got, u.Quantity) and got.unit == unit, 'number with unit', got=got)
            close(got.value, val, 'number')
        n = int(rng.choice([0, 2, 3]))
        caldb.write(db.path, 'sub', 'many.csv', Table([rng.normal(size=n)], names=['value']))
        with raises(load_csv.DataFileFormatException, 'table that does not have one row'):
            load_csv.load_number('sub', 'many', 'value')
        t = load_csv.load_table('sub', 'many')
        ensure(len(t) == n and t.colnames == ['value'], 'table')


@sub('C42', dict(seed=seeds), quick=30, thorough=1500)
def default_source_and_pointing(seed):
    '''Defaults are used unless given; on-axis photons come down the z-axis'''
    rng = rng_of(seed)
    with Database() as db:
        fwhm = 10**rng.uniform(-1, 2)
        unit = [u.arcsec, u.deg, u.arcmin][rng.integers(3)]
        caldb.write(db.path, 'other', 'pointingjitter.csv',
                    Table([[(fwhm * u.arcsec).to(unit).value] * unit], names=['FWHM']))
        c = SkyCoord(rng.uniform(0, 360) * u.deg, rng.uniform(-80, 80) * u.deg)
        kw = {'coords': c} if rng.random() < .6 else {}
        skw, pkw = dict(kw), dict(kw)
        e = rng.uniform(.2, 3)
        own_e = rng.random() < .5
        if own_e:
            skw['energy'] = e * u.keV
        own_f = rng.random() < .5
        f = rng.uniform(.5, 20)
        if own_f:
            skw['flux'] = f / u.s / u.cm**2
        own_j = rng.random() < .5
        j = rng.uniform(0, 5)
        if own_j:
            pkw['jitter'] = j * u.arcsec
        area = rng.uniform(1, 5)
        src = defaults.DefaultSource(geomarea=area * u.cm**2, **skw)
        poi = defaults.DefaultPointing(**pkw)
        sig = j if own_j else fwhm / 2.3545
        close(u.Quantity(poi.jitter).to(u.arcsec).value, sig, 'jitter', rtol=1e-3)
        np.random.seed(rng.integers(2**31))
        ph = src.generate_photons(100 * u.s)
        n = len(ph)
        mu = 100 * (f if own_f else 1.) * area
        ensure(abs(n - mu) <= 1 + 9 * np.sqrt(mu), 'flux', n=n, expected=mu)
        if n < 20:
            trivial()
            return
        close(ph['energy'], np.full(n, e if own_e else .5), 'energy')
        ph = poi(ph)
        dev = np.asarray(ph['dir'])[:, :3] - [0, 0, -1]
        s = np.deg2rad(sig / 3600)
        ensure(np.all(np.hypot(dev[:, 0], dev[:, 1]) <= 12 * s + 1e-9), 'photons come down the z-axis',
               maxdev=np.abs(dev).max(), sigma=s)
        ensure(np.all(np.abs(dev[:, 2]) <= 100 * s**2 + 1e-9), 'photons come down the z-axis')
        if s > 1e-8 and n > 60:
            ensure(np.mean(np.hypot(dev[:, 0], dev[:, 1])) > .25 * s, 'photons are jittered')
        # defaults of the next one are not changed
        s2 = defaults.DefaultSource(geomarea=1 * u.cm**2)
        close(s2.generate_photons(1000 * u.s)['energy'][:3], [.5] * 3, 'default energy')


# --------------------------------------------------------------------------------------
@sub('C42', dict(seed=seeds), quick=30, thorough=2000)
def budgets_are_converted(seed):
    '''mu -> mm, arcsec -> rad, 3 sigma -> 1 sigma; global terms are scaled'''
    rng = rng_of(seed)
    bud = []
    for i in range(int(rng.integers(1, 6))):
        bud.append([arcus.DetCamera, ['global', 'individual', 'individual_with_tilt'][rng.integers(3)],
                    list(rng.uniform(0, 1000, 6)), None, 'text'])
    if rng.random() < .3:
        bud[0][2] = [int(v) for v in bud[0][2]]
    array = rng.random() < .3
    if array:
        for b in bud:
            b[2] = np.array(b[2], dtype=float)
    orig = copy.deepcopy(bud)
    fac = [.8, .5, None, 'default'][rng.integers(4)]
    if fac == 'default':
        arcus.reformat_randall_errorbudget(bud)
        fac = .8
    else:
        np.random.seed(rng.integers(2**31))
        arcus.reformat_randall_errorbudget(bud, globalfac=fac)
    label('random', fac is None)
    for a, b in zip(orig, bud):
        same(np.asarray(b[2]), np.asarray(a[2]), 'input of the budget')
        ensure(a[:2] == b[:2] and a[4] == b[4], 'other entries of the budget')
        exp = np.array(a[2], dtype=float) / 3
        exp[:3] /= 1000
        exp[3:] *= np.pi / 180 / 3600
        if a[1] == 'global':
            if fac is None:
                ratio = np.asarray(b[3]) / exp
                ensure(np.all(np.abs(ratio) < 9) and len(set(np.round(ratio, 9))) > 1,
                       'global terms are drawn', ratio=ratio)
                continue
            exp *= fac
        close(b[3], exp, 'converted budget', rtol=1e-12, atol=0)


TINY = None


def tiny():
    '''Database with few facets'''
    global TINY
    if TINY is None:
        d = tempfile.mkdtemp(dir=ROOT)
        TINY = d, caldb.make(d, np.random.default_rng(5), n_r=1, n_az=2, nf=1)
    return TINY


class TinyDatabase(Database):
    def __enter__(self):
        self.old = config['data']['caldb_inputdata']
        config['data']['caldb_inputdata'] = tiny()[0]
        return self

    def __exit__(self, *args):
        config['data']['caldb_inputdata'] = self.old


PARTS = [SPOChannelMirror, arcus.CATfromMechanical, arcus.CATWindow, arcus.DetCamera]


def places(inst):
    return {cl: [np.array([e.pos4d for e in c.elements]) for c in inst.elements_of_class(cl)]
            for cl in PARTS}


@sub('C42', dict(seed=seeds), quick=12, thorough=300)
def alignment_budget_is_applied(seed):
    '''Misalignments move exactly the parts in the budget, by the amounts in the budget'''
    rng = rng_of(seed)
    with TinyDatabase():
        conf, axis = make_conf(rng, tiny()[1]['layout'])
        chans = pick_channels(rng)
        nominal = places(arcus.PerfectArcus(conf, chans))
        cl = PARTS[rng.integers(4)]
        kind = ['global', 'individual', 'individual'][rng.integers(3)]
        tilt = 0
        if cl is arcus.CATWindow and rng.random() < .7:
            kind = 'individual_with_tilt'
            tilt = rng.uniform(1e-4, 1e-2) * rng.integers(0, 2)
        dof = rng.integers(0, 6)
        sig = np.zeros(6)
        sig[dof] = rng.uniform(.5, 2) * (1 if dof < 3 else 1e-4)
        if rng.random() < .4:
            sig = rng.uniform(.1, 2, 6) * [1, 1, 1, 1e-4, 1e-4, 1e-4]
        conf['alignmentbudget'] = [[cl, kind, None, [*sig, tilt] if kind == 'individual_with_tilt' else sig, 'text']]
        np.random.seed(rng.integers(2**31))
        inst = arcus.Arcus(conf, chans)
        got = places(inst)
        bars = np.array([getattr(g, 'blaze_center', 0) for g in inst.elements_of_class(NonParallelCATGrating, subclass_ok=False)])
        ensure(np.all(np.abs(bars) <= tilt * (1 + 1e-9)), 'bar tilt is not larger than the maximum', bars=bars, tilt=tilt)
        ensure(tilt == 0 or len(bars) == 0 or len(np.unique(bars)) > 1 or len(bars) == 1, 'gratings have different bar tilts', bars=bars)
        ensure(tilt == 0 or np.any(np.abs(bars) > 1e-4 * tilt), 'gratings have a bar tilt', bars=bars)
        label(kind)
        # gratings move with their window and their petal
        affected = {SPOChannelMirror: [SPOChannelMirror],
                    arcus.CATfromMechanical: [arcus.CATfromMechanical, arcus.CATWindow],
                    arcus.CATWindow: [arcus.CATWindow],
                    arcus.DetCamera: [arcus.DetCamera]}[cl]
        for c in PARTS:
            ensure(len(got[c]) == len(nominal[c]), 'number of parts')
            allshift, allang = [], []
            for a, b in zip(nominal[c], got[c]):
                if c not in affected:
                    close(b, a, 'parts that are not in the budget stay where they are', part=c,
                          atol=1e-7)
                    continue
                rel = np.array([y @ np.linalg.inv(x) for x, y in zip(a, b)])
                R = rel[:, :3, :3]
                ang = np.arccos(np.clip((np.trace(R, axis1=1, axis2=2) - 1) / 2, -1, 1))
                shift = b[:, :3, 3] - a[:, :3, 3]
                allshift.append(np.linalg.norm(shift, axis=1).max())
                allang.append(ang.max())
                close(np.linalg.det(R), np.ones(len(R)), 'parts are moved rigidly', rtol=1e-7)
                if c is cl and kind.startswith('individual'):
                    # center of the element moves by a Gaussian draw
                    ensure(np.all(np.linalg.norm(shift, axis=1) < 10 * np.linalg.norm(sig[:3]) + 1e-6),
                           'size of the shift', shift=shift, sigma=sig)
                    ensure(np.all(ang < 10 * np.linalg.norm(sig[3:]) + tilt * 1.01 + 1e-7), 'size of the rotation',
                           ang=ang, sigma=sig)
                if kind == 'global' and cl is not arcus.CATWindow and c is cl:
                    # all elements of one part move together, by the amount given
                    close(rel, np.tile(rel[0], (len(rel), 1, 1)), 'part moves as a whole', atol=1e-5)
                    close(ang, np.full(len(ang), np.linalg.norm(sig[3:])), 'angle of rotation',
                          rtol=1e-2, atol=3e-7)
                    if not sig[3:].any():
                        close(np.linalg.norm(shift, axis=1),
                              np.full(len(shift), np.linalg.norm(sig[:3])), 'size of the shift',
                              rtol=1e-6, atol=1e-7)
                if c is cl and kind.startswith('individual'):
                    # Not all of several draws are small
                    k = len(a)
                    big = np.max(np.linalg.norm(shift, axis=1)) if sig[:3].any() else np.inf
                    ensure(big > 1e-5 * sig[:3].max(), 'every one of these parts is shifted', part=c, n=k)
                    big = ang.max() if sig[3:].any() else np.inf
                    ensure(big > 1e-5 * sig[3:].max() - 1e-7, 'every one of these parts is rotated', part=c, n=k)
            # random draws can be small by chance, but not all of them
            if c in affected and sig[:3].any():
                ensure(max(allshift) > 1e-4 * sig[:3].max(), 'parts are shifted', part=c)
            if c in affected and sig[3:].any():
                ensure(max(allang) > 1e-3 * sig[3:].max() - 1e-7, 'parts are rotated', part=c)
        conf['alignmentbudget'] = [[cl, 'other', None, sig, 'text']]
        with raises(NotImplementedError, 'unknown kind of misalignment'):
            arcus.Arcus(conf, chans)


# --------------------------------------------------------------------------------------
class Direct(arcus.PerfectArcus):
    '''Without gratings'''
    gratings_class = None


@sub('C42', dict(seed=seeds), quick=12, thorough=200)
def zeroth_order_positions(seed):
    '''The position used in the data analysis is where direct light is detected'''
    rng = rng_of(seed)
    conf, axis = dict(arcus.defaultconf), arcus.defaultconf['pos_opt_ax']
    conf['inplanescatter'] = conf['perpplanescatter'] = 0 * u.arcsec
    chans = pick_channels(rng)
    inst = Direct(conf, chans)
    c = SkyCoord(rng.uniform(0, 360) * u.deg, rng.uniform(-80, 80) * u.deg)
    src = PointSource(coords=c, energy=rng.uniform(.3, 2) * u.keV, flux=1 / u.s / u.cm**2,
                      geomarea=1 * u.cm**2)
    poi = FixedPointing(coords=c, reference_transform=xyz2zxy)
    np.random.seed(rng.integers(2**31))
    ph = inst(poi(src.generate_photons(600 * u.s)))
    ok = np.asarray(ph['probability']) > 0
    trivial(ok.sum() < 10)
    xou = np.asarray(ph['xou'])
    ensure(np.all(xou[ok] >= 0), 'photons that survive went through a mirror')
    for ch in CHANNELS:
        k = ok & (xou >= OFFSET[ch]) & (xou < OFFSET[ch] + 1000)
        if ch not in chans:
            ensure(not k.any(), 'photons only in the channels simulated')
            continue
        for col, t in [('proj_x', .05), ('proj_y', .05), ('circ_phi', 2e-6), ('circ_y', .05)]:
            x = np.asarray(ph[col], dtype=float)[k]
            x = x[np.isfinite(x)]
            z = analyze_grid.zeropos(col, ch) if rng.random() < .5 else \
                analyze_grid.zeropos(col, ch, conf)
            if col == 'circ_y' or col == 'circ_phi':
                # before the focus: the beam has some extent, but is centered on the axis in x
                ensure(np.all(np.abs(x - z) < (.012 if col == 'circ_phi' else 12)),
                       'direct light is close to ' + col, chan=ch, got=x[:3], z=z)
            else:
                close(x, np.full(len(x), z), 'direct light is at ' + col, rtol=0, atol=t, chan=ch)
    for k in conf['pos_opt_ax']:
        same(conf['pos_opt_ax'][k], axis[k], 'configuration modified')
    with raises(NotImplementedError, 'unknown coordinate'):
        analyze_grid.zeropos('det_x', '1')
    # labels
    if HASH:
        got = ph.meta['ARCDATHA']
        got = got[0] if isinstance(got, tuple) else got
        ensure(len(got) >= 4 and HASH.startswith(got), 'version of the calibration data', got=got,
               expected=HASH)
        got = ph.meta['ARCDATDA']
        got = got[0] if isinstance(got, tuple) else got
        ensure(got == '2021-03-04 05:06:07', 'date of the calibration data', got=got)


@sub('C42', dict(seed=seeds), quick=12, thorough=200)
def instrument_is_the_product_of_its_parts(seed):
    '''All of Arcus: ids of module and facet belong to the same channel, probabilities are the product
    of what the parts say, photons are where rays of their order are'''
    rng = rng_of(seed)
    conf = dict(arcus.defaultconf)
    conf['inplanescatter'] = conf['perpplanescatter'] = 0 * u.arcsec
    chans = pick_channels(rng)
    cls = [arcus.PerfectArcus, arcus.ArcusForSIXTE][rng.integers(2)]
    if cls is arcus.ArcusForSIXTE:
        conf['alignmentbudget'] = []
    inst = cls(conf, chans)
    e = rng.uniform(.3, 1.2)
    c = SkyCoord(10 * u.deg, 20 * u.deg)
    src = PointSource(coords=c, energy=e * u.keV, flux=1 / u.s / u.cm**2, geomarea=1 * u.cm**2)
    poi = FixedPointing(coords=c, reference_transform=xyz2zxy)
    np.random.seed(rng.integers(2**31))
    ph = inst(poi(src.generate_photons(1500 * u.s)))
    prob = np.asarray(ph['probability'])
    ok = prob > 0
    trivial(ok.sum() < 5)
    xou = np.asarray(ph['xou'])[ok]
    fac = np.asarray(ph['facet'])[ok]
    ensure(np.all(xou >= 0) and np.all(fac >= 0), 'photons that survive went through mirror and grating')
    close(xou // 1000, fac // 1000, 'module and facet are of the same channel', xou=xou, fac=fac)
    spo_max = DATA0['geometricthroughput'] * DATA0['porespecifications'] * np.interp(
        e, *DATA0['lossterm'])
    if cls is not arcus.ArcusForSIXTE:
        for n in ['sifilter', 'opticalblocking', 'uvblocking', 'contam', 'qe']:
            spo_max *= np.interp(e, *DATA0[n])
    # reflectivity and gratings can only reduce this
    eff = DATA0['efficiency']
    gmax = np.max(sum(np.asarray(eff[str(o)]) for o in caldb.ORDERS))
    ensure(np.all(prob[ok] <= spo_max * .95**2 * gmax * (1 + 1e-6)), 'probabilities', got=prob[ok].max(),
           maximum=spo_max * gmax)
    # positions: grating of the central ray
    d = np.mean(DATA0['facets']['period']) * np.cos(np.deg2rad(conf['blazeang']))
    k = ok & (np.asarray(ph['order_L1']) == 0)
    x = np.asarray(ph['detfp_x' if cls is arcus.ArcusForSIXTE else 'proj_x'], dtype=float)[k]
    chan = np.array([{v // 1000: kk for kk, v in OFFSET.items()}[i // 1000]
                     for i in np.asarray(ph['xou'])[k]], dtype=object)
    ax = np.array([conf['pos_opt_ax'][i][0] for i in chan], dtype=float)
    m = np.asarray(ph['order'])[k]
    th = np.arcsin(m * HC * 1e-7 / e / d)
    exp = ax + np.sign(ax) * np.tan(th) * conf['f']
    # periods differ by some percent between facets, facets are not in one plane
    close(x, exp, 'photons of an order', rtol=0, atol=12 + .06 * np.abs(exp - ax).max(initial=0))
    far = np.abs(exp - ax) > 60
    label('dispersed', far.any())
    same(np.sign(x - ax)[far], np.sign(exp - ax)[far], 'direction of the dispersion')
    if cls is arcus.PerfectArcus:
        # position column kept
        ensure(len(inst.KeepPos.data) == len(inst.elements), 'positions are kept for plots')


@sub('C42', dict(seed=seeds), quick=15, thorough=300)
def simulation_grids_are_summarised(seed):
    '''R and effective area of a grid of simulations'''
    rng = rng_of(seed)
    conf = arcus.defaultconf
    orders = np.array(sorted(rng.choice(np.arange(-8, 3), int(rng.integers(2, 5)), replace=False)))
    if not np.any(orders):
        orders = np.append(orders, 0)
    arg = orders if rng.random() < .6 else [int(o) for o in orders]
    nfile = int(rng.integers(1, 4))
    ens = np.sort(rng.uniform(.3, 1.5, nfile))[::-1]
    n_sim = int(rng.integers(2000, 5000))
    a_geom = rng.uniform(100, 2000)
    tabs = []
    with tempfile.TemporaryDirectory(dir=ROOT) as tmp:
        for i, e in enumerate(ens):
            n = int(rng.integers(1500, 2500))
            ch = rng.integers(0, 4, n)
            o = rng.choice(orders, n)
            zp = np.array([np.arcsin(conf['pos_opt_ax'][CHANNELS[c]][0] / conf['rowland_detector'].r)
                           for c in ch])
            phi = zp + .01 * o * (1 + ch * .1) + rng.normal(size=n) * 1e-5 * (1 + ch)
            t = Table({'xou': np.array([OFFSET[CHANNELS[c]] for c in ch]) + rng.integers(0, 300, n),
                       'order': o.astype(float), 'order_L1': rng.choice([0, 0, 0, 1, -1], n),
                       'circ_phi': phi, 'CCD': rng.choice([-1, 1, 5, 16], n),
                       'energy': np.full(n, e), 'probability': rng.uniform(.1, 1, n)})
            t['energy'].unit = u.keV
            t.meta['EXPOSURE'] = n_sim
            t.meta['A_GEOM'] = a_geom
            t.meta['ENERGY'] = e
            t.write(os.path.join(tmp, f'wave{i:05.2f}.fits'))
            tabs.append(t)
        out = analyze_grid.aeffRfromraygrid(tmp, conf, orders=arg)
        ensure(len(out) == nfile, 'one row per simulation')
        close(out['energy'].to(u.keV).value, ens, 'energy', rtol=1e-6)
        close(out['wave'].to(u.AA).value, HC / ens, 'wavelength', rtol=1e-6)
        ids = list(OFFSET)     # order of increasing id
        ids.sort(key=lambda k: OFFSET[k])
        ensure(list(id_num_offset) == ids, 'channels are ordered by id')
        A = np.zeros((nfile, 4, len(orders)))
        R = np.zeros_like(A)
        for i, t in enumerate(tabs):
            for j, c in enumerate(ids):
                for k, o in enumerate(orders):
                    q = ((t['xou'] >= OFFSET[c]) & (t['xou'] < OFFSET[c] + 1000) & (t['order'] == o)
                         & (t['order_L1'] == 0))
                    A[i, j, k] = t['probability'][q & (t['CCD'] >= 0)].sum() / n_sim * a_geom
                    z = np.arcsin(conf['pos_opt_ax'][c][0] / conf['rowland_detector'].r)
                    x = t['circ_phi'][q]
                    R[i, j, k] = np.nan if q.sum() <= 20 or o == 0 else \
                        abs(np.mean(x) - z) / (2.3545 * np.std(x))
        close(out['Aeff'].to(u.cm**2).value, A, 'effective area of every channel and order', rtol=1e-6)
        got = np.asarray(out['R'], dtype=float)
        fin = np.isfinite(R)
        ensure(np.all(np.isfinite(got[fin])), 'resolving power for all orders with photons')
        # R is robustly estimated from the distribution
        ensure(np.all(np.abs(got[fin] / R[fin] - 1) < .5), 'resolving power', got=got[fin],
               expected=R[fin])
        close(out['Aeff4'].to(u.cm**2).value, A.sum(axis=1), 'area of all channels', rtol=1e-6)
        disp = orders != 0
        close(out['Aeff_disp'].to(u.cm**2).value, A.sum(axis=1)[:, disp].sum(axis=1),
              'area of dispersed orders', rtol=1e-6)
        w = np.where(fin, A, 0)
        # exact: weighted means of the numbers in the table itself
        g = np.where(np.isfinite(got), got, 0)
        ww = np.where(np.isfinite(got), A, 0)
        sel = (ww.sum(axis=1) > 0)
        R4 = (g * ww).sum(axis=1)[sel] / ww.sum(axis=1)[sel]
        close(np.asarray(out['R4'], dtype=float)[sel], R4, 'R of all channels', rtol=1e-6)
        g4 = np.where(sel, np.nan_to_num(np.asarray(out['R4'], dtype=float)), 0)[:, disp]
        w4 = np.where(sel, A.sum(axis=1), 0)[:, disp]
        s2 = w4.sum(axis=1) > 0
        close(np.asarray(out['R_disp'], dtype=float)[s2],
              (g4 * w4).sum(axis=1)[s2] / w4.sum(axis=1)[s2], 'R of dispersed orders', rtol=1e-6)
        same(np.array(analyze_grid.orders_from_meta(out.meta), dtype=int), orders, 'orders in header')
        # round trip and csv
        name = os.path.join(tmp, 'grid.fits')
        out.write(name)
        same(np.array(analyze_grid.orders_from_meta(Table.read(name).meta), dtype=int), orders,
             'orders in header of file')
        col = ['Aeff4', 'R4'][rng.integers(2)]
        analyze_grid.csv_per_order(name, col, os.path.join(tmp, 'x.csv'))
        csv = Table.read(os.path.join(tmp, 'x.csv'), format='ascii.csv')
        close(csv['wave'], HC / ens, 'wavelength in csv file', rtol=1e-6)
        for k, o in enumerate(orders):
            v = csv[f'order_{o}']
            v = np.ma.filled(np.ma.asarray(v).astype(float), np.nan)
            w = np.asarray(out[col].value if hasattr(out[col], 'unit') else out[col],
                           dtype=float)[:, k]
            f = np.isfinite(w)
            close(v[f], w[f], 'csv file', rtol=1e-6)
        # inconsistent files
        t = tabs[0]
        if nfile > 1:
            t.meta['MARXSVER'] = 'other'
            t.write(os.path.join(tmp, f'wave{nfile + 1:05.2f}.fits'))
            label('inconsistent')
            with raises(Exception, 'inconsistent simulations are refused'):
                analyze_grid.aeffRfromraygrid(tmp, conf, orders=orders)
            ensure(len(analyze_grid.aeffRfromraygrid(tmp, conf, orders=orders,
                                                     allow_inconsistent_meta=True)) == nfile + 1,
                   'inconsistent simulations on request')


@sub('C42', dict(seed=seeds), quick=10, thorough=200)
def regular_grid_on_the_torus(seed):
    rng = rng_of(seed)
    lay = caldb.layout(rng, int(rng.integers(1, 3)), int(rng.integers(1, 4)))
    conf, axis = make_conf(rng, lay)
    conf['blazeang'] = rng.uniform(.5, 3)
    chans = pick_channels(rng)
    g = ralfgrating.RegularGrid(conf, channels=chans)
    conts = [e for e in g.elements if hasattr(e, 'elements')]
    ensure(len(conts) == len(chans), 'one grid per channel')
    cen = {c: np.array([spo_center(lay, i, c) for i in range(len(lay))]) for c in chans}
    for c, grid in zip(chans, conts):
        ensure(len(grid.elements) > 0, 'grid has elements')
        ids = [e.id_num for e in grid.elements]
        ensure(ids == list(range(OFFSET[c], OFFSET[c] + len(ids))), 'ids of the channel', got=ids[:5])
        pos = np.array([e.geometry['center'] for e in grid.elements])
        torus = conf['rowland_' + c]
        q = torus.quartic(pos[:, :3])
        ensure(np.all(np.abs(q) < 1e-4 * torus.R**3 * torus.r), 'gratings are on the torus of the channel',
               q=np.abs(q).max())
        rel = pos[:, :3] - axis[c][:3]
        ensure(np.all(rel[:, 2] > .8 * conf['f']), 'gratings are below the mirrors', z=rel[:, 2])
        s = -1 if '2' in c else 1
        ensure(np.all(s * rel[:, 1] > 0), 'gratings are on the side of the mirrors')
        # rays through the centers of all mirror modules go through a grating, or the gap next to one
        size = np.hypot(*np.broadcast_to(conf['gratinggrid']['d_element'], (2,)))
        for x in cen[c]:
            ray = x + [0, 0, 12000]
            ray = ray / np.linalg.norm(ray)
            off = np.linalg.norm(np.cross(rel, ray), axis=1)
            ensure(off.min() < size, 'all mirror modules are covered', off=off.min(), size=size)
        # normal: direction to the focus, rotated by the blaze angle about the dispersed direction
        for e in grid.elements[:10]:
            d = axis[c][:3] - e.geometry['center'][:3]
            d /= np.linalg.norm(d)
            n = np.asarray(e.pos4d)[:3, 0]
            n = n / np.linalg.norm(n)
            close(np.arccos(np.clip(abs(n @ d), -1, 1)), np.deg2rad(conf['blazeang']), 'blaze angle',
                  rtol=1e-5, atol=1e-6)
            # the channels disperse in opposite directions
            out = (n * np.sign(n @ d) - d)[0]
            ensure(out < 0 if 'm' in c else out > 0, 'direction of the blaze', channel=c, got=out)


@sub('C42', dict(seed=seeds), quick=10, thorough=200)
def readme_describes_the_files(seed):
    rng = rng_of(seed)

    class OSIP:
        osip_description = 'desc ' + ''.join(rng.choice(list(string.ascii_letters), 8))
        offset_orders = [int(i) for i in rng.integers(-5, 5, 3)]
    arc = ['all', '1111', '1000'][rng.integers(3)]
    with tempfile.TemporaryDirectory(dir=ROOT) as tmp:
        arfrmf.write_readme(OSIP(), tmp, ARCCHAN=arc)
        text = open(os.path.join(tmp, 'README.md')).read()
    ensure(OSIP.osip_description in text and str(OSIP.offset_orders) in text, 'description of the OSIP')
    for t in [-4, -5, -3]:
        ensure(arfrmf.filename_from_meta('arf', ARCCHAN=arc, ORDER=-4, CCDORDER=-4, TRUEORD=t) in text,
               'file names')
    if HASH:
        ensure('2021-03-04 05:06:07' in text, 'version of calibration data')
    ensure('${' not in text and '$tag' not in text, 'template is filled in')


# --------------------------------------------------------------------------------------
AX = []


@sub('C42', dict(seed=seeds), quick=12, thorough=200)
def axis_is_the_product_of_its_parts(seed):
    '''AXIS without gratings: geometric scaling, reflectivity, filters and focus'''
    rng = rng_of(seed)
    conf = dict(AXIS.conf)
    conf['inplanescatter'] = conf['perpplanescatter'] = 0 * u.rad
    conf['mirrorgeometricscaling'] = rng.uniform(.2, 1)
    inst = AXIS.PerfectAXIS(conf, gratings=False)
    ensure(not inst.elements_of_class(AXIS.LynxGAS), 'no gratings')
    c = SkyCoord(10 * u.deg, 20 * u.deg)
    e = rng.uniform(.3, 5)
    src = PointSource(coords=c, energy=e * u.keV, flux=1 / u.s / u.cm**2, geomarea=1 * u.cm**2)
    np.random.seed(rng.integers(2**31))
    off = rng.uniform(-1, 1, 2) * rng.choice([0, 20])       # arcsec
    poi = FixedPointing(coords=SkyCoord(c.ra + off[0] / np.cos(c.dec) * u.arcsec,
                                        c.dec + off[1] * u.arcsec))
    lens = [el for el in inst.elements if isinstance(el, AXIS.PerfectLensSegment)]
    ensure(len(lens) == 1, 'one mirror')
    ph0 = inst.elements[0](poi(src.generate_photons(200 * u.s)))
    trivial(len(ph0) == 0)
    ref = lens[0](ph0.copy())
    ph = ph0.copy()
    for el in inst.elements[1:]:
        ph = el(ph)
    exp = np.asarray(ref['probability']) * conf['mirrorgeometricscaling']
    for n in ['sifilter', 'opticalblocking', 'uvblocking', 'contam', 'qe']:
        exp = exp * np.interp(e, *DATA0[n])
    close(ph['probability'], exp, 'probabilities', rtol=1e-6)
    # focus
    r = np.hypot(ph['proj_x'], ph['proj_y']) if 'proj_x' in ph.colnames else None
    if r is not None:
        sep = np.deg2rad(np.hypot(*off) / 3600) * conf['focallength']
        close(r, np.full(len(ph), sep), 'position in the focal plane', rtol=1e-3, atol=1e-3)


def tiny_axis(rng):
    '''One metashell and few large gratings'''
    conf = copy.copy(AXIS.conf)
    conf['gas_kwargs'] = copy.copy(conf['gas_kwargs'])
    conf['gas_kwargs']['elem_args'] = copy.copy(conf['gas_kwargs']['elem_args'])
    conf['inplanescatter'] = conf['perpplanescatter'] = 0 * u.rad
    conf['metashellgeometry'] = AXIS.conf['metashellgeometry'][:1].copy()
    r = rng.uniform(250, 500)
    conf['metashellgeometry']['r_inner'] = r
    conf['metashellgeometry']['r_outer'] = r + rng.uniform(30, 60)
    conf['grating_size'] = rng.uniform(110, 190, 2)
    return conf


@sub('C42', dict(seed=seeds), quick=3, thorough=60, hang=600)
def axis_chirp(seed):
    '''With chirp_energy and chirp_order in the configuration, every grating of AXIS has a varying period, such that
    rays of that order meet on the Rowland circle'''
    rng = rng_of(seed)
    conf = tiny_axis(rng)
    plain = AXIS.PerfectAXIS(conf)
    conf['chirp_energy'], conf['chirp_order'] = [(.6, -5.4), (.5, -4.), (.8, -6.)][rng.integers(3)]
    inst = AXIS.PerfectAXIS(conf)
    a, b = [x.elements_of_class(AXIS.NonParallelCATGrating) for x in (plain, inst)]
    ensure(len(a) == len(b) and len(a) > 2, 'same number of gratings with and without chirp', plain=len(a), chirp=len(b))
    det = Cylinder.from_rowland(conf['rowland'], width=100, rotation=np.pi, kwargs={'phi_lim': [-np.pi / 2, np.pi / 2]})
    uu = np.array([-.998, -.5, 0, .5, .998])
    spread = []
    for g0, g in zip(a, b):
        close(g.pos4d, g0.pos4d, 'a chirp does not move the grating', rtol=1e-12)
        ensure(g.order_selector is conf['gas_kwargs']['elem_args']['order_selector'], 'order selector of the configuration')
        phi = []
        for x in (g0, g):
            x = copy.copy(x)
            x.order_selector = optics.OrderSelector([conf['chirp_order']])
            p = np.array(x.pos4d)[:3, 3] + uu[:, None] * np.array(x.pos4d)[:3, 1]
            d = -p / np.linalg.norm(p, axis=1)[:, None]
            ph = photon_table(rng, p * 1.05, d, energy=np.full(5, conf['chirp_energy']), prob=np.ones(5))
            ph = x(ph)
            hit, pos, coo = det.intersect(np.array(ph['dir']), np.array(ph['pos']))
            ensure(np.all(hit), 'rays hit the Rowland circle')
            phi.append(coo[:, 0] * conf['rowland'].r)
        good = 1e-3 + .01 * np.ptp(phi[0])
        close(phi[1][[0, 2, 4]], np.full(3, phi[1][2]), 'rays meet at the position of the central ray', rtol=0, atol=good,
              plain=phi[0])
        ensure(np.ptp(phi[1]) < .1 * np.ptp(phi[0]) + good, 'rays in between', phi=phi)
        close(phi[1][2], phi[0][2], 'central ray is not changed', rtol=0, atol=1e-3)
        spread.append(np.ptp(phi[0]))
    label('chirp matters', max(spread) > .01)
    trivial(max(spread) < .01)


@sub('C42', dict(seed=seeds, n=st.integers(100, 500)), quick=12, thorough=150, hang=600)
def axis_detectors_see_the_same_ray(seed, n):
    '''Full PerfectAXIS with gratings: gratings and CCDs as configured and all detectors agree'''
    rng = rng_of(seed)
    conf = tiny_axis(rng)
    inst = AXIS.PerfectAXIS(conf)
    F = conf['focallength']
    instrument.check_gas(conf, inst.elements_of_class(AXIS.LynxGAS)[0])
    for cl in (AXIS.PerfectLensSegment, optics.RadialMirrorScatter):
        el = inst.elements_of_class(cl)
        ensure(len(el) == 1, f'one {cl.__name__}', n=len(el))
        close(el[0].pos4d[:3, 3], [F, 0, 0], f'{cl.__name__} is one focal length from the focus')
    scat = inst.elements_of_class(optics.RadialMirrorScatter)[0]
    e0 = AXIS.PerfectAXIS.add_mirror(inst, AXIS.conf)[-1]
    ensure(scat.inplanescatter == 0 and u.Quantity(e0.inplanescatter, u.rad) == AXIS.conf['inplanescatter']
           and u.Quantity(e0.perpplanescatter, u.rad) == AXIS.conf['perpplanescatter'], 'scatter is configured')
    np.random.seed(rng.integers(2**31))
    ang = rng.choice([0, 1e-4, 1.2e-3]) * rng.uniform(-1, 1, 2)
    dirs = np.tile([-1., ang[0], ang[1]], (n, 1))
    p = photon_table(rng, np.zeros((n, 3)), dirs / np.linalg.norm(dirs[0]),
                     energy=np.full(n, rng.uniform(.25, 1.5)), prob=np.ones(n))
    i = [isinstance(e, AXIS.RowlandDetArray) for e in inst.elements].index(True)
    g = [isinstance(e, AXIS.LynxGAS) for e in inst.elements].index(True)
    front = Sequence(elements=inst.elements[:g])(p)
    ray = Sequence(elements=inst.elements[g:i])(front.copy())
    det = inst.elements[i]
    out = Sequence(elements=inst.elements[i:])(ray.copy())
    on, hit, nccd = instrument.check_detectors(conf, ray, out, det, 'imaging', 15., .008)
    trivial(not on.any() and not hit.any())
    ensure('AXIS' in out.meta['SATELLIT'], 'photons are tagged', meta=out.meta.get('SATELLIT'))
    # CCDs next to each other, on the circle, with small gaps
    y = np.sort([e.pos4d[1, 3] for e in det.elements])
    c = np.array([e.pos4d[:3, 3] for e in det.elements])
    tor = conf['rowland']
    local = (h(c, 1) @ np.linalg.inv(tor.pos4d).T)[:, :3]
    close(np.hypot(local[:, 0] - tor.R, local[:, 1]), np.full(len(c), tor.r), 'CCDs on the Rowland circle', rtol=0, atol=1e-4)
    close(local[:, 2], np.zeros(len(c)), 'CCDs in the plane of the Rowland circle', rtol=0, atol=1e-6)
    c = c[np.argsort(c[:, 1])]
    gap = np.linalg.norm(np.diff(c, axis=0), axis=1) - 2 * 24.576
    ensure(np.all((gap > .5) & (gap < 4)), 'gaps between CCDs', gap=gap)
    # dispersion
    if 'order' not in ray.colnames:
        return
    order, m1 = np.array(ray['order']), np.array(ray['order_L1'])
    use = np.isfinite(order) & (m1 == 0) & (np.array(ray['probability']) > 0)
    wave = HC * 1e-7 / np.array(ray['energy'])
    ch = (np.array(ray['dir']) - np.array(front['dir']))[:, :3]
    nhit = np.zeros(n, dtype=int)
    fp, fd = np.array(front['pos']), np.array(front['dir'])
    gas = inst.elements[g]
    ids = {e.id_num: e for e in gas.elements}
    for e in gas.elements:
        inv = np.linalg.inv(e.pos4d)
        lp, ld = fp @ inv.T, fd @ inv.T
        nhit += np.max(np.abs((lp - ld * (lp[:, :1] / ld[:, :1]))[:, 1:3]), axis=1) < 1.02
    use &= nhit == 1
    label('dispersed', use.any())
    for k in np.nonzero(use)[0]:
        e = ids[int(ray['facet'][k])]
        bars = e.pos4d[:3, 2] / np.linalg.norm(e.pos4d[:3, 2])
        across = np.cross(e.pos4d[:3, 0], bars)
        across /= np.linalg.norm(across)
        ensure(abs(abs(ch[k] @ across) - abs(order[k]) * wave[k] / 2e-4) < 2e-5, 'grating equation')
        ensure(abs(ch[k] @ bars) < 2e-5, 'no cross-dispersion in L1 order 0')
    # L1 order selection is part of the design
    sel = AXIS.l1_order_selector
    same(np.array(sel.orderlist), np.arange(-4, 5), 'L1 orders')
    close(sel.p, sel.p[::-1], 'L1 orders are symmetric')
    close(np.sum(sel.p), 1., 'sum of L1 orders', atol=.01)


@sub('C41', dict(seed=seeds, what=st.sampled_from(['Aperture', 'SimpleSPOs', 'CATGratings', 'DetCamera', 'RegularGrid', 'model', 'AXIS'])),
     quick=6, thorough=120, hang=600)
def arcus_settings(seed, what):
    '''The configuration stays as it is and parts of Arcus are displayed independently of each other.'''
    from vt.checks.c41_independence import freeze, check_displays, leaves
    rng = rng_of(seed)
    if what == 'AXIS':
        conf = {'mirrorgeometricscaling': rng.uniform()}
        check_displays([AXIS.MirrorGeometricScaling(conf), MarxsElement(), AXIS.MirrorGeometricScaling(conf)], rng, what)
        return
    with Database() as db:
        data = caldb.make(db.path, rng, n_r=int(rng.integers(1, 3)), n_az=2, nf=2)
        conf, axis = make_conf(rng, data['layout'])
        chans = pick_channels(rng)
        given = list(chans)
        if what == 'RegularGrid':
            # fewer and larger gratings
            conf['gratinggrid']['d_element'] = [150., 160.]
        before = freeze(conf)
        try:
            if what == 'model':
                a = arcus.ArcusForPlot(conf, channels=chans)
            elif what in ('DetCamera',):
                a = arcus.DetCamera(conf)
            elif what == 'RegularGrid':
                a = ralfgrating.RegularGrid(conf, channels=chans)
            else:
                a = getattr(arcus, what)(conf, chans)
        except (ValueError, RuntimeError) as e:
            if what == 'RegularGrid' and 'element' in str(e):
                trivial()
                return
            raise
        ensure(freeze(conf) == before, 'the configuration was changed', what=what)
        same(chans, given, 'list of channels')
        check_displays(leaves(a), rng, what)
