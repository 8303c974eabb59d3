'''C40: mission models place, label and weight their hardware as tabulated.'''
import copy

import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table
from astropy.utils.data import get_pkg_data_filename

from vt import instrument
from vt.core import sub, ensure, close, same, raises, trivial, label, known_finding
from vt.gen import (rng_of, seeds, make_pos4d, rotmat, photon_table, rand_rot, perp_unit, h)

from marxs.math.utils import xyz2zxy
from marxs.missions.arcus import boom
from marxs.missions.athena import spo
from marxs.missions.chandra import hess, hrma_py
from marxs.missions.lynx import lynx, mirror as lmirror
from marxs.math.geometry import Cylinder
from marxs.missions.mitsnl.catgrating import NonParallelCATGrating
from marxs.optics import FlatDetector, OrderSelector
from marxs.simulator import Sequence

# --------------------------------------------------------------------------------------
# Chandra HETG
# --------------------------------------------------------------------------------------
HESS = Table.read(get_pkg_data_filename('HESSdesign.rdb', package='marxs.missions.chandra'))
_HETG = []


def hetg():
    if not _HETG:
        _HETG.append(hess.HETG())
    return _HETG[0]


def hvec(i, name):
    return np.array([float(HESS[s + name][i]) for s in 'xyz'])


def hcenter(i):
    c = hvec(i, 'c')
    c[0] += (339.909 - 1.7) * 25.4
    return c


def hsize(i):
    return (1.035 if int(str(HESS['hessloc'][i])[0]) <= 3 else 0.920) * 25.4 / 2


@sub('C40', dict(seed=seeds), quick=40, thorough=400)
def hetg_facets_where_tabulated(seed):
    '''Position, normal, edges, size, name and id of facets; all facets are checked in every example,
    also after the whole HETG has been moved.'''
    rng = rng_of(seed)
    g = hess.HETG() if rng.random() < .15 else hetg()
    ensure(len(g.elements) == len(HESS) == 336, 'HETG has 336 facets')
    if g is hetg():
        move = np.eye(4)
        old = g.pos4d.copy()
    else:
        move = make_pos4d(rng.normal(size=3) * 300, rand_rot(rng), 1.)
        old = g.pos4d.copy()
        g.geometry.pos4d = move @ old
        g.generate_elements()
    label('moved', g is not hetg())
    for i in rng.permutation(336)[:60]:
        e = g.elements[i]
        s = hsize(i)
        expect = np.zeros((4, 4))
        expect[:3, 0] = hvec(i, 'u')
        expect[:3, 1] = hvec(i, 'uxf') * s
        expect[:3, 2] = hvec(i, 'uyf') * s
        expect[:3, 3] = hcenter(i)
        expect[3, 3] = 1
        # The table gives 6 digits or so: allow for orthonormalisation
        close(e.pos4d, move @ expect, 'facet position', rtol=1e-4, atol=2e-3, i=i)
        ensure(e.name == HESS['hessloc'][i], 'facet name', got=e.name, expected=HESS['hessloc'][i])


@sub('C40', dict(seed=seeds, k=st.integers(1, 6)), quick=40, thorough=800)
def hetg_facets_diffract_as_tabulated(seed, k):
    '''Photons aimed at points on facets get that facet's id and are diffracted by its period
    perpendicular to its tabulated groove direction.'''
    rng = rng_of(seed)
    g = hetg()
    n = 12 * k
    idx = rng.integers(0, 336, n)
    loc = rng.uniform(-.97, .97, (n, 2)) * np.array([hsize(i) for i in idx])[:, None]
    target = np.array([hcenter(i) + a * hvec(i, 'uxf') + b * hvec(i, 'uyf') for i, (a, b) in zip(idx, loc)])
    nrm = np.array([hvec(i, 'u') for i in idx])
    # rays come in from the mirror within one degree of the facet normal
    sgn = -np.sign(nrm[:, 0])[:, None]
    d = sgn * nrm + 0.015 * rng.normal(size=(n, 3))
    d /= np.linalg.norm(d, axis=1)[:, None]
    # start very close, such that no other facet is on the way
    p = photon_table(rng, target - 0.05 * d, d, energy=rng.uniform(0.4, 9, n))
    e = np.array(p['energy'])
    p = g(p.copy())
    ok = np.array(p['facet']) == idx
    # neighbours do not overlap
    ensure(np.all(ok), 'photon is labelled with the facet it goes through', got=np.array(p['facet'])[~ok],
           expected=idx[~ok])
    out = np.array(p['dir'])[:, :3]
    order = np.array(p['order'])
    ensure(np.all(np.isin(order, np.arange(-3, 4))), 'HETG orders')
    ul = np.array([hvec(i, 'ul') for i in idx])
    ul /= np.linalg.norm(ul, axis=1)[:, None]
    close(np.sum(out * ul, 1), np.sum(d * ul, 1), 'momentum along the grooves is conserved', rtol=0, atol=2e-6)
    wave = 12.398419843320026e-7 / e
    per = np.array([4001.95e-7 if str(HESS['hessloc'][i])[0] in '123' else 2000.81e-7 for i in idx])
    across = np.cross(nrm, ul)
    dp = np.sum((out - d) * across, 1)
    close(np.abs(dp), np.abs(order) * wave / per, 'grating equation with tabulated period', rtol=1e-4, atol=4e-6)
    # all facets disperse positive orders to the same side
    m = order != 0
    trivial(m.sum() == 0)
    across *= np.sign(across[:, 1])[:, None]
    side = np.sign(np.sum((out - d) * across, 1) * order)[m]
    ensure(len(set(side[np.abs(dp[m]) > 1e-5])) <= 1, 'positive orders are on the same side for all facets', side=side)
    close(np.array(p['pos'])[:, :3], target, 'photons stay where they hit the facet', rtol=0, atol=5e-3)
    ensure(np.array_equal(np.array(p['energy']), e), 'energy unchanged')


# --------------------------------------------------------------------------------------
# Lynx
# --------------------------------------------------------------------------------------
LGEOM = Table.read(get_pkg_data_filename('data/metashellgeom.dat', package='marxs.missions.lynx'),
                   format='ascii.ecsv')
LEFF = Table.read(get_pkg_data_filename('data/metashelleff.dat', package='marxs.missions.lynx'),
                  format='ascii.ecsv')


def lynx_conf(rng):
    '''Bundled table or a random one with the same columns.'''
    conf = {'focallength': float(rng.uniform(5e3, 2e4)), 'inplanescatter': 0 * u.rad, 'perpplanescatter': 0 * u.rad}
    if rng.random() < .4:
        conf['metashellgeometry'] = LGEOM.copy()
        conf['metashelleff'] = LEFF.copy()
    else:
        n = int(rng.integers(1, 9))
        edges = 50 + np.cumsum(rng.uniform(5, 100, 2 * n))
        conf['metashellgeometry'] = Table({'Metashell Serial Number': np.arange(1, n + 1),
                                           'r_inner': edges[::2], 'r_outer': edges[1::2]})
        conf['metashellgeometry']['r_inner'].unit = conf['metashellgeometry']['r_outer'].unit = 'mm'
        energy = np.sort(rng.uniform(.1, 10, 12))
        energy[0], energy[-1] = 0.1, 12.
        area = np.pi * (edges[1::2]**2 - edges[::2]**2) / 100
        tab = {'energy': energy}
        for i in range(n):
            tab[str(i + 1)] = area[i] * rng.uniform(0, 1.15, 12)
        conf['metashelleff'] = Table(tab)
    return conf


@sub('C40', dict(seed=seeds, n=st.integers(20, 300)), quick=60, thorough=1000)
def lynx_shells(seed, n):
    '''A photon that enters between the radii of a metashell is labelled with the serial number of the shell
    and weighted with the tabulated effective area of that shell over the geometric area of the opening;
    photons are focussed.'''
    rng = rng_of(seed)
    conf = lynx_conf(rng)
    geom, eff = conf['metashellgeometry'], conf['metashelleff']
    np.random.seed(seed)
    d = np.tile([-1., 0, 0], (n, 1))
    p = photon_table(rng, np.zeros((n, 3)), d, energy=rng.uniform(max(.11, eff['energy'][0]), min(eff['energy'][-1], 11.9), n))
    prob0 = np.array(p['probability'])
    e = np.array(p['energy'])
    if rng.random() < .5 and len(geom) > 1:
        # only some of the shells
        part = dict(conf, metashellgeometry=geom[rng.integers(0, len(geom)):])
        q = lmirror.MetaShellAperture(part)(p.copy())
        r = np.hypot(np.array(q['pos'])[:, 1], np.array(q['pos'])[:, 2])
        for s in part['metashellgeometry']:
            ensure(np.array_equal((r > s['r_inner'] * (1 - 1e-9)) & (r < s['r_outer'] * (1 + 1e-9)),
                                  np.array(q['shell']) == s['Metashell Serial Number']),
                   'shell number agrees with the radius of the photon if only some shells are used')
    aper = lmirror.MetaShellAperture(conf)
    area = np.pi * (np.array(geom['r_outer'], dtype=float)**2 - np.array(geom['r_inner'], dtype=float)**2)
    close(aper.area.to(u.mm**2).value, area.sum(), 'area of the Lynx aperture', rtol=1e-9)
    p = aper(p.copy())
    pos = np.array(p['pos'])
    r = np.hypot(pos[:, 1], pos[:, 2])
    close(pos[:, 0], np.full(n, conf['focallength'] + 200), 'aperture is 200 mm above the mirror')
    ids = np.array(p['shell'])
    serial = np.array(geom['Metashell Serial Number'])
    ensure(np.all(np.isin(ids, serial)), 'all photons carry the serial number of a metashell', ids=sorted(set(ids)))
    for s, ri, ro in zip(serial, geom['r_inner'], geom['r_outer']):
        inside = (r > ri * (1 - 1e-9)) & (r < ro * (1 + 1e-9))
        ensure(np.array_equal(inside, ids == s), 'shell number agrees with the radius of the photon', s=s)
    # fraction per shell is proportional to the area
    f = area / area.sum()
    cnt = np.array([(ids == s).sum() for s in serial])
    ensure(np.all(np.abs(cnt - n * f) < 7 * np.sqrt(n * f * (1 - f)) + 6), 'photons per shell follow the area', cnt=cnt, f=f)
    p = Sequence(elements=[lmirror.MetaShell(conf)])(p)
    rel = np.zeros(n)
    for j, s in enumerate(serial):
        y = np.interp(e, np.array(eff['energy']), np.array(eff[str(s)], dtype=float) * 100 / area[j])
        rel = np.where(ids == s, np.clip(y, 0, 1), rel)
    label('clipped', np.any(rel == 1))
    close(np.array(p['probability']), prob0 * rel, 'efficiency of the metashell', rtol=1e-9)
    same(np.array(p['shell']), ids, 'mirror does not change shell')
    t = -np.array(p['pos'])[:, 0] / np.array(p['dir'])[:, 0]
    spot = np.array(p['pos'])[:, 1:3] + t[:, None] * np.array(p['dir'])[:, 1:3]
    close(spot, np.zeros((n, 2)), 'on-axis photons reach the focal point', rtol=0, atol=1e-6)
    # scatter in the plane of reflection moves photons along the radius, scatter out of the plane at a right angle to it
    which = str(rng.choice(['inplanescatter', 'perpplanescatter']))
    sc = dict(conf)
    sc[which] = 1e-4 * u.rad
    p = aper(photon_table(rng, np.zeros((n, 3)), d, energy=e))
    p = lmirror.MetaShell(sc)(p)
    t = -np.array(p['pos'])[:, 0] / np.array(p['dir'])[:, 0]
    spot = (np.array(p['pos'])[:, 1:3] + t[:, None] * np.array(p['dir'])[:, 1:3]) / conf['focallength']
    rad = np.array(p['pos'])[:, 1:3] / np.linalg.norm(np.array(p['pos'])[:, 1:3], axis=1)[:, None]
    along = np.abs(np.sum(spot * rad, axis=1))
    across = np.abs(spot[:, 0] * rad[:, 1] - spot[:, 1] * rad[:, 0])
    if which == 'perpplanescatter':
        along, across = across, along
    ensure(np.all(across < 1e-6), which + ' scatters in the other direction', across=across.max())
    # median of |normal| is .67 sigma
    ensure(2e-5 < np.median(along) < 3e-4, which + ' is not as wide as requested', width=np.median(along))


_LYNX = {}


def small_lynx(rng):
    '''Lynx configuration with few, large gratings.'''
    key = int(rng.integers(0, 3))
    if key not in _LYNX:
        conf = copy.copy(lynx.conf)
        conf['gas_kwargs'] = copy.copy(conf['gas_kwargs'])
        conf['gas_kwargs']['elem_args'] = copy.copy(conf['gas_kwargs']['elem_args'])
        conf['grating_size'] = np.array([[180., 200.], [150., 240.], [220., 160.]][key])
        conf['grating_frame'] = [2., 10., 0.][key]
        if key:
            conf['blazeang'] = np.deg2rad([0, 1.2, 2.][key])
            lynx.add_rowland_to_conf(conf)
        _LYNX[key] = (conf, lynx.LynxGAS(conf), lynx.RowlandDetArray(conf))
    return _LYNX[key]


def torus_distance(t, points):
    '''Signed tube-radius mismatch of points, from the definition of the torus.'''
    inv = np.linalg.inv(t.pos4d)
    x = (inv @ h(points, 1).T).T[:, :3]
    return np.hypot(np.hypot(x[:, 0], x[:, 2]) - t.R, x[:, 1]) - t.r


@sub('C40', dict(seed=seeds), quick=8, thorough=60, hang=600)
def lynx_gratings_and_detectors(seed):
    '''Gratings cover the metashells, sit on the Rowland torus with the tabulated size and blaze; CCDs sit on the
    torus in the tabulated range.'''
    rng = rng_of(seed)
    conf, gas, det = small_lynx(rng)
    c = np.array([e.pos4d[:3, 3] for e in gas.elements])
    ensure(len(c) > 10, 'there are gratings')
    tor = conf['rowland']
    close(torus_distance(tor, c), np.zeros(len(c)), 'gratings are on the torus', rtol=0, atol=1e-4)
    ensure(np.all(c[:, 0] > 5e3), 'gratings are on the mirror side')
    r = np.hypot(c[:, 1], c[:, 2])
    half = np.hypot(*(conf['grating_size'] / 2 + conf['grating_frame']))
    ensure(r.min() > LGEOM['r_inner'].min() - half and r.max() < LGEOM['r_outer'].max() + half,
           'gratings are within the radii of the mirror', r=(r.min(), r.max()))
    for e in gas.elements:
        close(np.linalg.norm(e.pos4d[:3, :3], axis=0)[1:], conf['grating_size'] / 2, 'size of the gratings', rtol=1e-9)
        # normal: rotated by the blaze angle from the line to the focal point
        nrm = e.pos4d[:3, 0] / np.linalg.norm(e.pos4d[:3, 0])
        los = e.pos4d[:3, 3] / np.linalg.norm(e.pos4d[:3, 3])
        ensure(abs(np.arccos(min(1, abs(nrm @ los))) - conf['blazeang']) < 1e-6, 'gratings are blazed',
               ang=np.arccos(abs(nrm @ los)), expected=conf['blazeang'])
        ey = e.pos4d[:3, 1] / np.linalg.norm(e.pos4d[:3, 1])
        ensure(ey[1] > 0.95 and abs(ey[2]) < .02, 'gratings are aligned with the dispersion direction', ey=ey)
        # blazed towards the side of the CCDs: reflection on the bars of the grating
        refl = -los + 2 * (los @ ey) * ey
        close(refl[1] / -refl[0] * e.pos4d[0, 3] + e.pos4d[1, 3], np.tan(2 * conf['blazeang']) * e.pos4d[0, 3],
              'gratings are blazed to the other side', rtol=.2)
    if len(c) > 50:
        nn = np.linalg.norm(c[:, None] - c[None], axis=2)
        np.fill_diagonal(nn, np.inf)
        nn = nn.min(axis=1)
        room = (conf['grating_size'] + 2 * conf['grating_frame']).min()
        # (the elements at the hole may overlap, see C22)
        ensure(np.percentile(nn, 25) > room * .999, 'gratings need room for their frames', got=np.percentile(nn, 25), room=room)
        ensure(np.percentile(nn, 50) < room * 1.1, 'gratings are next to each other', got=np.percentile(nn, 50), room=room)
    cd = np.array([e.pos4d[:3, 3] for e in det.elements])
    local = (np.linalg.inv(tor.pos4d) @ h(cd, 1).T).T
    close(np.hypot(local[:, 0] - tor.R, local[:, 1]) - tor.r, np.zeros(len(cd)), 'CCDs are on the Rowland circle', rtol=0, atol=1e-4)
    close(local[:, 2], np.zeros(len(cd)), 'CCDs are in the plane of the Rowland circle', rtol=0, atol=1e-6)
    ensure(np.all((cd[:, 1] > 395) & (cd[:, 1] < 805) & (np.abs(cd[:, 0]) < 200)), 'CCDs are in the tabulated range')
    ensure(cd[:, 1].min() < 425 and cd[:, 1].max() > 775, 'CCDs cover the tabulated range')


@sub('C40', dict(seed=seeds, n=st.integers(50, 400)), quick=12, thorough=100, hang=600)
def lynx_end_to_end(seed, n):
    '''Photons through mirror, gratings and the Rowland circle detectors.'''
    rng = rng_of(seed)
    conf, gas, det = small_lynx(rng)
    np.random.seed(seed)
    conf2 = dict(conf)
    conf2['inplanescatter'] = conf2['perpplanescatter'] = 0 * u.rad
    p = photon_table(rng, np.zeros((n, 3)), np.tile([-1., 0, 0], (n, 1)), energy=np.full(n, rng.uniform(.3, 1.2)),
                     prob=np.ones(n))
    p = lmirror.MetaShellAperture(conf2)(p)
    p = lmirror.MetaShell(conf2)(p)
    before = np.array(p['dir'])
    bpos = np.array(p['pos'])
    p = gas(p)
    if 'order' not in p.colnames:
        trivial(True)
        return
    hit = np.array(p['facet']) >= 0
    trivial(hit.sum() < 5)
    mis = ~hit
    same(np.array(p['dir'])[mis], before[mis], 'photons outside of gratings fly on undisturbed')
    # Non-dispersed photons still go to the focal point, dispersed ones move along y by m lambda L / d
    order = np.array(p['order'])
    good = hit & np.isfinite(order) & (np.array(p['probability']) > 0) & (np.array(p['order_L1']) == 0)
    wave = 12.398419843320026e-7 / np.array(p['energy'])
    fac = np.array(p['facet'])
    ids = {e.id_num: e for e in gas.elements}
    # Some gratings in this mesh may overlap (known for CircularMeshGrid, see C22)
    nhit = np.zeros(n, dtype=int)
    nin = np.zeros(n, dtype=int)
    for e in gas.elements:
        inv = np.linalg.inv(e.pos4d)
        lp, ld = bpos @ inv.T, before @ inv.T
        t = -lp[:, 0] / ld[:, 0]
        x = np.max(np.abs((lp + t[:, None] * ld)[:, 1:3]), axis=1)
        nhit += x < 1.02
        nin += x < .999
    label('clean photons', np.any(nhit == 1))
    ensure(np.all(hit[nhit == 0] == False), 'photons that hit no grating have no facet number')
    ensure(np.all(hit[nin > 0]), 'photons that hit a grating have a facet number')
    good &= nhit == 1
    for i in np.nonzero(good)[0]:
        e = ids[fac[i]]
        g = e.pos4d[:3, 2] / np.linalg.norm(e.pos4d[:3, 2])   # grooves
        nn = e.pos4d[:3, 0] / np.linalg.norm(e.pos4d[:3, 0])
        across = np.cross(nn, g)
        di, do = before[i, :3], np.array(p['dir'])[i, :3]
        ensure(abs(abs((do - di) @ across) - abs(order[i]) * wave[i] / 2e-4) < 2e-5, 'grating equation', got=(do-di) @ across, dg=(do-di)@g, order=order[i], wave=wave[i], fac=fac[i], e=e.pos4d)
        ensure(abs((do - di) @ g) < 2e-5, 'no cross-dispersion in L1 order 0')


def tiny_lynx(rng):
    '''Full Lynx with one metashell and some ten large gratings'''
    conf = dict(lynx.conf)
    conf['gas_kwargs'] = copy.copy(conf['gas_kwargs'])
    conf['gas_kwargs']['elem_args'] = copy.copy(conf['gas_kwargs']['elem_args'])
    conf['inplanescatter'] = conf['perpplanescatter'] = 0 * u.rad
    r = rng.uniform(250, 500)
    conf['metashellgeometry'] = LGEOM[:1].copy()
    conf['metashelleff'] = LEFF['energy', '1'].copy()
    conf['metashellgeometry']['r_inner'] = r
    conf['metashellgeometry']['r_outer'] = r + rng.uniform(30, 60)
    conf['grating_size'] = rng.uniform(110, 190, 2)
    return conf


@sub('C40', dict(seed=seeds, n=st.integers(100, 500)), quick=12, thorough=150, hang=600)
def lynx_detectors_see_the_same_ray(seed, n):
    '''The full PerfectLynx: gratings and CCDs as configured and all detectors agree'''
    rng = rng_of(seed)
    conf = tiny_lynx(rng)
    inst = lynx.PerfectLynx(conf)
    instrument.check_gas(conf, inst.elements_of_class(lynx.LynxGAS)[0])
    np.random.seed(rng.integers(2**31))
    ang = rng.choice([0, 1e-4, 4e-3]) * rng.uniform(-1, 1, 2)
    dirs = np.tile([-1., ang[0], ang[1]], (n, 1))
    p = photon_table(rng, np.zeros((n, 3)), dirs / np.linalg.norm(dirs[0]),
                     energy=np.full(n, rng.uniform(.25, 1.5)), prob=np.ones(n))
    i = [isinstance(e, lynx.RowlandDetArray) for e in inst.elements].index(True)
    ray = Sequence(elements=inst.elements[:i])(p)
    out = Sequence(elements=inst.elements[i:])(ray.copy())
    on, hit, nccd = instrument.check_detectors(conf, ray, out, inst.elements[i], 'microcal', 50., 1.)
    trivial(not on.any() and not hit.any())
    ensure('LYNX' in out.meta['SATELLIT'], 'photons are tagged', meta=out.meta.get('SATELLIT'))


def place_of(inst, cls):
    return [np.array([e.pos4d for e in c.elements]) for c in inst.elements_of_class(cls)]


@sub('C40', dict(seed=seeds), quick=3, thorough=60, hang=600)
def lynx_chirp(seed):
    '''With chirp_energy and chirp_order in the configuration, every grating of Lynx has a varying period, such that
    rays of that order meet on the Rowland circle'''
    rng = rng_of(seed)
    conf = tiny_lynx(rng)
    plain = lynx.PerfectLynx(conf)
    conf['chirp_energy'], conf['chirp_order'] = [(.6, -5.4), (.5, -4.), (.8, -6.)][rng.integers(3)]
    inst = lynx.PerfectLynx(conf)
    a, b = [x.elements_of_class(NonParallelCATGrating) for x in (plain, inst)]
    ensure(len(a) == len(b) and len(a) > 2, 'same number of gratings with and without chirp', plain=len(a), chirp=len(b))
    wave = 12.398419843320026e-7 / conf['chirp_energy']
    det = Cylinder.from_rowland(conf['rowland'], width=100, rotation=np.pi, kwargs={'phi_lim': [-np.pi / 2, np.pi / 2]})
    uu = np.array([-.998, -.5, 0, .5, .998])
    spread = []
    for g0, g in zip(a, b):
        close(g.pos4d, g0.pos4d, 'a chirp does not move the grating', rtol=1e-12)
        ensure(type(g.order_selector) is type(g0.order_selector), 'a chirp does not change the efficiency')
        ensure(g.order_selector is conf['gas_kwargs']['elem_args']['order_selector'], 'order selector of the configuration')
        phi = []
        for x in (g0, g):
            x = copy.copy(x)
            x.order_selector = OrderSelector([conf['chirp_order']])
            p = np.array(x.pos4d)[:3, 3] + uu[:, None] * np.array(x.pos4d)[:3, 1]
            d = -p / np.linalg.norm(p, axis=1)[:, None]
            ph = photon_table(rng, p * 1.05, d, energy=np.full(5, conf['chirp_energy']), prob=np.ones(5))
            ph = x(ph)
            hit, pos, coo = det.intersect(np.array(ph['dir']), np.array(ph['pos']))
            ensure(np.all(hit), 'rays hit the Rowland circle')
            phi.append(coo[:, 0] * conf['rowland'].r)
        good = 1e-3 + .01 * np.ptp(phi[0])
        close(phi[1][[0, 2, 4]], np.full(3, phi[1][2]), 'rays meet at the position of the central ray', rtol=0, atol=good,
              plain=phi[0])
        ensure(np.ptp(phi[1]) < .1 * np.ptp(phi[0]) + good, 'rays in between', phi=phi)
        close(phi[1][2], phi[0][2], 'central ray is not changed', rtol=0, atol=1e-3)
        spread.append(np.ptp(phi[0]))
    label('chirp matters', max(spread) > .01)
    trivial(max(spread) < .01)


@sub('C40', dict(seed=seeds), quick=10, thorough=200, hang=600)
def lynx_alignment_budget(seed):
    '''Misalignments move exactly the parts in the budget, by the numbers there'''
    rng = rng_of(seed)
    conf = tiny_lynx(rng)
    parts = [lynx.LynxGAS, lynx.RowlandDetArray]
    nominal = lynx.PerfectLynx(conf)
    cl = parts[rng.integers(2)]
    kind = ['global', 'individual'][rng.integers(2)]
    sig = rng.uniform(.1, 2, 6) * [1, 1, 1, 1e-4, 1e-4, 1e-4]
    if rng.random() < .6:
        dof = rng.integers(6)
        sig[np.arange(6) != dof] = 0
    budget = [[cl, kind, None, sig, 'text']]
    conf['alignmentbudget'] = budget
    np.random.seed(rng.integers(2**31))
    inst = lynx.Lynx(conf)
    label(kind)
    for c in parts:
        a, b = place_of(nominal, c)[0], place_of(inst, c)[0]
        ensure(a.shape == b.shape, 'number of parts')
        if c is not cl:
            close(b, a, 'parts that are not in the budget stay where they are', part=c, atol=1e-7)
            continue
        rel = np.array([y @ np.linalg.inv(x) for x, y in zip(a, b)])
        ang = np.arccos(np.clip((np.trace(rel[:, :3, :3], axis1=1, axis2=2) - 1) / 2, -1, 1))
        shift = np.linalg.norm(b[:, :3, 3] - a[:, :3, 3], axis=1)
        close(np.linalg.det(rel[:, :3, :3]), np.ones(len(rel)), 'parts are moved rigidly', rtol=1e-7)
        if kind == 'global':
            close(rel, np.tile(rel[0], (len(rel), 1, 1)), 'part moves as a whole', atol=1e-5)
            close(ang, np.full(len(ang), np.linalg.norm(sig[3:])), 'angle of rotation', rtol=1e-2, atol=3e-7)
            if not sig[3:].any():
                close(shift, np.full(len(shift), np.linalg.norm(sig[:3])), 'size of the shift', rtol=1e-6, atol=1e-7)
        else:
            ensure(np.all(shift < 10 * np.linalg.norm(sig[:3]) + 1e-6), 'size of the shift', shift=shift, sigma=sig)
            ensure(np.all(ang < 10 * np.linalg.norm(sig[3:]) + 1e-7), 'size of the rotation', ang=ang, sigma=sig)
            if sig[:3].any():
                ensure(shift.max() > .05 * np.linalg.norm(sig[:3]) and np.std(shift) > 0, 'parts are shifted')
            if sig[3:].any():
                ensure(ang.max() > .05 * np.linalg.norm(sig[3:]), 'parts are rotated')
    conf['alignmentbudget'] = [[cl, 'other', None, sig, 'text']]
    with raises(NotImplementedError, 'unknown type of misalignment'):
        lynx.Lynx(conf)
    # bundled configurations
    for c in (lynx.conf, lynx.conf_5050, lynx.conf_chirp):
        for row, ref in zip(c['alignmentbudget'], lynx.align_requirement_in):
            fac = .8 if row[1] == 'global' else 1.
            close(row[3], np.array(ref[2], dtype=float) * fac, 'bundled budget', rtol=1e-12)
    bud = [[cl, k, list(rng.uniform(0, 1, 6)), None, 't'] for k in ('global', 'individual')]
    fac = rng.uniform(.1, 2)
    lynx.reformat_errorbudget(bud, globalfac=fac)
    close(bud[0][3], np.array(bud[0][2]) * fac, 'global part of the budget', rtol=1e-12)
    close(bud[1][3], np.array(bud[1][2]), 'individual part of the budget', rtol=1e-12)
    # chirp survives
    conf['alignmentbudget'] = budget
    conf['chirp_energy'], conf['chirp_order'] = .6, -5.4
    g = lynx.Lynx(conf).elements_of_class(NonParallelCATGrating)
    if cl is lynx.LynxGAS and not any(callable(x._d) for x in g):
        known_finding('chirp of the gratings of Lynx is lost when the alignment budget moves the gratings')
        return
    ensure(all(callable(x._d) for x in g), 'gratings are chirped in the misaligned instrument')


# --------------------------------------------------------------------------------------
# Silicon pore optics
# --------------------------------------------------------------------------------------
XOU = Table.read(get_pkg_data_filename('data/xous.csv', package='marxs.missions.athena'), format='ascii.ecsv')


def spo_frame(row):
    '''center (x, y), radial direction, azimuthal direction from the table, in the coordinate system where z is the
    optical axis.'''
    r = (float(row['inner_radius']) + float(row['outer_radius'])) / 2
    a = np.deg2rad(u.Quantity(row['clocking_angle'] * u.Unit(XOU['clocking_angle'].unit)).to(u.deg).value)
    rad = np.array([np.sin(a), np.cos(a)])
    return r * rad, rad


@sub('C40', dict(seed=seeds, k=st.integers(1, 40), refl=st.sampled_from(['none', 'spline', 'lambda'])), quick=40, thorough=600)
def spo_modules(seed, k, refl):
    '''Every SPO module sits at its tabulated radius and clocking angle with the tabulated size. Photons that go through
    it carry its number, are reflected twice and focussed onto the optical axis one focal length away.'''
    rng = rng_of(seed)
    sel = np.sort(rng.choice(len(XOU), size=k, replace=False))
    geom = XOU[sel].copy()
    random_table = rng.random() < .4
    if random_table:
        for c in ('azwidth', 'plate_height', 'primary_length'):
            geom[c] = np.array(geom[c]) * rng.uniform(.6, 1, k)
        geom['focal_length'] = rng.uniform(9000, 15000, k)
    geom['r_mid'] = (geom['outer_radius'] + geom['inner_radius']) / 2
    unit_swap = rng.random() < .3
    if unit_swap:
        geom['clocking_angle'] = u.Quantity(geom['clocking_angle']).to(u.deg)
    label('random_table', random_table)
    label('clocking_in_deg', unit_swap)
    pos4d = [xyz2zxy @ s for s in spo.spogeom2pos4d(geom)]
    z0 = float(rng.uniform(1e4, 2e4))
    off = np.array([*rng.uniform(-500, 500, 2), z0])
    refl_amp, refl_slope = rng.uniform(.3, .9), rng.uniform(1, 20)
    calls = {'none': lambda e, a, grid: np.ones_like(e), 'lambda': lambda e, a, grid: refl_amp * np.exp(-refl_slope * a * e)}
    if refl == 'spline':
        from scipy.interpolate import RectBivariateSpline
        ee, aa = np.linspace(.05, 15, 60), np.linspace(0, .05, 40)
        func = RectBivariateSpline(ee, aa, refl_amp * np.exp(-refl_slope * aa[None, :] * ee[:, None]))
    else:
        func = calls[refl]
    idoff = int(rng.choice([0, 1000]))
    m = spo.SPOChannelMirror(position=off, reflectivity_interpolator=func, spo_pos4d=pos4d, spo_geom=geom, id_num_offset=idoff)
    n = 60
    j = rng.integers(0, k, n)
    ab = rng.uniform(-.98, .98, (n, 2))
    target = np.zeros((n, 3))
    for q, i in enumerate(j):
        c, rad = spo_frame(XOU[sel[i]])
        az = np.array([rad[1], -rad[0]])
        target[q, :2] = c + ab[q, 0] * float(geom['azwidth'][i]) / 2 * az + ab[q, 1] * 36 * float(geom['plate_height'][i]) / 2 * rad
    target += off
    # Modules overlap in the table if the size does not fit (e.g. different petals): first one wins there
    amb = np.zeros(n, dtype=int)
    for i in range(k):
        c, rad = spo_frame(XOU[sel[i]])
        az = np.array([rad[1], -rad[0]])
        rel = target[:, :2] - off[:2] - c
        amb += (np.abs(rel @ az) < float(geom['azwidth'][i]) / 2 * 1.001) & (np.abs(rel @ rad) < 18 * float(geom['plate_height'][i]) * 1.001)
    keep = amb == 1
    trivial(keep.sum() < 3)
    j, target = j[keep], target[keep]
    n = len(j)
    if n == 0:
        return
    far = np.array([[off[0] + 5000., off[1], z0 + 10], [off[0], off[1], z0 + 10]])
    pos = np.vstack([target + [0, 0, 100.], far])
    p = photon_table(rng, pos, np.tile([0, 0, -1.], (n + 2, 1)), energy=rng.uniform(.2, 9.5, n + 2))
    prob0, e = np.array(p['probability']), np.array(p['energy'])
    p = m(p.copy())
    same(np.array(p['xou'])[:n], j + idoff, 'module number')
    ensure(np.all(np.array(p['xou'])[n:] < 0), 'photons that miss all modules have no module number')
    close(np.array(p['pos'])[:n, :3], target, 'photon is on the module', rtol=0, atol=1e-6)
    f = np.array(geom['focal_length'], dtype=float)[j]
    d = np.array(p['dir'])[:n, :3]
    at = np.array(p['pos'])[:n, :3] + d * (-f / d[:, 2])[:, None]
    close(at, np.tile(off, (n, 1)) - np.column_stack([np.zeros((n, 2)), f]), 'photons are focussed on the optical axis', rtol=0, atol=1e-5)
    rho = np.hypot(*(target - off)[:, :2].T)
    ang = np.arctan2(rho, f)
    expect = prob0.copy()
    if refl != 'none':
        # two reflections with a quarter of the total deflection each
        expect[:n] *= (refl_amp * np.exp(-refl_slope * (ang / 4) * e[:n]))**2
    close(np.array(p['probability']), expect, 'two reflections', rtol=2e-4 if refl == 'spline' else 1e-9, atol=1e-7 if refl == 'spline' else 1e-12)


@sub('C40', dict(seed=seeds), quick=15, thorough=100)
def spo_default_table(seed):
    '''The bundled list of positions, the bundled aperture, and the loss terms.'''
    rng = rng_of(seed)
    ensure(len(spo.spo_pos4d) == len(XOU), 'one position per row')
    for i in rng.integers(0, len(XOU), 40):
        c, rad = spo_frame(XOU[i])
        p4 = spo.spo_pos4d[i]
        close(p4[:3, 3], [*c, 0], 'position of module', rtol=0, atol=1e-6)
        close(p4[:3, 2], [*(rad * 18 * float(XOU['plate_height'][i])), 0], 'radial size of module', rtol=0, atol=1e-6)
        ensure(abs(abs(p4[:2, 1] @ np.array([rad[1], -rad[0]])) - float(XOU['azwidth'][i]) / 2) < 1e-6, 'azimuthal size of module')
        close(p4[:3, 0], [0, 0, float(XOU['primary_length'][i])], 'modules are parallel to the optical axis', rtol=0, atol=1e-6)
    n = 100
    e = np.sort(rng.uniform(.2, 10, n))
    p = photon_table(rng, rng.normal(size=(n, 3)), np.tile([0, 0, -1.], (n, 1)), energy=e)
    prob = np.array(p['probability'])
    q = spo.geometricthroughput(p.copy())
    close(np.array(q['probability']), prob * 0.92609, 'open fraction of the pores', rtol=1e-9)
    tab = Table.read(get_pkg_data_filename('data/lossterm.csv', package='marxs.missions.athena'), format='ascii.ecsv')
    q = spo.willingaleloss(p.copy())
    close(np.array(q['probability']), prob * np.interp(e, tab['energy'], tab['transmission']), 'loss term', rtol=1e-9)
    p['xou'] = rng.integers(-1, 3, n)
    q = spo.spomounting(p.copy())
    close(np.array(q['probability']), np.where(np.array(p['xou']) < 0, 0., prob), 'mounting structure blocks', rtol=1e-12)
    r = np.max(XOU['outer_radius']) * 1.05
    close(spo.aperture.area.to(u.mm**2).value, np.pi * r**2, 'SPO aperture covers all modules', rtol=1e-9)
    np.random.seed(seed)
    a = spo.aperture(photon_table(rng, np.zeros((n, 3)), np.tile([0, 0, -1.], (n, 1)), energy=e))
    pos = np.array(a['pos'])
    ensure(np.allclose(pos[:, 2], 12200) and np.hypot(pos[:, 0], pos[:, 1]).max() <= r, 'photons enter through the aperture')


@sub('C40', dict(seed=seeds, n=st.integers(3, 200)), quick=60, thorough=1000)
def spo_scatter_per_channel(seed, n):
    '''Only photons with a module number in the range of the channel are scattered; positions do not change.'''
    rng = rng_of(seed)
    np.random.seed(seed)
    lo = int(rng.integers(0, 4))
    hi = lo + int(rng.integers(1, 4))
    d = np.tile([0, 0, -1.], (n, 1)) + .01 * rng.normal(size=(n, 3))
    d /= np.linalg.norm(d, axis=1)[:, None]
    p = photon_table(rng, rng.normal(size=(n, 3)) * 300 + [0, 0, 12000], d)
    p['xou'] = rng.integers(-1, 7, n)
    p['order'] = 0
    before = {c: np.array(p[c]) for c in p.colnames}
    sc = spo.ScatterPerChannel(position=[0, 0, 12000], min_id=lo, max_id=hi, inplanescatter=1e-4 * u.rad,
                               perpplanescatter=1e-5 * u.rad, orientation=xyz2zxy[:3, :3])
    q = sc(p.copy())
    m = (before['xou'] >= lo) & (before['xou'] < hi)
    trivial(not m.any() or m.all())
    for c in before:
        same(np.array(q[c])[~m], before[c][~m], f'other channels are untouched ({c})')
    same(np.array(q['pos']), before['pos'], 'scattering does not move photons')
    changed = np.any(np.array(q['dir']) != before['dir'], axis=1)
    same(changed, m, 'photons of this channel are scattered')
    ang = np.arccos(np.clip(np.sum(np.array(q['dir']) * before['dir'], 1), -1, 1))
    ensure(ang.max() < 1.2e-3, 'scattering angle', got=ang.max())
    close(np.linalg.norm(np.array(q['dir']), axis=1), np.ones(n), 'direction stays normalised')
    for c in ('energy', 'probability', 'xou'):
        same(np.array(q[c]), before[c], c)


# --------------------------------------------------------------------------------------
# Booms
# --------------------------------------------------------------------------------------
def boom_rods(sides, L, B, n0, n1, dl, db, dd):
    '''List of (end1, end2, radius, kind) in the coordinate system of the boom.'''
    if sides == 3:
        ang = 2 * np.pi / 3 * np.arange(3)
        corner = B / np.sqrt(3) * np.column_stack([np.cos(ang), np.sin(ang)])
    else:
        corner = B / 2 * np.array([[1, 1], [-1, 1], [-1, -1], [1, -1]])
    rods = []
    for b in range(n0, n1):
        for i in range(sides):
            c1, c2 = corner[i], corner[(i + 1) % sides]
            p = lambda x, c: np.array([x, *c])
            rods.append((p(b * L, c1), p((b + 1) * L, c1), dl / 2, 'longeron'))
            rods.append((p(b * L, c1), p(b * L, c2), db / 2, 'batten'))
            rods.append((p(b * L, c1), p((b + 1) * L, c2), dd / 2, 'diagonal'))
            rods.append((p(b * L, c2), p((b + 1) * L, c1), dd / 2, 'diagonal'))
    return rods


def line_line(p, d, a, b):
    '''Distance of ray p + t d from the axis of a rod from a to b.

    Returns distance, position along the rod (0..1), t'''
    ab = b - a
    L = np.linalg.norm(ab)
    e = ab / L
    w = p - a
    de = d @ e
    den = 1 - de**2
    t = (-(w @ d) + (w @ e) * de) / den
    s = (w @ e) + t * de
    dist = np.linalg.norm(w + t * d - s * e)
    return dist, s, t, L, de


@sub('C40', dict(seed=seeds, sides=st.sampled_from([3, 4])), quick=60, thorough=800)
def booms_block_exactly_rays_that_hit(seed, sides):
    '''Photons that run into a longeron, batten or diagonal are lost and marked, all others pass unchanged.'''
    rng = rng_of(seed)
    cls = boom.ThreeSidedBoom if sides == 3 else boom.FourSidedBoom
    dims = {}
    L0, B0 = (1080., 1600.) if sides == 3 else (1350.5, 1308.)
    dl, db, dd = (10.2, 8., 2.) if sides == 3 else (10.2, 8.43, 1.85)
    n0, n1 = 0, (10 if sides == 3 else 8)
    L, B = L0, B0
    if rng.random() < .7:
        n0 = int(rng.integers(0, 3))
        n1 = n0 + int(rng.integers(1, 4))
        dims.update(start_bay=n0, n_bays=n1)
    if rng.random() < .5:
        if sides == 3:
            f = rng.uniform(.1, 2)
            L, B = f * L0, f * B0
        else:
            L, B = rng.uniform(100, 3000, 2)
        dims.update(l_longeron=L, l_batten=B, l_diag=np.hypot(L, B))
    if rng.random() < .5:
        dl, db, dd = rng.uniform(1, 40, 3)
        dims.update(d_longeron=dl, d_batten=db, d_diag=dd)
    label('custom_dimensions', bool(dims))
    dims = dict(rng.permutation(np.array(list(dims.items()), dtype=object))) if dims else {}
    pos, rot = rng.normal(size=3) * 500, rand_rot(rng)
    args = {'boom_dimensions': dims} if dims else {}
    b = cls(position=pos, orientation=rot, **args)
    rods = boom_rods(sides, L, B, n0, n1, dl, db, dd)
    ensure(len(b.elements) == len(rods), 'number of rods', got=len(b.elements), expected=len(rods))
    # rays aimed at points close to randomly selected rods or just anywhere
    n = 40
    P, D = [], []
    for q in range(n):
        if q % 4 < 3:
            a, c, r, _ = rods[rng.integers(len(rods))]
            x = a + rng.uniform(.02, .98) * (c - a)
            d = rng.normal(size=3)
            d /= np.linalg.norm(d)
            e = (c - a) / np.linalg.norm(c - a)
            side = np.cross(d, e)
            side /= np.linalg.norm(side)
            x = x + side * r * rng.choice([0, .5, .9, 1.15, 2., 10])
        else:
            x = np.array([rng.uniform(n0, n1) * L, *(rng.uniform(-.6, .6, 2) * B)])
            d = rng.normal(size=3)
            d /= np.linalg.norm(d)
        P.append(x - d * rng.uniform(1, 3) * (n1 - n0) * (L + B) * 2)
        D.append(d)
    P, D = np.array(P), np.array(D)
    expect = np.zeros(n, dtype=bool)
    unsure = np.zeros(n, dtype=bool)
    # 34.03 deg is a rounded number in the three-sided boom: shifts ends of the diagonal by 0.3 mm or so
    tol = 0.35 * L / L0 + .01 if sides == 3 else 1e-3
    for q in range(n):
        for a, c, r, kind in rods:
            dist, s, t, ln, de = line_line(P[q], D[q], a, c)
            tt = tol if kind == 'diagonal' else 1e-3
            # rods are open cylinders: where the ray crosses the mantle
            if dist > r + tt:
                continue
            half = np.sqrt(max(r**2 - dist**2, 0)) / np.sqrt(1 - de**2) * abs(de)
            if dist > r - tt or np.sqrt(1 - de**2) < .05:
                if -half - tt - r < s < ln + half + tt + r:
                    unsure[q] = True
                continue
            s1, s2 = s - half, s + half
            inside = [tt < x < ln - tt for x in (s1, s2)]
            outside = [x < -tt or x > ln + tt for x in (s1, s2)]
            if any(inside):
                expect[q] = True
            elif not all(outside):
                unsure[q] = True
            elif s1 < 0 and s2 > ln:
                unsure[q] = True
    trivial(expect.sum() == 0)
    label('hits', expect.any())
    gp = (rot @ P.T).T + pos
    gd = (rot @ D.T).T
    p = photon_table(rng, gp, gd, prob=rng.uniform(.1, 1, n))
    before = {c: np.array(p[c]) for c in p.colnames}
    out = b(p.copy())
    hit = np.array(out['hitrod']) if 'hitrod' in out.colnames else np.zeros(n, dtype=bool)
    ok = expect | ~unsure
    bad = ok & (hit != expect)
    ensure(not bad.any(), 'rays that run into a rod are marked', n=bad.sum(), hit=hit[bad], expect=expect[bad])
    close(np.array(out['probability'])[ok], np.where(expect, 0, before['probability'])[ok], 'probability behind the boom', rtol=1e-12)
    for c in ('dir', 'pos', 'energy', 'polarization'):
        same(np.array(out[c]), before[c], f'boom does not change {c}')


@sub('C40', dict(seed=seeds, sides=st.sampled_from([3, 4])), quick=20, thorough=100)
def boom_dimensions_are_checked(seed, sides):
    rng = rng_of(seed)
    cls = boom.ThreeSidedBoom if sides == 3 else boom.FourSidedBoom
    word = rng.choice(['l_longerons', 'diameter', 'n_bay', 'd_battens', 'startbay', 'xyz'])
    good = {'n_bays': 1} if rng.random() < .5 else {}
    with raises(ValueError, 'unknown dimension is refused'):
        cls(boom_dimensions={**good, word: 3})
    # dimensions of one boom do not leak into the next one
    n = int(rng.integers(1, 4))
    cls(boom_dimensions={'n_bays': n})
    ensure(len(cls().elements) == (8 if sides == 4 else 10) * 4 * sides, 'settings are per instance')


# --------------------------------------------------------------------------------------
# Chandra HRMA
# --------------------------------------------------------------------------------------
@sub('C40', dict(seed=seeds, n=st.integers(30, 400)), quick=40, thorough=600)
def chandra_mirror(seed, n):
    rng = rng_of(seed)
    np.random.seed(seed)
    radii = np.array([[598., 610.], [481, 491], [424, 433], [315, 322]])
    F = 10061.65
    p = photon_table(rng, np.zeros((n, 3)), np.tile([-1., 0, 0], (n, 1)), energy=rng.uniform(.3, 9, n))
    prob0 = np.array(p['probability'])
    aper = hrma_py.Aperture()
    area = np.pi * (radii[:, 1]**2 - radii[:, 0]**2)
    close(aper.area.to(u.mm**2).value, area.sum(), 'area of the Chandra aperture', rtol=1e-9)
    p = aper(p.copy())
    pos = np.array(p['pos'])
    r = np.hypot(pos[:, 1], pos[:, 2])
    ids = np.array(p['mirror_shell'])
    for s, (ri, ro) in enumerate(radii):
        same(ids == s, (r > ri - 1e-6) & (r < ro + 1e-6), 'shell number agrees with radius')
    ensure(np.all(np.isin(ids, np.arange(4))), 'all photons go through a shell')
    f = area / area.sum()
    cnt = np.array([(ids == s).sum() for s in range(4)])
    ensure(np.all(np.abs(cnt - n * f) < 7 * np.sqrt(n * f * (1 - f)) + 6), 'photons per shell follow the area', cnt=cnt, f=f)
    p = hrma_py.HRMA()(p)
    close(np.array(p['probability']), prob0 * .66, 'throughput of the HRMA', rtol=1e-9)
    t = -np.array(p['pos'])[:, 0] / np.array(p['dir'])[:, 0]
    spot = np.array(p['pos'])[:, 1:3] + t[:, None] * np.array(p['dir'])[:, 1:3]
    ensure(np.abs(spot).max() < 10061.65 * 3.6e-6 * 12, 'image at the focal point has the size of the mirror scatter', got=np.abs(spot).max())
    ensure(np.abs(spot).max() > 1e-4, 'mirror scatters')


# --------------------------------------------------------------------------------------
# AXIS
# --------------------------------------------------------------------------------------
@sub('C40', dict(seed=seeds, n=st.integers(5, 200)), quick=20, thorough=200)
def axis_mirror_and_detectors(seed, n):
    '''Lens with tabulated reflectivity and CCDs on the Rowland circle.'''
    from scipy.interpolate import RegularGridInterpolator
    from marxs.missions.AXIS import AXIS
    rng = rng_of(seed)
    conf = dict(AXIS.conf)
    conf['focallength'] = F = float(rng.uniform(5e3, 1.5e4))
    lens = lmirror.PerfectLensSegment(conf, position=[F, 0, 0], zoom=[1, 3000, 3000])
    phi, r = rng.uniform(0, 6.3, n), rng.uniform(0, 1200, n)
    pos = np.column_stack([np.full(n, F + 100), r * np.cos(phi), r * np.sin(phi)])
    tab = Table.read(get_pkg_data_filename('data/ir_reflectivity.dat', package='marxs.missions.lynx'), format='ascii.ecsv')
    angs = np.deg2rad([float(c) for c in tab.colnames[1:]])
    en = np.array(tab['energy']) / 1000   # eV in table
    refl = np.stack([np.array(tab[c]) for c in tab.colnames[1:]]).T
    # The values of the table have to be reproduced on the grid points
    i, j = rng.integers(0, len(en), n), rng.integers(0, len(angs), n)
    out = lens.reflectivity_interpolator(en[i], angs[j], grid=False)
    close(out, refl[i, j], 'tabulated reflectivity', rtol=1e-6, atol=1e-8)
    p = photon_table(rng, pos, np.tile([-1., 0, 0], (n, 1)), energy=rng.uniform(en[0], en[-1], n),
                     prob=rng.uniform(.1, 1, n))
    prob = np.array(p['probability'])
    e = np.array(p['energy'])
    q = lens(p.copy())
    d = np.array(q['dir'])[:, :3]
    at = np.array(q['pos'])[:, :3] + d * (-F / d[:, 0])[:, None]
    close(at, np.zeros((n, 3)), 'lens focusses', rtol=0, atol=1e-6)
    ang = np.arctan2(r, F) / 4
    ok = (ang > angs[1]) & (ang < angs[-2])
    lo = RegularGridInterpolator((en, angs), refl, bounds_error=False)
    ok &= np.isfinite(lo((e, ang)))
    # cubic vs. linear interpolation: only a rough agreement for the unsmooth parts of the table
    ratio = np.array(q['probability']) / prob
    ensure(np.median(np.abs(ratio - lo((e, ang))**2)[ok]) < .02 if ok.sum() > 20 else True, 'two reflections at a quarter of the deflection angle')
    q2 = AXIS.MirrorGeometricScaling(conf)(q.copy())
    close(np.array(q2['probability']), np.array(q['probability']) * conf['mirrorgeometricscaling'], 'geometric factor', rtol=1e-9)
    conf = dict(AXIS.conf)
    conf['det_kwargs'] = dict(conf['det_kwargs'])
    y0 = rng.uniform(350, 500)
    conf['det_kwargs']['y_range'] = [y0, y0 + rng.uniform(60, 300)]
    det = AXIS.RowlandDetArray(conf)
    tor = conf['rowland']
    cd = np.array([e.pos4d[:3, 3] for e in det.elements])
    local = (np.linalg.inv(tor.pos4d) @ h(cd, 1).T).T
    close(np.hypot(local[:, 0] - tor.R, local[:, 1]) - tor.r, np.zeros(len(cd)), 'CCDs are on the Rowland circle', rtol=0, atol=1e-4)
    lim = conf['det_kwargs']['y_range']
    half = conf['det_kwargs']['d_element'][0] / 2
    ensure(cd[:, 1].min() > lim[0] - 6 and cd[:, 1].max() < lim[1] + 6, 'CCDs are in the requested range', y=cd[:, 1], lim=lim)
    ensure(cd[:, 1].min() < lim[0] + half + 6 and cd[:, 1].max() > lim[1] - half - 6, 'CCDs cover the requested range', y=cd[:, 1], lim=lim)
