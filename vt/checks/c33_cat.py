'''C33: support structures of gratings.'''
import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.table import Table
from scipy.stats import binomtest, kstest

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import (rng_of, seeds, floats, logfloats, placements, place_kwargs, aimed_rays, photon_table, make_pos4d, rand_unit,
                    rand_rot, rotmat, perp_unit)
from vt.checks.c07_grating import oracle, HC
from vt.checks.c08_orders import eff_table, bilinear

from marxs.optics import OrderSelector
from marxs.simulator import Parallel
from marxs.missions.mitsnl import catgrating as cat
from marxs.missions.mitsnl.tolerances import OrderSelectorWavy, OrderSelectorTopHat, wiggle_and_bar_tilt

PMIN = 1e-10
LEN = ['mm', 'um', 'cm', 'nm', 'm']


def q(rng, mm):
    return (mm * u.mm).to(str(rng.choice(LEN)))


def dims(rng, period, frac, depth):
    return {'period': q(rng, period), 'barwidth': q(rng, period * frac), 'bardepth': q(rng, depth)}


def setup(rng, place, n, spread=1., maxang=.6, emin=.3, emax=8.):
    pos, d, target = aimed_rays(rng, n, place, spread=spread, maxang=maxang)
    if rng.uniform() < .3:   # from behind
        pos, d = 2 * target - pos, -d
    ph = photon_table(rng, pos, d, energy=rng.uniform(emin, emax, n))
    return ph, d, target


def local(place, target):
    t = target - place[0]
    return t @ place[1][:, 1], t @ place[1][:, 2]


def hits(place, target):
    y, z = local(place, target)
    fy, fz = np.abs(y) / place[2][1], np.abs(z) / place[2][2]
    return (fy <= 1) & (fz <= 1), np.minimum(np.abs(fy - 1), np.abs(fz - 1)) < 1e-9


def l2_open(dm, sinang):
    p, w, dep = (dm[k].to_value(u.mm) for k in ['period', 'barwidth', 'bardepth'])
    hexagon = p**2 * np.sqrt(3) / 2
    return np.clip((1 - w / p)**2 - dep * (p - w) * sinang / hexagon, 0, 1)


@sub('C33', dict(seed=seeds, place=placements(zlo=.1, zhi=50.), mat=st.booleans(), period=logfloats(1e-3, 10), frac=floats(.001, .99),
                 rdepth=logfloats(1e-3, 30), n=st.integers(1, 40)), quick=150, thorough=12000)
def coarse_support(seed, place, mat, period, frac, rdepth, n):
    rng = rng_of(seed)
    dm = dims(rng, period, frac, period * rdepth)
    ph, d, target = setup(rng, place, n, spread=1.2, maxang=1.4)
    if seed % 2:   # one ray with normal incidence
        dist = np.linalg.norm(target[0] - np.asarray(ph['pos'])[0, :3])
        d[0] = place[1][:, 0] * np.sign(d[0] @ place[1][:, 0])
        ph['dir'][0, :3] = d[0]
        ph['pos'][0, :3] = target[0] - dist * d[0]
        ph['polarization'][0, :3] = perp_unit(rng, d[:1])[0]
        label('normal incidence')
    before = ph.copy()
    hit, edge = hits(place, target)
    if edge.any():
        trivial()
        return
    el = cat.L2Abs(l2_dims=dm, **place_kwargs(place, mat))
    ph = el(ph)
    s = np.linalg.norm(np.cross(d, place[1][:, 0]), axis=1)
    want = np.asarray(before['probability']) * np.where(hit, l2_open(dm, s), 1)
    close(np.asarray(ph['probability']), want, 'fraction that passes the support', rtol=1e-7, atol=1e-9 + 3e-6 * (s < 1e-5))
    for c in before.colnames:
        if c not in ('probability', 'pos'):
            same(np.asarray(ph[c]), np.asarray(before[c]), f'{c} is not changed')
    # wider and deeper bars never pass more
    f = rng.uniform(1, 3)
    wide = cat.L2Abs(l2_dims=dims(rng, period, min(frac * f, .995), period * rdepth), **place_kwargs(place, mat))(before.copy())
    deep = cat.L2Abs(l2_dims=dims(rng, period, frac, period * rdepth * f), **place_kwargs(place, mat))(before.copy())
    # same shape in a different size: only ratios matter
    big = cat.L2Abs(l2_dims=dims(rng, period * f, frac, period * rdepth * f), **place_kwargs(place, mat))(before.copy())
    close(np.asarray(big['probability']), np.asarray(ph['probability']), 'only the ratio of lengths matters', rtol=1e-7, atol=1e-9 + 3e-6 * (s < 1e-5))
    ensure((np.asarray(deep['probability']) <= np.asarray(ph['probability']) + 1e-9).all(), 'deeper bars pass fewer photons')
    # the shadow is cast by the free area, so compare wider bars for the same depth only where the opening shrinks
    straight = s < 1e-12
    ensure((np.asarray(wide['probability'])[straight] <= np.asarray(ph['probability'])[straight] + 1e-9).all(), 'wider bars pass fewer photons')
    o = np.argsort(s[hit & (np.asarray(before['probability']) > 0)])
    r = (np.asarray(ph['probability']) / np.where(np.asarray(before['probability']) > 0, np.asarray(before['probability']), 1))
    r = r[hit & (np.asarray(before['probability']) > 0)][o]
    ensure((np.diff(r) <= 3e-6).all(), 'fewer photons pass at larger angles')
    label('everything is shadowed', (r == 0).any())
    trivial(not hit.any())


@sub('C33', dict(seed=seeds, what=st.sampled_from(['equal', 'larger', 'l2']), cls=st.sampled_from(['L1', 'L2Abs', 'L2Diffraction'])), quick=30, thorough=600)
def impossible_dimensions_are_refused(seed, what, cls):
    rng = rng_of(seed)
    f = 1. if what == 'equal' else rng.uniform(1.01, 3)
    p = rng.uniform(.001, 1)
    dm = {'period': p * u.mm, 'barwidth': p * f * u.mm, 'bardepth': 1 * u.um}
    with raises(ValueError, 'bars are as wide as the period'):
        if cls == 'L1':
            cat.L1(l1_dims=dm, order_selector=OrderSelector([1]))
        else:
            getattr(cat, cls)(l2_dims=dm)


@sub('C33', dict(seed=seeds, place=placements(zlo=.1), n=st.integers(1, 30), sig=floats(0, .3)), quick=60, thorough=4000)
def quality_factor(seed, place, n, sig):
    rng = rng_of(seed)
    dd = 10**rng.uniform(-5, -2)
    par = {'d': q(rng, dd), 'sigma': q(rng, sig * dd)}
    el = cat.QualityFactor(qualityfactor=par, **place_kwargs(place, True))
    ph, d, target = setup(rng, place, n, spread=1.3)
    hit, edge = hits(place, target)
    if edge.any():
        trivial()
        return
    order = rng.integers(-9, 10, n)
    if rng.random() < .4:
        order = rng.integers(-40, 41, n)
    ph['order'] = order
    before = ph.copy()
    p0 = np.asarray(ph['probability']).copy()
    ph = el(ph)
    want = p0 * np.where(hit, np.exp(-(2 * np.pi * sig * order)**2), 1)
    close(np.asarray(ph['probability']), want, 'photons are lost like exp(-(2 pi order sigma/d)^2)', rtol=1e-6, atol=1e-12)
    same(np.asarray(ph['order']), order, 'order')
    if n > 1:
        # default scaling
        el = cat.QualityFactor(**place_kwargs(place, True))
        before['probability'] = 1.
        ph = el(before)
        close(np.asarray(ph['probability']), np.where(hit, np.exp(-(2 * np.pi * 1.75 / 200 * order)**2), 1), 'default', rtol=1e-6)


def si_transmission(e, depth_um):
    t = cat.l1transtab
    en = np.asarray(t['energy'], dtype=float) / 1000
    with np.errstate(divide='ignore'):
        tr = np.where(np.asarray(t['transmission']) > 0, np.asarray(t['transmission'])**depth_um, 0)
    return np.interp(e, en, tr)


def frame(place, groove):
    ex, ey, n = place[1][:, 1], place[1][:, 2], place[1][:, 0]
    l = -np.sin(groove) * ex + np.cos(groove) * ey
    qq = np.cos(groove) * ex + np.sin(groove) * ey
    return n, l, qq


def diffract(p, place, groove, order, d, e):
    n, l, qq = frame(place, groove)
    k = len(p)
    out, kn2, pq, pl, pn = oracle(p, np.tile(n, (k, 1)), np.tile(l, (k, 1)), np.tile(qq, (k, 1)), order, HC / e, d, 'cat', True)
    return out, kn2


@sub('C33', dict(seed=seeds, place=placements(zlo=.1), groove=floats(-4, 4), period=logfloats(1e-3, 1e-1), frac=floats(.02, .98), depth=logfloats(1e-4, 1e-2)),
     quick=80, thorough=5000)
def cross_dispersing_support(seed, place, groove, period, frac, depth):
    rng = rng_of(seed)
    n = 600
    orders = np.array([-3, -1, 1, 2])[:int(rng.integers(1, 5))]
    p = rng.dirichlet(np.ones(len(orders))) * rng.uniform(.2, .999)
    dm = dims(rng, period, frac, depth)
    el = cat.L1(l1_dims=dm, order_selector=OrderSelector(orders, p=p), groove_angle=groove, **place_kwargs(place, True))
    ph, d, target = setup(rng, place, n, maxang=.7, emin=.1)
    before = ph.copy()
    np.random.seed(seed % 2**32)
    ph = el(ph)
    m = np.asarray(ph['order_L1'])
    e = np.asarray(before['energy'])
    bar = m == 0
    ensure(np.isin(m[~bar], orders).all(), 'orders come from the order selector')
    ensure(binomtest(int(bar.sum()), n, frac).pvalue > PMIN, 'fraction of photons that hits a bar', got=bar.mean(), want=frac)
    same(np.asarray(ph['dir'])[bar], np.asarray(before['dir'])[bar], 'photons in the bars are not diffracted')
    same(np.asarray(ph['polarization'])[bar], np.asarray(before['polarization'])[bar], 'photons in the bars keep their polarization')
    want = np.where(bar, si_transmission(e, depth * 1000), p.sum()) * np.asarray(before['probability'])
    close(np.asarray(ph['probability']), want, 'probability to pass', rtol=1e-6, atol=1e-12)
    out, kn2 = diffract(d, place, groove, m, period, e)
    close(np.asarray(ph['dir'])[:, :3], out, 'direction after diffraction', atol=1e-7)
    label('bars let some photons pass', (si_transmission(e, depth * 1000)[bar] > .01).any())
    with raises(ValueError, 'energies outside of the table for silicon'):
        for i in range(30):
            ph = before.copy()
            ph['energy'] = 1e4
            el(ph)


@sub('C33', dict(seed=seeds, place=placements(zlo=.1), period=logfloats(.01, 10), frac=floats(.01, .9)), quick=60, thorough=4000)
def broadening_of_coarse_support(seed, place, period, frac):
    rng = rng_of(seed)
    n = 8000
    dm = dims(rng, period, frac, period)
    el = cat.L2Diffraction(l2_dims=dm, **place_kwargs(place, True))
    ph, d, target = setup(rng, place, n, maxang=.5)
    before = ph.copy()
    np.random.seed(seed % 2**32)
    ph = el(ph)
    out = np.asarray(ph['dir'])[:, :3]
    e = np.asarray(before['energy'])
    free = period * (1 - frac)
    sig = 1.22 * .4 * np.arcsin(HC / e / free)
    ang = np.linalg.norm(np.cross(d, out), axis=1)
    ensure(kstest(ang / sig, 'halfnorm').pvalue > PMIN, 'angle follows the size of the opening', med=np.median(ang / sig))
    same(np.asarray(ph['probability']), np.asarray(before['probability']), 'no photons lost')
    close(np.linalg.norm(out, axis=1), np.ones(n), 'unit vectors', rtol=1e-9)
    a = rng_of(seed + 1).normal(size=3)
    b1 = np.cross(d, a / np.linalg.norm(a))
    b1 /= np.linalg.norm(b1, axis=1)[:, None]
    b2 = np.cross(d, b1)
    ph1 = np.arctan2(np.einsum('ij,ij->i', out - d, b1), np.einsum('ij,ij->i', out - d, b2))
    ensure(kstest((ph1 + np.pi) / (2 * np.pi), 'uniform').pvalue > PMIN, 'direction of the scatter is random')


@sub('C33', dict(seed=seeds, place=placements(zlo=.1), groove=st.one_of(st.none(), floats(-4, 4)), logd=floats(-3.9, -2.5), dflt=st.booleans(),
                 period=logfloats(2e-3, 1e-1), frac=floats(.05, .6), frac2=floats(.02, .6), rdepth=floats(.01, 2)), quick=80, thorough=6000)
def whole_facet(seed, place, groove, logd, dflt, period, frac, frac2, rdepth):
    rng = rng_of(seed)
    n = 300
    orders = np.sort(rng.choice(np.arange(-5, 4), int(rng.integers(1, 5)), replace=False))
    p = rng.dirichlet(np.ones(len(orders))) * rng.uniform(.2, .999)
    kw = {'order_selector': OrderSelector(orders, p=p), 'id_col': 'facet', 'id_num': 7}
    g = 0.
    if groove is not None:
        kw['groove_angle'] = g = groove
    if dflt:
        dgrat, sq = 2e-4, 1.75 / 200
        dm1 = {'bardepth': 4 * u.um, 'period': 5 * u.um, 'barwidth': .9 * u.um}
        dm2 = {'bardepth': .5 * u.mm, 'period': .9622504 * u.mm, 'barwidth': .096225 * u.mm}
        orders1 = np.arange(-4, 5)
        ptot1 = 1.
    else:
        dgrat = kw['d'] = 10**logd
        orders1 = np.array([-2, -1, 1])
        p1 = rng.dirichlet(np.ones(3)) * rng.uniform(.2, .999)
        ptot1 = p1.sum()
        kw['l1_order_selector'] = OrderSelector(orders1, p=p1)
        sq = rng.uniform(0, .05)
        kw['qualityfactor'] = {'d': q(rng, dgrat), 'sigma': q(rng, sq * dgrat)}
        dm1 = kw['l1_dims'] = dims(rng, period, frac, rng.uniform(.001, .01))
        p2 = rng.uniform(.3, 3)
        dm2 = kw['l2_dims'] = dims(rng, p2, frac2, p2 * rdepth)
    el = cat.CATL1L2Stack(**kw, **place_kwargs(place, True))
    ph, d, target = setup(rng, place, n, spread=1.3, maxang=.5)
    hit, edge = hits(place, target)
    if edge.any():
        trivial()
        return
    before = ph.copy()
    np.random.seed(seed % 2**32)
    ph = el(ph)
    for c in ['dir', 'probability', 'energy', 'polarization']:
        same(np.asarray(ph[c])[~hit], np.asarray(before[c])[~hit], f'{c} of photons that miss the grating')
    if not hit.any():
        trivial()
        return
    m, m1 = np.asarray(ph['order'])[hit], np.asarray(ph['order_L1'])[hit]
    ensure(np.isin(m, orders).all(), 'orders come from the order selector')
    ensure(np.isin(m1, np.append(orders1, 0)).all(), 'orders of the support come from its order selector')
    same(np.asarray(ph['facet']), np.where(hit, 7, -1), 'number of the facet')
    d, e = d[hit], np.asarray(before['energy'])[hit]
    k1, kn1 = diffract(d, place, g, m, dgrat, e)
    k2, kn2 = diffract(k1, place, g + np.pi / 2, m1, dm1['period'].to_value(u.mm), e)
    ok = (kn1 > 1e-3) & (kn2 > 1e-3)
    out = np.asarray(ph['dir'])[hit, :3]
    free = (dm2['period'] - dm2['barwidth']).to_value(u.mm)
    sig = 1.22 * .4 * np.arcsin(HC / e / free)
    ang = np.linalg.norm(np.cross(out, k2), axis=1)
    ensure((ang[ok] < 12 * sig[ok] + 1e-7).all(), 'direction after both diffractions', excess=(ang / sig)[ok].max() if ok.any() else 0)
    ensure((np.einsum('ij,ij->i', out, k2)[ok] > 0).all(), 'direction after both diffractions')
    if ok.sum() > 50 and sig[ok].min() > 1e-7 and sig[ok].max() < .05:
        ensure(kstest((ang / sig)[ok], 'halfnorm').pvalue > PMIN, 'blur by the holes of the L2 support', sig=sig[ok][:2])
    # first diffraction alone decides the component along the bars of L1
    sinang = np.linalg.norm(np.cross(k2, place[1][:, 0]), axis=1)
    tr = si_transmission(e, dm1['bardepth'].to_value(u.um))
    common = np.asarray(before['probability'])[hit] * p.sum() * np.exp(-(2 * np.pi * sq * m)**2) * l2_open(dm2, sinang)
    pr = np.asarray(ph['probability'])[hit]
    if dflt:
        a, b = common * ptot1, common * tr
        good = np.isclose(pr, a, rtol=1e-5, atol=1e-9) | ((m1 == 0) & np.isclose(pr, b, rtol=1e-5, atol=1e-9))
    else:
        good = np.isclose(pr, np.where(m1 == 0, common * tr, common * ptot1), rtol=1e-5, atol=1e-9)
    ensure(good[ok].all(), 'probability is the product for all layers', got=pr[ok & ~good][:3], want=common[ok & ~good][:3])
    if not dflt:
        ensure(binomtest(int((m1 == 0).sum()), len(m1), frac).pvalue > PMIN, 'fraction of photons that hits a bar')
    y, z = local(place, target)
    close(np.asarray(ph['grat_y'])[hit], y[hit], 'position on the grating', atol=1e-6 * (1 + np.abs(y).max()))
    close(np.asarray(ph['grat_z'])[hit], z[hit], 'position on the grating', atol=1e-6 * (1 + np.abs(z).max()))
    label('two-dimensional dispersion', (m * m1 != 0).any())


@sub('C33', dict(seed=seeds, n=st.integers(1, 40), col=st.booleans()), quick=40, thorough=2000)
def supports_between_facets(seed, n, col):
    rng = rng_of(seed)
    ph = photon_table(rng, rng.normal(size=(n, 3)), rand_unit(rng, n))
    if col:
        ph['facet'] = rng.integers(-1, 4, n)
    before = ph.copy()
    out = cat.catsupportbars(ph)
    want = np.where(np.asarray(before['facet']) < 0, 0, np.asarray(before['probability'])) if col else np.zeros(n)
    same(np.asarray(out['probability']), want, 'photons that miss all facets are absorbed')
    for c in before.colnames:
        if c != 'probability':
            same(np.asarray(out[c]), np.asarray(before[c]), f'{c} is not changed')


@sub('C33', dict(seed=seeds, kind=st.sampled_from(['wavy', 'tophat']), width=logfloats(1e-5, .02), zero=st.booleans()), quick=60, thorough=4000)
def uneven_bars(seed, kind, width, zero):
    '''Tables that are looked up for blaze angles with a random part. One order is linear in the angle, so that the
    angle used for the lookup can be read off.'''
    rng = rng_of(seed)
    w = np.array([.1, 1., 5.])
    th = np.linspace(-10, 10, 5)
    t = Table()
    t['wave'] = np.repeat(w, 5) * u.nm
    t['theta'] = np.tile(th, 3) * u.deg
    t['0'] = np.tile((th + 10) / 20, 3)
    t['-1'] = 1 - t['0']
    if zero:
        width = 0
    s = OrderSelectorWavy(wavysigma=width, tab=t) if kind == 'wavy' else OrderSelectorTopHat(tophatwidth=width, tab=t)
    n = 2000
    np.random.seed(seed % 2**32)
    blaze = rng.uniform(-.03, .03, n)
    b0 = blaze.copy()
    o, p = s.probabilities(rng.uniform(.3, 8, n), None, blaze)
    same(blaze, b0, 'input is unchanged')
    used = np.deg2rad(p[list(o).index(0)] * 20 - 10)
    diff = used - blaze
    if zero:
        close(diff, np.zeros(n), 'angle for the lookup', atol=1e-9)
        trivial()
        return
    x = diff / width
    sel = np.abs(used) < .17
    ensure(sel.all() if kind == 'tophat' else sel.mean() > .99, 'angle is in the table')
    if sel.all():
        pv = kstest(x, 'norm').pvalue if kind == 'wavy' else kstest(x + .5, 'uniform').pvalue
        ensure(pv > PMIN, 'distribution of angles', std=x.std(), mean=x.mean())
    a, b = s(np.full(n, 1.), None, blaze)
    close(b, np.ones(n), 'total probability', rtol=1e-6)
    ensure(np.isin(a, [0, -1]).all(), 'orders')


@sub('C33', dict(seed=seeds, n=st.integers(1, 6), tilt=logfloats(1e-4, .3)), quick=60, thorough=3000)
def tilted_bars(seed, n, tilt):
    '''Elements are rotated by the angle by which bars are tilted'''
    rng = rng_of(seed)
    ep = [make_pos4d(rng.uniform(-50, 50, 3), rand_rot(rng), rng.uniform(1, 10, 3)) for i in range(n)]

    def make():
        return Parallel(elem_class=cat.NonParallelCATGrating, elem_pos=ep,
                        elem_args={'d': 2e-4, 'order_selector': OrderSelector([-1, 0])})
    g = make()
    np.random.seed(seed % 2**32)
    wiggle_and_bar_tilt(g, max_bar_tilt=tilt)
    t = np.array([e.blaze_center for e in g.elements])
    ensure((np.abs(t) <= tilt).all(), 'largest tilt')
    ensure(n == 1 or len(set(t)) == n, 'every element has its own tilt')
    for e, p, x in zip(g.elements, ep, t):
        z = np.linalg.norm(p[:3, :3], axis=0)
        R0, R1 = p[:3, :3] / z, e.pos4d[:3, :3] / np.linalg.norm(e.pos4d[:3, :3], axis=0)
        close(e.pos4d[:3, 3], p[:3, 3], 'center stays in place', atol=1e-9)
        close(np.linalg.norm(e.pos4d[:3, :3], axis=0), z, 'size', rtol=1e-9)
        D = R0.T @ R1
        ang = np.arccos(np.clip((np.trace(D) - 1) / 2, -1, 1))
        close(ang, abs(x), 'element is rotated by the tilt of the bars', atol=1e-7)
        # bars are parallel to the y-axis of the structure (see DESIGN.md)
        G = R1 @ R0.T
        close(G, rotmat([0, 1, 0], -x), 'rotation around the y-axis of the structure', atol=1e-9)
    # with random positions on top of that
    np.random.seed(seed % 2**32)
    wiggle_and_bar_tilt([g], dx=.1, rz=.01, max_bar_tilt=tilt)
    ensure(all(np.abs(e.pos4d[:3, 3] - p[:3, 3]).max() > 0 for e, p in zip(g.elements, ep)), 'elements move')


@sub('C33', dict(seed=seeds, k=st.integers(0, 1)), quick=10, thorough=200)
def default_support_orders(seed, k):
    '''Diffraction by the fine support: mostly in order 0, symmetric and normalised'''
    from marxs.missions.lynx import lynx
    sel = [cat.l1_order_selector, lynx.l1_order_selector][k]
    rng = rng_of(seed)
    n = 20000
    np.random.seed(rng.integers(2**31))
    order, p = sel(np.full(n, rng.uniform(.2, 2)))
    order = np.asarray(order)
    ensure(np.all(np.isin(order, np.arange(-4, 5))), 'orders', got=np.unique(order))
    ensure(np.mean(order == 0) > .75, 'most photons are not diffracted')
    ensure(abs(np.mean(order)) < 8 * np.std(order) / np.sqrt(n), 'symmetric', mean=np.mean(order))
    for m in range(1, 5):
        a, b = np.sum(order == m), np.sum(order == -m)
        ensure(abs(a - b) < 8 * np.sqrt(a + b + 1), 'symmetric', m=m, plus=a, minus=b)
        ensure(a + b > 0, 'all orders are used', m=m)
    close(p, np.full(n, p[0]), 'probability')
    ensure(.98 < p[0] <= 1, 'probability', p=p[0])
