'''C34: bending and chirping gratings.'''
import numpy as np
from hypothesis import strategies as st
import astropy.units as u

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import (rng_of, seeds, floats, logfloats, placements, make_pos4d, photon_table, rand_rot, rotmat, h, perp_unit)
from vt.checks.c07_grating import oracle, HC

from marxs.optics import FlatGrating, CATGrating, OrderSelector, FlatDetector
from marxs.missions.mitsnl import catgrating as snl
from marxs.design.bendgratings import bend_gratings, NumericalChirpFinder, BendNumericalChirpFinder, chirp_gratings

CLS = {'flat': FlatGrating, 'cat': CATGrating, 'stack': snl.CATL1L2Stack}


def make(kind, place, orders, d, groove, dct={}):
    kw = {'order_selector': OrderSelector(orders), 'd': d, 'groove_angle': groove, 'pos4d': make_pos4d(*place), **dct}
    if kind == 'stack':
        # make the support invisible
        dm = {'period': 1e3 * u.mm, 'barwidth': 1e-9 * u.mm, 'bardepth': 1e-9 * u.mm}
        kw.update(l1_dims=dm, l2_dims=dm, l1_order_selector=OrderSelector([0]), qualityfactor={'d': 1 * u.um, 'sigma': 0 * u.um})
    return CLS[kind](**kw)


def sheet(place, radius, p, d):
    '''First intersection of rays with a sheet bent to a cylinder; returns hit, phi, z, point, ambiguous'''
    pos, R, zoom = place
    axis = pos - radius * R[:, 0]
    dphi = np.arctan(zoom[1] / radius)
    x, v = (p - axis) @ R, d @ R
    a = (v[:, :2]**2).sum(axis=1)
    b = 2 * (x[:, :2] * v[:, :2]).sum(axis=1)
    c = (x[:, :2]**2).sum(axis=1) - radius**2
    disc = b**2 - 4 * a * c
    n = len(p)
    best = np.full(n, np.inf)
    edge = np.abs(disc) < 1e-6 * b**2
    sq = np.sqrt(np.clip(disc, 0, None))
    out = np.full((n, 2), np.nan)
    for s in [-1, 1]:
        t = (-b + s * sq) / (2 * a)
        y = x + t[:, None] * v
        phi = np.arctan2(y[:, 1], y[:, 0])
        ok = (disc > 0) & (t >= 0) & (np.abs(phi) <= dphi) & (np.abs(y[:, 2]) <= zoom[2])
        edge |= (disc > 0) & (np.abs(np.abs(phi) / dphi - 1) < 1e-6) | (disc > 0) & (np.abs(np.abs(y[:, 2]) / zoom[2] - 1) < 1e-9)
        edge |= (disc > 0) & (np.abs(t) < 1e-6 * radius)
        ok &= t < best
        best[ok] = t[ok]
        out[ok] = np.stack([phi, y[:, 2]], axis=1)[ok]
    hit = np.isfinite(best)
    best[~hit] = 0
    return hit, out[:, 0], out[:, 1], p + best[:, None] * d, edge


@sub('C34', dict(seed=seeds, place=placements(zlo=.5, zhi=30.), kind=st.sampled_from(list(CLS)), groove=floats(-4, 4), rr=logfloats(1.5, 1000),
                 inside=st.booleans(), nel=st.integers(1, 3)), quick=150, thorough=10000)
def bent_grating(seed, place, kind, groove, rr, inside, nel):
    rng = rng_of(seed)
    orders = np.array([-3, -1, 0, 2])
    d = 10**rng.uniform(-4, -3)
    radius = rr * place[2][1]
    pos, R, zoom = place
    g = make(kind, place, orders, d, groove, {'id_col': 'grat', 'id_num': 5})
    others = [make(kind, (rng.uniform(-10, 10, 3), rand_rot(rng), rng.uniform(1, 5, 3)), orders, d, groove) for i in range(nel - 1)]
    cls_display = dict(CLS[kind].display)
    sel = (g.elements[0] if kind == 'stack' else g).order_selector
    bend_gratings(others[:1] + [g] + others[1:], radius)
    same(dict(CLS[kind].display), cls_display, 'other gratings of the class are not changed')
    ensure((g.elements[0] if kind == 'stack' else g).order_selector is sel, 'order selector stays')
    # rays
    n = 60
    dphi = np.arctan(zoom[1] / radius)
    phi, z = rng.uniform(-1.4, 1.4, n) * dphi, rng.uniform(-1.3, 1.3, n) * zoom[2]
    axis = pos - radius * R[:, 0]
    nrm = np.cos(phi)[:, None] * R[:, 0] + np.sin(phi)[:, None] * R[:, 1]
    target = axis + radius * nrm + z[:, None] * R[:, 2]
    ang = rng.uniform(0, .5, n)
    v = np.cos(ang)[:, None] * nrm + np.sin(ang)[:, None] * perp_unit(rng, nrm)
    if not inside:
        v = -v
    p = target - v * rng.uniform(.01, .5, n)[:, None] * radius
    # one ray through the center
    v[0] = R[:, 0] * (1 if inside else -1)
    p[0] = pos - v[0] * radius * .1
    ph = photon_table(rng, p, v, energy=rng.uniform(.5, 8, n))
    before = ph.copy()
    hit, lphi, lz, point, edge = sheet(place, radius, p, v)
    np.random.seed(seed % 2**32)
    ph = g(ph)
    if edge[1:].any():
        trivial()
        return
    got = np.asarray(ph['grat']) == 5
    same(got, hit, 'rays hit the bent sheet, which covers the flat grating as seen from the axis')
    ensure(hit[0], 'center stays in place')
    for c in ['pos', 'dir', 'probability', 'polarization']:
        same(np.asarray(ph[c])[~hit], np.asarray(before[c])[~hit], f'{c} of photons that miss')
    close(np.asarray(ph['pos'])[hit, :3], point[hit], 'position on the bent surface', atol=1e-8 * radius * 10 + 1e-7)
    close(np.asarray(ph['pos'])[0, :3], pos, 'center stays in place', atol=1e-8 * radius * 10 + 1e-7)
    m = np.asarray(ph['order'])[hit]
    ensure(np.isin(m, orders).all(), 'orders')
    f = lphi[hit]
    er = np.cos(f)[:, None] * R[:, 0] + np.sin(f)[:, None] * R[:, 1]
    ep = -np.sin(f)[:, None] * R[:, 0] + np.cos(f)[:, None] * R[:, 1]
    ez = np.tile(R[:, 2], (hit.sum(), 1))
    l = -np.sin(groove) * ep + np.cos(groove) * ez
    q = np.cos(groove) * ep + np.sin(groove) * ez
    out, kn2, pq, pl, pn = oracle(v[hit], er, l, q, m, HC / np.asarray(before['energy'])[hit], d, 'flat' if kind == 'flat' else 'cat', True)
    ok = (kn2 > 1e-6) & ((np.abs(pq) > 1e-8) | (kind == 'flat'))
    close(np.asarray(ph['dir'])[hit, :3][ok], out[ok], 'direction follows the grating equation with the local normal and grooves',
          atol=1e-5 if kind == 'stack' else 1e-6)
    prob = np.asarray(before['probability'])[hit]
    close(np.asarray(ph['probability'])[hit][ok], prob[ok], 'probability', atol=1e-6)
    label('strongly bent', rr < 5)
    trivial(hit.sum() < 2)


def spectrograph(rng, kind, bent, scale=1.):
    '''A grating in a converging beam (focus in the origin) and a detector that covers the focal plane'''
    F = 10**rng.uniform(3, 4.2)
    R0 = rand_rot(rng)
    tilt = rotmat(rng.normal(size=3), rng.uniform(0, .01))
    if kind == 'cat':
        # tilt in the blaze direction, so that rays on all parts of the grating (in a beam with an opening angle < 3e-3)
        # are on the same side of the normal, because that sets the sign of the orders
        tilt = rotmat([0, 0, 1], rng.choice([-1, 1]) * rng.uniform(.02, .06)) @ tilt
    size = rng.uniform(5, 30, 3) * F / 1e4
    place = (F * R0[:, 0], R0 @ tilt, size)
    d = 2e-4 * 10**rng.uniform(-.1, .7)
    g = make(kind, place, [0], d, 0.)
    det = FlatDetector(pos4d=make_pos4d(-R0[:, 0] * rng.uniform(0, F / 100), R0 @ rotmat(rng.normal(size=3), rng.uniform(0, .05)), [1, F, F]),
                       pixsize=1., ignore_pixel_warning=True)
    rad = None
    if bent:
        rad = F * rng.uniform(.7, 1.5)
        bend_gratings([g], rad)
    return F, place, g, det, d, rad


def trace(rng, g, det, place, uu, vv, energy, order, bent, rad):
    pos, R, zoom = place
    n = len(uu)
    if bent:
        f = uu * np.arctan(zoom[1] / rad)
        x = pos - rad * R[:, 0] + rad * (np.cos(f)[:, None] * R[:, 0] + np.sin(f)[:, None] * R[:, 1]) + (vv * zoom[2])[:, None] * R[:, 2]
    else:
        x = pos + (uu * zoom[1])[:, None] * R[:, 1] + (vv * zoom[2])[:, None] * R[:, 2]
    ph = photon_table(rng, 1.05 * x, -x, energy=np.full(n, energy), prob=np.ones(n))
    old = g.order_selector
    g.order_selector = OrderSelector([order])
    ph = det(g(ph))
    g.order_selector = old
    return np.asarray(ph['det_x'], dtype=float)


@sub('C34', dict(seed=seeds, kind=st.sampled_from(['flat', 'cat']), bent=st.booleans(), nu=st.sampled_from([None, 3, 5, 7]), order=st.sampled_from([-6, -3, -1, 1, 2, 5]),
                 again=st.booleans(), nother=st.integers(0, 2)), quick=24, thorough=800, hang=120)
def chirped_grating(seed, kind, bent, nu, order, again, nother):
    rng = rng_of(seed)
    F, place, g, det, d, rad = spectrograph(rng, kind, bent)
    pix = rng.choice([1., F])      # coordinates in mm or relative to the size of the instrument
    det.pixsize, det.centerpix = pix, [0, 0]
    # gratings of other sizes, chirped in the same call
    gs = [g]
    for i in range(nother):
        pl = (place[0], place[1] @ rotmat([0, 0, 1], rng.uniform(-.01, .01)), place[2] * rng.uniform(.3, 1, 3))
        o = make(kind, pl, [0], d, 0.)
        if bent:
            bend_gratings([o], rad)
        gs.append(o)
    gs = [gs[i] for i in rng.permutation(len(gs))]
    # m lambda / d up to about 0.15
    s = rng.uniform(.01, .15)
    energy = HC * abs(order) / (s * d)
    cls = BendNumericalChirpFinder if bent else NumericalChirpFinder
    opt = cls(det, order, energy, d=d, colname='detpix_x')
    sel = OrderSelector([-1, 1]) if again else g.order_selector
    kw = {} if nu is None else {'uarray': np.linspace(-.999, .999, nu)}
    if again:
        chirp_gratings([g], opt, d, **kw)
        g.order_selector = sel
    pos4d = np.array(g.pos4d)
    plain_uu = np.linspace(-.99, .99, 9)
    old_d = g._d
    g._d = d
    plain = trace(rng, g, det, place, plain_uu, np.zeros(9), energy, order, bent, rad)
    center = trace(rng, g, det, place, np.zeros(1), np.zeros(1), energy, order, bent, rad)[0]
    g._d = old_d
    chirp_gratings(gs, opt, d, **kw)
    ensure(g.order_selector is sel, 'order selector stays as it was')
    same(np.array(g.pos4d), pos4d, 'grating stays in place')
    nodes = np.array([-.999, 0, .999]) if nu is None else kw['uarray']
    tol = 1e-6 * F * s + 1e-5
    got = trace(rng, g, det, place, nodes, np.zeros(len(nodes)), energy, order, bent, rad)
    close(got, np.full(len(nodes), center), 'rays arrive where the central ray does', atol=tol)
    between = trace(rng, g, det, place, plain_uu, np.zeros(9), energy, order, bent, rad)
    before = np.abs(plain - center).max()
    ensure(np.abs(between - center).max() < .05 * before + tol, 'rays between the positions that were optimised', before=before,
           after=np.abs(between - center).max())
    # the same place for another order at the energy where it falls on the same place
    k = 2
    g2 = trace(rng, g, det, place, nodes, np.zeros(len(nodes)), energy * k, order * k, bent, rad)
    close(g2, got, 'all orders with the same order times wavelength', atol=tol)
    gz = trace(rng, g, det, place, np.zeros(1), np.zeros(1), energy, 0, bent, rad)
    label('chirp matters', before > 10 * tol)
    trivial(before <= tol)
    # period is smooth and positive
    x = np.linspace(-1, 1, 21) * (np.arctan(place[2][1] / rad) if bent else place[2][1])
    dd = g.d(np.stack([x, np.zeros(21)], axis=1))
    ensure(dd.shape == (21,) and (np.abs(dd / d - 1) < .1).all(), 'period')
