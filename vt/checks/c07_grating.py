'''C07: the grating equation as a vector oracle.'''
import numpy as np
from hypothesis import strategies as st
import astropy.constants as const
import astropy.units as u

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import rng_of, seeds, floats, logfloats, placements, make_pos4d, rotmat, photon_table, rand_unit, place_kwargs
from vt.instr import beam, place_ahead

from marxs import optics, energy2wave
from marxs.math.geometry import Cylinder
from marxs.missions.mitsnl.catgrating import NonParallelCATGrating

HC = (const.h * const.c).to(u.keV * u.mm).value


class Fixed:
    '''Order selector that hands out prescribed orders and records what it is given.'''
    def __init__(self, orders, probs):
        self.orders, self.probs = orders, probs

    def __call__(self, energy, pol, blaze):
        self.got = (np.array(energy), np.array(pol), np.array(blaze))
        n = len(energy)
        return self.orders[:n], self.probs[:n]


@sub('C07')
def constant():
    close(energy2wave, HC, 'energy to wavelength constant', rtol=1e-6)


def oracle(p, n, l, q, order, wave, d, conv, transmission):
    '''Outgoing direction; l: groove direction, q: direction across the grooves (in surface).'''
    pq = np.einsum('ij,ij->i', p, q)
    pl = np.einsum('ij,ij->i', p, l)
    pn = np.einsum('ij,ij->i', p, n)
    if conv == 'flat':
        kq = pq + order * wave / d
    else:
        # negative orders are those on the blazed side, i.e. the side that a ray
        # reflected from the side walls of the bars would take
        kq = pq + np.where(pq >= 0, 1, -1) * order * wave / d
    kn2 = 1 - kq**2 - pl**2
    out = kq[:, None] * q + pl[:, None] * l + (np.sign(pn) * (1 if transmission else -1)
                                              * np.sqrt(np.clip(kn2, 0, None)))[:, None] * n
    return out, kn2, pq, pl, pn


@sub('C07', dict(seed=seeds, n=st.integers(1, 40), place=placements(), groove=floats(-7, 7),
                 logd=floats(-6, -1), var=st.booleans(), transmission=st.booleans(),
                 cls=st.sampled_from(['flat', 'cat', 'nonpar']), energy=st.sampled_from(['uniform', 'low', 'one', 'wide']),
                 grazing=st.booleans()),
     quick=500, thorough=12000)
def grating_equation(seed, n, place, groove, logd, var, transmission, cls, energy, grazing):
    rng = rng_of(seed)
    c, R, z = place
    # rays aimed at the facet; all incidence angles including grazing ones
    tgt = rng.uniform(-.95, .95, (n, 2)) * z[1:]
    target = c + tgt[:, :1] * R[:, 1] + tgt[:, 1:] * R[:, 2]
    cosa = rng.uniform(0.005 if grazing else 0.2, 1, n)
    phi = rng.uniform(0, 2 * np.pi, n)
    sina = np.sqrt(1 - cosa**2)
    # some of them (almost) along the normal
    near = rng.random(n) < rng.choice([0, .3, 1])
    sina[near] = 10**rng.uniform(-8, -1, near.sum())
    cosa[near] = np.sqrt(1 - sina[near]**2)
    # from one side or both
    cosa *= rng.choice([-1, 1]) if rng.random() < .5 else rng.choice([-1, 1], n)
    p = cosa[:, None] * R[:, 0] + (sina * np.cos(phi))[:, None] * R[:, 1] + (sina * np.sin(phi))[:, None] * R[:, 2]
    L = rng.uniform(1, 100, n)
    en = {'uniform': rng.uniform(0.2, 10, n), 'low': rng.uniform(0.05, .5, n), 'one': np.full(n, 1.), 'wide': 10**rng.uniform(-3, 2, n)}[energy]
    t = photon_table(rng, target - L[:, None] * p, p, energy=en)
    orders = rng.integers(-6, 7, n)
    probs = rng.uniform(0, 1, n)
    sel = Fixed(orders, probs)
    d0 = 10.**logd
    if var:
        s = rng.uniform(-.3, .3, 2) / z[1:]
        calls = []

        def dfunc(coos):
            calls.append(np.array(coos))
            return d0 * (1 + coos @ s)
        d = d0 * (1 + tgt @ s)
        dd = dfunc
    else:
        d = np.full(n, d0)
        dd = d0
    kw = dict(order_selector=sel, d=dd, groove_angle=groove, transmission=transmission)
    if rng.random() < .25:      # default: grooves along e_z
        del kw['groove_angle']
        groove = 0.
    if transmission and rng.random() < .3:
        del kw['transmission']
    if cls == 'flat':
        g = optics.FlatGrating(**kw, **place_kwargs(place, True))
    elif cls == 'cat':
        g = optics.CATGrating(**kw, **place_kwargs(place, True))
    else:
        kw['d_blaze_mm'] = db = rng.uniform(-1e-3, 1e-3)
        kw['blaze_center'] = b0 = rng.uniform(-.1, .1)
        g = NonParallelCATGrating(**kw, **place_kwargs(place, True))
    before = t.copy()
    t = g(t)
    Rg = rotmat(R[:, 0], groove)
    l = np.tile(Rg @ R[:, 2], (n, 1))
    q = np.tile(Rg @ R[:, 1], (n, 1))
    nn = np.tile(R[:, 0], (n, 1))
    wave = HC / en
    out, kn2, pq, pl, pn = oracle(p, nn, l, q, orders, wave, d, 'flat' if cls == 'flat' else 'cat', transmission)
    ok = kn2 > 1e-7
    if cls != 'flat':
        ok &= np.abs(pq) > 1e-9
    lost = kn2 < -1e-7
    trivial(not (ok & (orders != 0)).any())
    label('evanescent', lost.any())
    label('varying period', var)
    got = np.asarray(t['dir'])
    tol = 1e-9 + 1e-6 * np.abs(orders) * wave / d / np.sqrt(np.where(ok, kn2, 1))
    tol += 1e-12 * (np.abs(c).max() + 200) / np.abs(cosa) / z[1:].min() * np.abs(orders) * wave / d * 10 / np.sqrt(np.where(ok, kn2, 1))
    err = np.linalg.norm(got[:, :3] - out, axis=1)
    bad = ok & ~(err <= tol)
    ensure(not bad.any(), 'direction of the diffracted photon violates the grating equation',
           order=orders[bad], got=got[bad], expected=out[bad], period=d[bad], energy=en[bad])
    close(np.asarray(t['order']).astype(float), orders.astype(float), 'recorded order', atol=0)
    # blaze angle: angle between normal and the ray projected perpendicular to the grooves
    blaze = np.arctan2(np.abs(pq), np.abs(pn))
    if cls == 'nonpar':
        blaze = blaze + b0 + db * tgt[:, 0]
    close(np.asarray(t['blaze']), blaze, 'recorded blaze angle', atol=1e-7, rtol=1e-7)
    same(sel.got[2], np.asarray(t['blaze']), 'blaze angle seen by the order selector')
    same(sel.got[0], en, 'energy seen by the order selector')
    # survival
    close(np.asarray(t['probability'])[ok], (np.asarray(before['probability']) * probs)[ok], 'probability', atol=1e-15)
    ensure(np.all(np.asarray(t['probability'])[lost] == 0), 'evanescent orders carry no photons')
    # same or other side
    side = np.einsum('ij,ij->i', got[:, :3], nn) * pn
    m = kn2 > 1e-6
    ensure(np.all(side[m] > 0) if transmission else np.all(side[m] < 0), 'photon on the wrong side of the grating')
    z0 = (orders == 0)
    if transmission:
        close(got[z0, :3], p[z0], 'order zero changes the direction', atol=1e-9)


@sub('C07', dict(seed=seeds, n=st.integers(1, 30), place=placements(zlo=0.5, zhi=30), groove=floats(-7, 7),
                 logd=floats(-5, -2), cls=st.sampled_from(['flat', 'cat'])), quick=150, thorough=3000)
def curved_grating(seed, n, place, groove, logd, cls):
    '''Gratings on a cylindrical surface: the local surface directions enter.'''
    c, R, z = place
    z = np.array([z[0], z[0], z[2]])
    rng = rng_of(seed)
    phi = rng.uniform(-np.pi, np.pi, n)
    zz = rng.uniform(-.9, .9, n) * z[2]
    o = np.zeros(n)
    nn = np.stack([np.cos(phi), np.sin(phi), o], axis=1) @ R.T
    ep = np.stack([-np.sin(phi), np.cos(phi), o], axis=1) @ R.T
    ez = np.tile(R[:, 2], (n, 1))
    target = c + (np.stack([z[0] * np.cos(phi), z[0] * np.sin(phi), zz], axis=1)) @ R.T
    p = rand_unit(rng, n)
    # make sure that they come from the inside (first crossing) or from the outside
    pn = np.einsum('ij,ij->i', p, nn)
    shallow = np.abs(pn) < 0.1
    p[shallow] = nn[shallow]
    pn = np.einsum('ij,ij->i', p, nn)
    # start just before the wall so that this is the first crossing
    t = photon_table(rng, target - 0.05 * z[0] * np.abs(pn)[:, None] * p, p)
    orders = rng.integers(-4, 5, n)
    d = 10.**logd
    klass = optics.FlatGrating if cls == 'flat' else optics.CATGrating
    g = klass(order_selector=Fixed(orders, np.ones(n)), d=d, groove_angle=groove,
              geometry=Cylinder(place_kwargs((c, R, z), True)))
    t = g(t)
    e = np.asarray(t['energy'])
    ok = ~np.isnan(np.asarray(t['order']))
    trivial(not ok.all())
    if not ok.all():
        return
    l = -np.sin(groove) * ep + np.cos(groove) * ez
    q = np.cos(groove) * ep + np.sin(groove) * ez
    out, kn2, pq, pl, pn = oracle(p, nn, l, q, orders, HC / e, d, cls, True)
    m = (kn2 > 1e-4) & ((np.abs(pq) > 1e-6) | (cls == 'flat'))
    close(np.asarray(t['dir'])[m, :3], out[m], 'grating equation on a curved surface', atol=3e-5)


@sub('C07', dict(seed=seeds, place=placements(), groove=floats(-4, 4), e=logfloats(0.2, 10), m=st.integers(1, 8)),
     quick=100, thorough=2000)
def orders_are_antisymmetric(seed, place, groove, e, m):
    '''At normal incidence +m and -m leave symmetrically; FlatGrating: positive orders go to +e_perp.'''
    c, R, z = place
    rng = rng_of(seed)
    d = m * HC / e * rng.uniform(1.1, 100)
    p = np.tile(-R[:, 0], (2, 1))
    off = (R[:, 1] * z[1] * rng.uniform(-.9, .9) + R[:, 2] * z[2] * rng.uniform(-.9, .9))
    t = photon_table(rng, c + off - 5 * p, p, energy=np.array([e, e]))
    g = optics.FlatGrating(order_selector=Fixed(np.array([m, -m]), np.ones(2)), d=d, groove_angle=groove,
                           **place_kwargs(place, True))
    t = g(t)
    q = rotmat(R[:, 0], groove) @ R[:, 1]
    dd = np.asarray(t['dir'])[:, :3]
    close(dd @ q, np.array([1, -1]) * m * HC / e / d, 'sin of the diffraction angle', atol=1e-6)
    close(dd @ R[:, 0], np.full(2, -np.sqrt(1 - (m * HC / e / d)**2)), 'normal component', atol=1e-5)


@sub('C07', dict(seed=seeds, cls=st.sampled_from(['cat', 'nonpar', 'flat']), n=st.integers(1, 20)), quick=60, thorough=1000)
def perpendicular_incidence(seed, cls, n):
    '''Photons that arrive exactly along the normal are diffracted to both sides by the same angle'''
    rng = rng_of(seed)
    d = 10**rng.uniform(-4, -3)
    orders = rng.integers(-5, 6, n)
    sel = Fixed(orders, np.ones(n))
    kw = dict(order_selector=sel, d=d, zoom=[1, 10, 10])
    if cls == 'flat':
        g = optics.FlatGrating(**kw)
    elif cls == 'cat':
        g = optics.CATGrating(**kw)
    else:
        g = NonParallelCATGrating(d_blaze_mm=rng.uniform(-1e-3, 1e-3), blaze_center=0., **kw)
    en = rng.uniform(.3, 5, n)
    s = rng.choice([-1., 1.])
    y = rng.uniform(-9, 9, (n, 2))
    p = np.tile([s, 0, 0], (n, 1))
    t = g(photon_table(rng, np.column_stack([np.full(n, -5 * s), y]), p, energy=en))
    out = np.asarray(t['dir'])[:, :3]
    wave = HC / en
    ok = np.abs(orders) * wave / d < .99
    trivial(not (ok & (orders != 0)).any())
    close(np.abs(out[ok, 1]), (np.abs(orders) * wave / d)[ok], 'diffraction angle', rtol=1e-5, atol=1e-12)
    close(out[ok, 2], np.zeros(ok.sum()), 'no dispersion along the grooves', atol=1e-12)
    # one convention for the sign for all photons
    m = ok & (orders != 0)
    sg = np.sign(out[m, 1] * orders[m])
    ensure(len(set(sg)) <= 1, 'positive and negative orders go to opposite sides', sign=sg, order=orders[m])
