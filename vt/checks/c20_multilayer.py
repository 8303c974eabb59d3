'''C20: flat mirrors.'''
import os
import numpy as np
from hypothesis import strategies as st

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import rand_unit, rng_of, seeds, floats, logfloats, placements, place_kwargs, photon_table, aimed_rays, rotmat, unit_vectors, positions

from marxs.optics import FlatBrewsterMirror
from marxs.optics.multiLayerMirror import MultiLayerMirror, MultiLayerEfficiency


def fresnel_mirror(fs, fp):
    class Mirror(FlatBrewsterMirror):
        def fresnel(self, photons, intersect, interpos, local):
            e = np.asarray(photons['energy'])[intersect]
            ca = np.abs(np.asarray(photons['dir'])[intersect][:, :3] @ self.geometry['e_x'][:3])
            return fs(e, ca), fp(e, ca)
    return Mirror


def rays(rng, place, n, style):
    pos, rot, zoom = place
    p, d, target = aimed_rays(rng, n, place, maxang=None)
    if style == 'normal':
        k = rng.random(n) < .5
        d[k] = -rot[:, 0] * rng.choice([1, -1], k.sum())[:, None]
        p = target - rng.uniform(1, 300, n)[:, None] * d
    if style == 'near':         # almost along the normal
        x = rand_unit(rng, n) * 10**rng.uniform(-5, -.5, (n, 1))
        d = rot[:, 0] * rng.choice([1, -1], n)[:, None] + x - (x @ rot[:, 0])[:, None] * rot[:, 0]
        d /= np.linalg.norm(d, axis=1)[:, None]
        p = target - rng.uniform(1, 300, n)[:, None] * d
    t = photon_table(rng, p, d)
    if style == 'pure':         # pure s or p polarization
        v = np.cross(d, rot[:, 0])
        v /= np.linalg.norm(v, axis=1)[:, None]
        k = rng.random(n) < .5
        v[k] = np.cross(d, v)[k]
        k = rng.random(n) < .7
        t['polarization'][k, :3] = v[k]
    loc = (target - pos) @ rot[:, 1:]
    hit = np.all(np.abs(loc) < zoom[1:] * (1 - 1e-9), axis=1)
    miss = np.any(np.abs(loc) > zoom[1:] * (1 + 1e-9), axis=1)
    return t, loc, hit, miss


@sub('C20', dict(place=placements(zlo=.5, zhi=300.), mat=st.booleans(), style=st.sampled_from(['random', 'normal', 'pure', 'near']),
                 refl=st.sampled_from(['brewster', 'const', 'func', 'equal', 'perfect', 'ponly']), n=st.integers(1, 40), seed=seeds), quick=250, thorough=8000)
def reflection(place, mat, style, refl, n, seed):
    rng = rng_of(seed)
    t, loc, hit, miss = rays(rng, place, n, style)
    if not hit.any():
        trivial()
        return
    a, b = rng.uniform(0, 1, 2)
    if refl == 'brewster':
        fs, fp = (lambda e, c: 1.), (lambda e, c: 0.)
        cls = FlatBrewsterMirror
    else:
        fs, fp = {'const': (lambda e, c: a, lambda e, c: b), 'equal': (lambda e, c: a, lambda e, c: a),
                  'perfect': (lambda e, c: 1., lambda e, c: 1.), 'ponly': (lambda e, c: 0., lambda e, c: b),
                  'func': (lambda e, c: np.exp(-a * e) * (1 - .5 * c), lambda e, c: np.exp(-b * e) * c)}[refl]
        cls = fresnel_mirror(fs, fp)
    before = t.copy()
    t = cls(**place_kwargs(place, mat))(t)
    pos, rot, zoom = place
    nv = rot[:, 0]
    for c in ('energy', 'time', 'mytag'):
        same(t[c], before[c], c)
    for c in ('dir', 'pos', 'polarization', 'probability'):
        same(np.asarray(t[c])[miss], np.asarray(before[c])[miss], f'{c} of photons that miss')
    d0, d1 = np.asarray(before['dir'])[hit][:, :3], np.asarray(t['dir'])[hit][:, :3]
    q0, q1 = np.asarray(before['polarization'])[hit][:, :3], np.asarray(t['polarization'])[hit][:, :3]
    p0, p1 = np.asarray(before['probability'])[hit], np.asarray(t['probability'])[hit]
    close(d1, d0 - 2 * (d0 @ nv)[:, None] * nv, 'law of reflection', atol=1e-9)
    same(np.asarray(t['dir'])[hit][:, 3], np.zeros(hit.sum()), 'direction')
    s = np.cross(d0, nv)
    sn = np.linalg.norm(s, axis=1)
    ok = sn > 1e-5
    s[~ok] = rot[:, 1]
    s /= np.linalg.norm(s, axis=1)[:, None]
    pin, pout = np.cross(d0, s), np.cross(d1, s)
    es, ep = np.sum(q0 * s, axis=1), np.sum(q0 * pin, axis=1)
    e, ca = np.asarray(before['energy'])[hit], np.abs(d0 @ nv)
    Rs, Rp = fs(e, ca) + np.zeros(len(e)), fp(e, ca) + np.zeros(len(e))
    want = Rs * es**2 + Rp * ep**2
    # at normal incidence s and p are not defined: only possible to check if they are equal
    m = ok | (np.abs(Rs - Rp) < 1e-12)
    close(p1[m], (p0 * want)[m], 'reflected probability', atol=1e-9)
    ensure(np.all((p1 >= 0) & (p1 <= p0 + 1e-12)), 'probability in range', got=p1)
    lo, hi = np.minimum(Rs, Rp), np.maximum(Rs, Rp)
    ensure(np.all((p1 >= p0 * lo - 1e-9) & (p1 <= p0 * hi + 1e-9)), 'probability between that of s and p')
    # polarization of photons that still exist
    g = (p1 > 1e-9) & (p0 > 0) & (want > 1e-6)
    close(np.linalg.norm(q1[g], axis=1), np.ones(g.sum()), 'polarization normalised')
    close(np.sum(q1[g] * d1[g], axis=1), np.zeros(g.sum()), 'polarization perpendicular to ray')
    g &= ok
    os_, op = np.sum(q1 * s, axis=1), np.sum(q1 * pout, axis=1)
    close(os_[g]**2, (Rs * es**2 / want)[g], 's part of the reflected polarization', atol=1e-6)
    close(op[g]**2, (Rp * ep**2 / want)[g], 'p part of the reflected polarization', atol=1e-6)
    # the relative sign of s and p follows that of the incoming photon
    rel = (os_ * op * es * ep)[g]
    big = np.abs(rel) > 1e-6
    # (as for a conductor: at normal incidence the plane of polarization stays the same)
    ensure(np.all(rel[big] < 0), 'relative phase of s and p')


@sub('C20', dict(pos=positions(), ax=unit_vectors(), ang=floats(-3, 3), th=floats(0, 6.3), n=st.integers(1, 20), exact=st.booleans(), seed=seeds),
     quick=100, thorough=3000)
def polarizer(pos, ax, ang, th, n, exact, seed):
    '''Two mirrors at 45 degrees, second one turned around the beam: Malus law'''
    rng = rng_of(seed)
    G = rotmat(ax, ang)

    def el(p, x, y):
        r = np.stack([x, y, np.cross(x, y)], axis=1)
        return FlatBrewsterMirror(position=pos + G @ p, orientation=G @ r, zoom=50)
    a = 2**-.5
    m1 = el(np.zeros(3), np.array([a, a, 0]), np.array([-a, a, 0]))
    # beam arrives along -x and leaves along +y
    u2 = np.array([np.cos(th), 0, np.sin(th)])
    x2 = (u2 - np.array([0, 1., 0])) * a
    m2 = el(np.array([0, 100., 0]), x2, np.array([-np.sin(th), 0, np.cos(th)]))
    phi = rng.uniform(0, 7, n)
    if exact:
        phi = np.round(phi / (np.pi / 2)) * np.pi / 2
    pol = np.stack([np.zeros(n), np.cos(phi), np.sin(phi)], axis=1)
    if exact:
        pol = np.round(pol)
    t = photon_table(rng, pos + (np.array([30., 0, 0]) + np.stack([np.zeros(n), rng.uniform(-3, 3, n), rng.uniform(-3, 3, n)], axis=1)) @ G.T,
                     np.tile(G @ np.array([-1., 0, 0]), (n, 1)), prob=np.ones(n))
    t['polarization'][:, :3] = pol @ G.T
    t = m2(m1(t))
    # s of mirror 1 is z; s of mirror 2 is perpendicular to y and u2
    s2 = np.array([-np.sin(th), 0, np.cos(th)])
    close(t['probability'], np.sin(phi)**2 * s2[2]**2, 'Malus law', atol=1e-9)
    close(np.asarray(t['dir'])[:, :3], np.tile(G @ u2, (n, 1)), 'direction')


COUNT = [0]


@sub('C20', dict(place=placements(zlo=2, zhi=60.), mat=st.booleans(), nt=st.integers(2, 6), npol=st.integers(2, 5), style=st.sampled_from(['random', 'pure']),
                 zero=st.booleans(), only=st.booleans(), narrow=st.sampled_from([None, 'some', 'all']), n=st.integers(1, 40), seed=seeds), quick=90, thorough=3000)
def multilayer(place, mat, nt, npol, style, zero, only, narrow, n, seed):
    rng = rng_of(seed)
    pos, rot, zoom = place
    d = os.environ['VERIF_SCRATCH']
    COUNT[0] += 1
    f1, f2 = os.path.join(d, f'refl{COUNT[0]}.txt'), os.path.join(d, f'pol{COUNT[0]}.txt')
    x = np.sort(rng.uniform(0, 2 * zoom[1], nt))
    if np.diff(x).min() < 1e-3:
        trivial()
        return
    peak, lam, fw = rng.uniform(0, 40, nt), rng.uniform(.3, 5, nt), rng.uniform(.2, 3, nt)
    if narrow:
        fw = 10**rng.uniform(-3, 0, nt)
        if narrow == 'all':
            fw *= .01 / fw.max()
    if zero:
        fw[rng.integers(nt)] = 0
        if nt > 2:
            fw[:2] = 0
    with open(f1, 'w') as f:
        f.write('X(mm)\tPeak\tCWHM(nm)\tPeak lambda\tFWHM(nm)\tFile\n')
        for row in zip(x, peak, lam, lam, fw):
            f.write('\t'.join(repr(float(r)) for r in row) + '\tname\n')
    pe, pf = np.sort(rng.uniform(10, 9000, npol)), rng.uniform(.5, 1, npol)
    with open(f2, 'w') as f:
        f.write('Photon energy\tPolarization\n')
        for row in zip(pe, pf):
            f.write('\t'.join(repr(float(r)) for r in row) + '\n')
    t, loc, hit, miss = rays(rng, place, n, style)
    # energies close to those that are reflected
    X = np.clip(loc[:, 0], -zoom[1], zoom[1]) + zoom[1]
    near = rng.random(n) < .8
    wave = np.interp(X, x, lam) + np.interp(X, x, fw) / 2.3548 * rng.normal(size=n)
    near &= wave > .01
    t['energy'][near] = 1.23984282 / wave[near]
    before = t.copy()
    cls = MultiLayerEfficiency if only else MultiLayerMirror
    m = cls(reflFile=f1, testedPolarization=f2, **place_kwargs(place, mat))
    t = m(t)
    os.remove(f1)
    os.remove(f2)
    if not hit.any():
        trivial()
        return
    e = np.asarray(before['energy'])[hit]
    w = 1.23984282 / e          # wavelength in nm
    X = loc[hit, 0] + zoom[1]   # position along the mirror in mm
    # linear interpolation of the table with constant continuation
    L, P, W = (np.interp(X, x, v) for v in (lam, peak, fw))
    F = np.interp(e * 1000, pe, pf)
    sig = W / (2 * np.sqrt(2 * np.log(2)))
    R = np.where(W > 0, P / 100 / F * np.exp(-(w - L)**2 / 2 / np.where(W > 0, sig, 1)**2), 0)
    # positions have round-off; skip where the width is nearly zero
    g = (W == 0) | (W > 5e-4)
    g &= ~((W == 0) & (np.abs(X[:, None] - x).min(axis=1) < 1e-6))
    d0 = np.asarray(before['dir'])[hit][:, :3]
    q0 = np.asarray(before['polarization'])[hit][:, :3]
    s = np.cross(d0, rot[:, 0])
    s /= np.linalg.norm(s, axis=1)[:, None]
    es2 = np.sum(q0 * s, axis=1)**2
    p0, p1 = np.asarray(before['probability'])[hit], np.asarray(t['probability'])[hit]
    close(p1[g], (p0 * R * (1 if only else es2))[g], 'reflected probability', atol=1e-7, rtol=1e-5)
    if only:
        same(t['dir'], before['dir'], 'direction')
    else:
        d1 = np.asarray(t['dir'])[hit][:, :3]
        close(d1, d0 - 2 * (d0 @ rot[:, 0])[:, None] * rot[:, 0], 'law of reflection')
    same(np.asarray(t['probability'])[miss], np.asarray(before['probability'])[miss], 'photons that miss')
    same(t['energy'], before['energy'], 'energy')
