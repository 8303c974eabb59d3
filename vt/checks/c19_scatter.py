'''C19: scatter.'''
import numpy as np
from hypothesis import strategies as st
from scipy.stats import kstest
import astropy.units as u

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import (no_trend, no_link, rng_of, seeds, floats, logfloats, placements, place_kwargs, photon_table, aimed_rays, rotmat)

from marxs.optics import RadialMirrorScatter, RandomGaussianScatter

PMIN = 1e-10
UNITS = [u.rad, u.deg, u.arcmin, u.arcsec]


def turn(d, axis, ang):
    '''rotate rows of d around rows of axis'''
    k = axis / np.linalg.norm(axis, axis=1)[:, None]
    c, s = np.cos(ang)[:, None], np.sin(ang)[:, None]
    return d * c + np.cross(k, d) * s + k * np.sum(k * d, axis=1)[:, None] * (1 - c)


def angle(a, b):
    return np.arctan2(np.linalg.norm(np.cross(a, b), axis=1), np.sum(a * b, axis=1))


def setup(rng, place, n, style):
    '''photons that come from (or from close to) the plane of the element'''
    pos, rot, zoom = place
    p, d, target = aimed_rays(rng, n, place, maxang=None if style == 'wide' else .3)
    back = rng.uniform(1e-6, .1, n) if style == 'close' else rng.uniform(1, 300, n)
    p = target - back[:, None] * d
    if style == 'centre':
        k = rng.random(n) < .4
        p[k] = pos - back[k][:, None] * d[k]
        target[k] = pos
        k2 = k & (rng.random(n) < .5)
        p[k2] = pos
    if style == 'axis':     # almost on a straight line through the centre
        x = rng.normal(size=(n, 3)) * 10**rng.uniform(-2, 0, (n, 1))
        target = pos + (x - (x @ rot[:, 0])[:, None] * rot[:, 0]) * zoom[1:].min()
        p = target - 300 * d
    loc = (target - pos) @ rot[:, 1:]
    hit = np.all(np.abs(loc) < zoom[1:] * (1 - 1e-9), axis=1)
    miss = np.any(np.abs(loc) > zoom[1:] * (1 + 1e-9), axis=1)
    return photon_table(rng, p, d), hit, miss


def common(before, ph, hit, miss):
    for c in ('energy', 'probability', 'time', 'mytag'):
        same(ph[c], before[c], f'{c} is not changed')
    for c in ('dir', 'pos', 'polarization'):
        same(np.asarray(ph[c])[miss], np.asarray(before[c])[miss], f'{c} of photons that miss')
    d0, d1 = np.asarray(before['dir'])[hit][:, :3], np.asarray(ph['dir'])[hit][:, :3]
    q0, q1 = np.asarray(before['polarization'])[hit][:, :3], np.asarray(ph['polarization'])[hit][:, :3]
    close(np.linalg.norm(d1, axis=1), np.ones(len(d1)), 'unit direction')
    ax = np.cross(d0, d1)
    nn = np.linalg.norm(ax, axis=1)
    ok = (nn > 1e-5) & (np.sum(d0 * d1, axis=1) > -.9)
    close(turn(q0[ok], ax[ok], np.arctan2(nn, np.sum(d0 * d1, axis=1))[ok]), q1[ok], 'polarization turns with the ray', atol=1e-6)
    close(q1[~ok & (nn < 1e-4)], q0[~ok & (nn < 1e-4)], 'polarization turns with the ray', atol=1e-3)
    close(np.linalg.norm(q1, axis=1), np.ones(len(q1)), 'polarization normalised', atol=1e-7)
    return d0, d1


@sub('C19', dict(place=placements(zlo=1, zhi=3000.), mat=st.booleans(), sin=st.one_of(st.just(0.), logfloats(1e-6, .3)),
                 sperp=st.one_of(st.just(None), st.just(0.), logfloats(1e-6, .3)), un=st.sampled_from(UNITS),
                 style=st.sampled_from(['narrow', 'wide', 'close', 'centre', 'axis']), n=st.integers(1, 600), seed=seeds), quick=200, thorough=5000)
def radial(place, mat, sin, sperp, un, style, n, seed):
    rng = rng_of(seed)
    ph, hit, miss = setup(rng, place, n, style)
    kw = {} if sperp is None else {'perpplanescatter': (sperp * u.rad).to(un)}
    el = RadialMirrorScatter(inplanescatter=(sin * u.rad).to(un), **kw, **place_kwargs(place, mat))
    before = ph.copy()
    np.random.seed(seed)
    ph = el(ph)
    if not hit.any():
        trivial()
        return
    d0, d1 = common(before, ph, hit, miss)
    a = np.asarray(ph['inplanescatter'], dtype=float)[hit]
    b = np.asarray(ph['perpplanescatter'], dtype=float)[hit]
    rad = np.asarray(before['pos'])[hit][:, :3] - place[0]
    perp = np.cross(d0, rad)
    rn = np.linalg.norm(rad, axis=1)
    deg = np.linalg.norm(perp, axis=1) <= 1e-9 * (rn + np.abs(place[0]).max() + 300)
    well = np.linalg.norm(perp, axis=1) > 2e-5 * rn
    well &= rn > 1e-3
    # exact model
    m = turn(turn(d0[well], perp[well], -a[well]), rad[well], -b[well])
    close(d1[well], m, 'turned by the recorded angles in and perpendicular to the plane of reflection', atol=1e-6)
    # in the plane of reflection only
    if not sperp:
        same(b, np.zeros(len(b)), 'no scatter perpendicular to the plane')
        pl = perp[well] / np.linalg.norm(perp[well], axis=1)[:, None]
        close(np.sum(pl * d1[well], axis=1), np.zeros(well.sum()), 'ray stays in the plane', atol=1e-6)
        close(angle(d0, d1), np.abs(a), 'turned by the recorded angle', atol=1e-7)
    if sin == 0:
        same(a, np.zeros(len(a)), 'no scatter in the plane')
        if not sperp:
            same(d1, d0, 'no change without scatter')
    for x, s, name in ((a, sin, 'in plane'), (b, sperp or 0., 'perpendicular to the plane')):
        if s > 0:
            ensure(kstest(x / s, 'norm').pvalue > PMIN, f'distribution of the scatter {name}', std=x.std(), sigma=s)
            no_trend(x, f'scatter {name}')
    if sin > 0 and sperp:
        no_link(a, b, 'angles in the plane and perpendicular to it')
    if sin > 0 and sperp and len(a) > 20:
        r = np.corrcoef(a, b)[0, 1]
        ensure(abs(r) * np.sqrt(len(a)) < 8 or abs(r) < .9 and len(a) < 60, 'independent angles', r=r)


@sub('C19', dict(place=placements(zlo=1, zhi=3000.), mat=st.booleans(), sig=st.one_of(st.just(0.), logfloats(1e-6, .3)),
                 kind=st.sampled_from(['number', 'func', 'class']), un=st.sampled_from(UNITS),
                 style=st.sampled_from(['narrow', 'wide', 'close', 'centre', 'axis']), n=st.integers(1, 600), seed=seeds), quick=200, thorough=5000)
def gaussian(place, mat, sig, kind, un, style, n, seed):
    rng = rng_of(seed)
    ph, hit, miss = setup(rng, place, n, style)
    if style == 'narrow' and seed % 3 == 0:
        # rays along the global axes
        ax = np.eye(3)[rng.integers(0, 3, n)] * rng.choice([-1, 1], n)[:, None]
        target = np.asarray(ph['pos'])[:, :3] + 0.
        tpos = place[0] + rng.uniform(-1.2, 1.2, (n, 2)) * place[2][1:] @ place[1][:, 1:].T
        good = np.abs(ax @ place[1][:, 0]) > .05
        ph['dir'][good, :3] = ax[good]
        ph['pos'][good, :3] = (tpos - 10 * ax)[good]
        loc = (tpos - place[0]) @ place[1][:, 1:]
        h = np.all(np.abs(loc) < place[2][1:] * (1 - 1e-9), axis=1)
        hit[good] = h[good]
        miss[good] = ~h[good]
        pol = np.cross(np.asarray(ph['dir'])[:, :3], rng.normal(size=(n, 3)))
        ph['polarization'][:, :3] = pol / np.linalg.norm(pol, axis=1)[:, None]
    before = ph.copy()
    given = {}
    onesided = rng.random() < .5

    def func(photons, intersect, interpos, intercoos):
        ensure(intersect.shape == (n,), 'arguments of the scatter function')
        given['n'] = intersect.sum()
        ang = rng.normal(size=n) * sig
        if onesided:
            ang = np.abs(ang)
        given['a'] = ang[intersect]
        e = np.asarray(photons['mytag'])[intersect]
        given['tag'] = e
        return (given['a'] * u.rad).to(un)

    kw = place_kwargs(place, mat)
    if kind == 'class':
        class Scat(RandomGaussianScatter):
            scatter = (sig * u.rad).to(un)
        el = Scat(**kw)
    else:
        el = RandomGaussianScatter(scatter=func if kind == 'func' else (sig * u.rad).to(un), **kw)
    np.random.seed(seed)
    ph = el(ph)
    if not hit.any():
        trivial()
        return
    d0, d1 = common(before, ph, hit, miss)
    if sig == 0:
        close(d1, d0, 'no change without scatter', atol=1e-12)
        if 'scatter' in ph.colnames:
            close(np.asarray(ph['scatter'], dtype=float)[hit], np.zeros(hit.sum()), 'scatter angle')
        return
    a = np.asarray(ph['scatter'], dtype=float)[hit]
    ensure(np.all(np.isfinite(a)), 'scatter angle is recorded')
    ensure(np.all(np.isnan(np.asarray(ph['scatter'], dtype=float)[miss])), 'no scatter angle for photons that miss')
    meas = angle(d0, d1)
    close(meas, np.abs(a), 'turned by the recorded angle', atol=1e-8, rtol=1e-6)
    if kind == 'func':
        close(a, given['a'], 'angle given by the function', atol=1e-12, rtol=1e-9)
    else:
        ensure(kstest(a / sig, 'norm').pvalue > PMIN, 'distribution of the angle', std=a.std(), sigma=sig)
        no_trend(a, 'scatter angle')
    # azimuth around the ray
    if len(a) > 5 and sig > 1e-5:
        ref = np.zeros_like(d0)
        ref[np.arange(len(d0)), np.argmin(np.abs(d0), axis=1)] = 1
        e1 = np.cross(d0, ref)
        e1 /= np.linalg.norm(e1, axis=1)[:, None]
        e2 = np.cross(d0, e1)
        phi = np.arctan2(np.sum(d1 * e2, axis=1), np.sum(d1 * e1, axis=1))
        ok = meas > 1e-7
        if ok.sum() > 5:
            ensure(kstest((phi[ok] / 2 / np.pi) % 1, 'uniform').pvalue > PMIN, 'random azimuth', phi=phi)
            no_trend(phi[ok] % (2 * np.pi), 'azimuth')
            no_link(np.abs(a[ok]), phi[ok] % (2 * np.pi), 'angle and azimuth')
