'''C13: where the photons of extended sources come from.'''
import numpy as np
from hypothesis import strategies as st
from scipy.stats import kstest
import astropy.units as u
from astropy.coordinates import SkyCoord, Angle

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import rng_of, seeds, floats, logfloats, unit_vectors, rotations, make_pos4d, positions, zooms, no_trend, no_link

from marxs.source import (PointSource, DiskSource, SphericalDiskSource, GaussSource, SymbolFSource,
                          LabPointSourceCone, FarLabPointSource)
from marxs.source.basesources import RadialDistributionSource

FRAMES = ['icrs', 'fk5', 'galactic', 'barycentrictrueecliptic']
PMIN = 1e-10


@st.composite
def sky(draw):
    kind = draw(st.integers(0, 5))
    lon = draw(st.one_of(floats(0, 359.999), st.sampled_from([0., 90., 180., 359.9999])))
    if kind == 0:
        lat = draw(st.sampled_from([90., -90., 89.999, -89.999, 0.]))
    else:
        lat = float(np.rad2deg(np.arcsin(draw(floats(-1, 1)))))
    return lon, lat, draw(st.sampled_from(FRAMES))


def coord(s):
    return SkyCoord(s[0] * u.deg, s[1] * u.deg, frame=s[2])


def xyz(ra, dec):
    ra, dec = np.deg2rad(np.asarray(ra, dtype=float)), np.deg2rad(np.asarray(dec, dtype=float))
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], axis=-1)


def polar(c, t):
    '''distance from c and angle around it (in an arbitrary, but fixed reference), both in rad'''
    k = xyz(c.icrs.ra.deg, c.icrs.dec.deg)
    v = xyz(t['ra'], t['dec'])
    a = np.array([1., 0, 0]) if abs(k[0]) < .8 else np.array([0, 1., 0])
    e1 = np.cross(k, a)
    e1 /= np.linalg.norm(e1)
    e2 = np.cross(k, e1)
    sep = np.arctan2(np.linalg.norm(np.cross(v, k), axis=1), v @ k)
    return sep, np.arctan2(v @ e2, v @ e1), np.stack([v @ e1, v @ e2], axis=1)


def azimuth_uniform(phi, sep, msg):
    m = sep > 1e-9
    if m.sum() > 100:
        ensure(kstest((phi[m] + np.pi) / 2 / np.pi, 'uniform').pvalue > PMIN, msg + ': not uniform in azimuth')


def columns(t):
    ensure(t['ra'].unit == u.deg and t['dec'].unit == u.deg, 'units of coordinates')
    ensure(np.all(np.isfinite(t['ra'])) and np.all(np.abs(t['dec']) <= 90), 'valid coordinates')
    ensure(np.all((np.asarray(t['ra']) >= 0) & (np.asarray(t['ra']) <= 360)), 'ra in 0..360')
    ensure(t.meta['COORDSYS'][0] == 'ICRS', 'coordinate system in header')


@sub('C13', dict(s=sky(), n=st.integers(1, 50), seed=seeds), quick=60, thorough=1500)
def point(s, n, seed):
    np.random.seed(seed)
    c = coord(s)
    t = PointSource(coords=c).generate_photons((n - .5) * u.s)
    columns(t)
    ensure(len(t) == n, 'number')
    sep, phi, _ = polar(c, t)
    ensure(np.max(sep) < 1e-7, 'point source position', got=np.max(sep))


@sub('C13', dict(s=sky(), spherical=st.booleans(), outer=logfloats(1e-6, 3.1), frac=st.one_of(st.just(0.), floats(0, .99)),
                 unit=st.sampled_from([u.rad, u.deg, u.arcmin, u.arcsec]), default=st.booleans(), angle=st.booleans(), seed=seeds), quick=120, thorough=3000)
def disk(s, spherical, outer, frac, unit, default, angle, seed):
    np.random.seed(seed)
    c = coord(s)
    if not spherical:
        outer = min(outer, .02)
    inner = 0. if default else outer * frac
    q = Angle if angle else u.Quantity
    kw = {} if default else {'a_inner': q((inner * u.rad).to(unit))}
    t = (SphericalDiskSource if spherical else DiskSource)(coords=c, a_outer=q((outer * u.rad).to(unit)), **kw).generate_photons(800 * u.s)
    columns(t)
    sep, phi, _ = polar(c, t)
    # the small angle approximation may distort by theta^3
    tol = 1e-7 + 1e-7 * outer + (0 if spherical else outer**3)
    ensure(np.all((sep <= outer + tol) & (sep >= inner - tol)), 'photons outside of the ring', lo=sep.min(), hi=sep.max(),
           inner=inner, outer=outer)
    # surface brightness is constant: area inside the radius is uniform
    # 1 - cos = 2 sin^2(x/2) avoids cancellation
    f = (np.sin(sep / 2)**2 - np.sin(inner / 2)**2) / (np.sin(outer / 2)**2 - np.sin(inner / 2)**2)
    ensure(kstest(np.clip(f, 0, 1), 'uniform').pvalue > PMIN, 'surface brightness is not constant')
    azimuth_uniform(phi, sep, 'ring')
    no_trend(sep, 'distance from the centre')
    no_trend(phi, 'position angle')
    if outer < .03:
        no_link(f, phi, 'radius and position angle')
    label('large', outer > .5)


@sub('C13', dict(s=sky(), sigma=logfloats(1e-6, .03), unit=st.sampled_from([u.rad, u.deg, u.arcsec]), seed=seeds), quick=60, thorough=1500)
def gauss(s, sigma, unit, seed):
    np.random.seed(seed)
    c = coord(s)
    t = GaussSource(coords=c, sigma=(sigma * u.rad).to(unit)).generate_photons(800 * u.s)
    columns(t)
    sep, phi, e = polar(c, t)
    # 800 photons; P(>8 sigma) = 1e-14 each
    ensure(np.max(sep) < 8.5 * sigma, 'photon far outside of the source', got=np.max(sep) / sigma)
    ensure(kstest(sep**2 / sigma**2 / 2, 'expon').pvalue > PMIN, 'radial profile is not Gaussian')
    azimuth_uniform(phi, sep, 'Gauss')
    no_trend(sep, 'distance from the centre')
    no_trend(phi, 'position angle')
    no_link(e[:, 0], e[:, 1], 'position on the sky')
    for i in (0, 1):
        ensure(kstest(e[:, i] / sigma, 'norm').pvalue > PMIN, 'profile along one axis is not Gaussian')


@sub('C13', dict(s=sky(), kind=st.sampled_from(['fixed', 'table', 'uniform']), r=logfloats(1e-5, 3), unit=st.sampled_from([u.rad, u.deg, u.arcmin]),
                 par=st.booleans(), seed=seeds), quick=80, thorough=1500)
def user_profile(s, kind, r, unit, par, seed):
    rng = rng_of(seed)
    np.random.seed(seed)
    c = coord(s)
    rec = []

    def func(n):
        x = {'fixed': np.full(n, r), 'table': rng.choice([r / 3, r / 2, r], size=n), 'uniform': rng.uniform(0, r, n)}[kind]
        rec.append(x)
        return (x * u.rad).to(unit)
    src = RadialDistributionSource(coords=c, radial_distribution=func, func_par=[1, 2] if par else None)
    if par:
        ensure(src.func_par == [1, 2], 'function parameters kept')
    t = src.generate_photons(600 * u.s)
    columns(t)
    sep, phi, _ = polar(c, t)
    ensure(len(rec) == 1 and len(rec[0]) == len(t), 'radial distribution is called with the number of photons')
    close(sep, rec[0], 'distance from the centre', atol=1e-7, rtol=1e-7)
    azimuth_uniform(phi, sep, 'user profile')
    if r < 3:
        no_trend(phi, 'position angle')


@sub('C13', dict(s=sky(), size=logfloats(1e-3, 5), unit=st.sampled_from([u.deg, u.arcmin]), seed=seeds), quick=50, thorough=1000)
def letter_f(s, size, unit, seed):
    np.random.seed(seed)
    c = coord(s)
    ra0, dec0 = c.icrs.ra.deg, c.icrs.dec.deg
    if dec0 + size > 89:
        trivial()
        return
    t = SymbolFSource(coords=c, size=(size * u.deg).to(unit)).generate_photons(900 * u.s)
    columns(t)
    x = (np.asarray(t['ra']) - ra0 + 180) % 360 - 180
    y = np.asarray(t['dec']) - dec0
    x, y = x / size, y / size
    tol = 1e-6
    base = (np.abs(y) < tol) & (x > -tol) & (x < 1 + tol)
    b1 = (np.abs(x - 1) < tol) & (y > -tol) & (y < .5 + tol)
    b2 = (np.abs(x - .8) < tol) & (y > -tol) & (y < .3 + tol)
    ensure(np.all(base | b1 | b2), 'photon is not on the letter', x=x[~(base | b1 | b2)], y=y[~(base | b1 | b2)])
    for m in (base, b1, b2):
        ensure(abs(m.sum() - 300) < 6.5 * np.sqrt(900 * 2 / 9) + 3, 'each bar gets a third of the photons', got=m.sum())
    ensure(kstest(x[base & ~b1 & ~b2], 'uniform').pvalue > PMIN, 'uniform along the stem')
    no_trend(np.round(x, 9) + np.round(y, 9), 'position on the letter')


@sub('C13', dict(pos=positions(50), d=unit_vectors(), scale=logfloats(.01, 100), near=st.sampled_from([False, False, True]), half=st.one_of(st.just(None), logfloats(1e-4, np.pi)),
                 lst=st.booleans(), seed=seeds), quick=80, thorough=2000)
def lab_cone(pos, d, scale, near, half, lst, seed):
    np.random.seed(seed)
    if near:        # close to the z-axis
        rng = rng_of(seed)
        d = [0, 0, rng.choice([-1, 1])] + d * 10**rng.uniform(-7, -1)
        d = d / np.linalg.norm(d)
    kw = {} if half is None else {'half_opening': half}
    half = np.pi if half is None else half
    dd = d * scale
    t = LabPointSourceCone(position=list(pos) if lst else pos, direction=list(dd) if lst else dd, **kw).generate_photons(800 * u.s)
    close(t['pos'], np.tile(np.append(pos, 1), (800, 1)), 'photons start at the source', atol=1e-9)
    v = np.asarray(t['dir'])
    close(v[:, 3], np.zeros(800), 'direction is a vector')
    v = v[:, :3]
    close(np.linalg.norm(v, axis=1), np.ones(800), 'direction is normalised')
    a = np.arctan2(np.linalg.norm(np.cross(v, d), axis=1), v @ d)
    ensure(np.max(a) <= half + 1e-7, 'photon outside of the cone', got=np.max(a), half=half)
    f = np.sin(a / 2)**2 / np.sin(half / 2)**2
    if half > 1e-3:
        ensure(kstest(np.clip(f, 0, 1), 'uniform').pvalue > PMIN, 'directions are not uniform in solid angle')
    e1 = np.cross(d, [1., 0, 0] if abs(d[0]) < .8 else [0, 1., 0])
    e1 /= np.linalg.norm(e1)
    azimuth_uniform(np.arctan2(v @ np.cross(d, e1), v @ e1), a, 'cone')
    no_trend(a, 'angle in the cone')
    pl = np.asarray(t['polarization'])[:, :3]
    close(np.sum(pl * v, axis=1), np.zeros(800), 'polarization perpendicular', atol=1e-8)
    close(np.linalg.norm(pl, axis=1), np.ones(800), 'polarization normalised', atol=1e-8)


@sub('C13', dict(pos=positions(50), rot=rotations(), zoom=zooms(.1, 20), spos=positions(1000), as_matrix=st.booleans(), seed=seeds), quick=60, thorough=1500)
def lab_far(pos, rot, zoom, spos, as_matrix, seed):
    np.random.seed(seed)
    P = make_pos4d(pos, rot, zoom)
    spos = spos * 10**rng_of(seed).choice([0, 0, 1, 2, 3])
    kw = {'pos4d': P} if as_matrix else {'position': pos, 'orientation': rot, 'zoom': zoom}
    if abs((spos - pos) @ rot[:, 0]) < 1e-3:
        trivial()
        return
    t = FarLabPointSource(list(spos), **kw).generate_photons(600 * u.s)
    p, v = np.asarray(t['pos'])[:, :3], np.asarray(t['dir'])
    loc = (np.linalg.inv(P) @ np.asarray(t['pos']).T).T
    close(loc[:, 0], np.zeros(600), 'starts in the plane of the aperture', atol=1e-9)
    for i in (1, 2):
        ensure(np.all(np.abs(loc[:, i]) <= 1 + 1e-9), 'starts inside of the aperture')
        ensure(kstest((loc[:, i] + 1) / 2, 'uniform').pvalue > PMIN, 'uniform over the aperture')
        no_trend(loc[:, i], 'position in the aperture')
    no_link(loc[:, 1], loc[:, 2], 'position in the aperture')
    ensure(abs(np.corrcoef(loc[:, 1], loc[:, 2])[0, 1]) < 6.5 / np.sqrt(600), 'coordinates are independent')
    want = p - spos
    want /= np.linalg.norm(want, axis=1)[:, None]
    close(v, np.hstack([want, np.zeros((600, 1))]), 'direction away from the source', atol=1e-9)
    pl = np.asarray(t['polarization'])[:, :3]
    close(np.sum(pl * v[:, :3], axis=1), np.zeros(600), 'polarization perpendicular', atol=1e-8)
