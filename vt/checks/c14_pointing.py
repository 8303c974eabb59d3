'''C14: sky to instrument coordinates.'''
import numpy as np
from hypothesis import strategies as st
from scipy.stats import kstest
import astropy.units as u
from astropy.table import Table
from astropy.coordinates import SkyCoord

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import no_trend, no_link, rng_of, seeds, floats, logfloats, rotations
from vt.checks.c13_sky import sky, coord, xyz, FRAMES

from marxs.source import FixedPointing, JitterPointing, PointSource

PMIN = 1e-10


def tangents(ra, dec):
    ra, dec = np.deg2rad(np.asarray(ra, dtype=float)), np.deg2rad(np.asarray(dec, dtype=float))
    north = np.stack([-np.sin(dec) * np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec)], axis=-1)
    east = np.stack([-np.sin(ra), np.cos(ra), np.zeros_like(ra)], axis=-1)
    return north, east


def instrument_axes(ra, dec, roll):
    '''rows are the x, y, z axis of the instrument on the sky'''
    x = xyz(ra, dec)
    n, e = tangents(ra, dec)
    z = np.cos(roll) * n + np.sin(roll) * e
    y = np.cos(roll) * e - np.sin(roll) * n
    return np.stack([x, y, z])


def photons(rng, n, ra0, dec0, spread):
    '''sky positions: everywhere and around the pointing'''
    v = rng.normal(size=(n, 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    near = rng.random(n) < .5
    v[near] = xyz(ra0, dec0) + spread * rng.normal(size=(near.sum(), 3))
    v /= np.linalg.norm(v, axis=1)[:, None]
    ra = np.rad2deg(np.arctan2(v[:, 1], v[:, 0])) % 360
    dec = np.rad2deg(np.arcsin(np.clip(v[:, 2], -1, 1)))
    dec = np.clip(dec, -89.9, 89.9)
    t = Table({'ra': ra, 'dec': dec, 'time': np.arange(n) * 1., 'energy': np.ones(n), 'polangle': rng.uniform(-7, 7, n),
               'probability': np.ones(n)})
    t['ra'].unit = t['dec'].unit = u.deg
    t['polangle'].unit = u.rad
    return t


def ref(rot):
    m = np.eye(4)
    m[:3, :3] = rot
    return m


@sub('C14', dict(s=sky(), roll=st.one_of(st.just(None), floats(-7, 7)), ur=st.sampled_from([u.rad, u.deg, u.arcmin]), rot=rotations(),
                 jitter=st.booleans(), userot=st.booleans(), spread=logfloats(1e-6, .1), n=st.integers(1, 40), seed=seeds), quick=200, thorough=5000)
def sky_to_instrument(s, roll, ur, rot, jitter, userot, spread, n, seed):
    rng = rng_of(seed)
    s = (s[0], s[1], 'icrs' if seed % 4 else 'fk5')
    c = coord(s)
    ra0, dec0 = c.icrs.ra.deg, c.icrs.dec.deg
    kw = {}
    if roll is not None:
        kw['roll'] = (roll * u.rad).to(ur)
    if userot:
        kw['reference_transform'] = ref(rot)
    R = rot if userot else np.eye(3)
    cls = (lambda **k: JitterPointing(jitter=0 * u.arcsec, **k)) if jitter else FixedPointing
    t = photons(rng, n, ra0, dec0, spread)
    point = cls(coords=c, **kw)
    t = point(t)
    # FK5 and ICRS differ by ~ 20 mas = 1e-7 rad; near the pole this rotates the axes by a lot
    fk = s[2] == 'fk5'
    if fk and abs(dec0) > 80:
        trivial()
        return
    A = instrument_axes(ra0, dec0, 0. if roll is None else roll)
    tol = 1e-8 if not fk else 2e-6
    v = xyz(t['ra'], t['dec'])
    want = -(v @ A.T) @ R.T
    d = np.asarray(t['dir'])
    close(d[:, :3], want, 'direction of the photons', atol=tol)
    close(d[:, 3], np.zeros(n), 'direction is a vector')
    close(np.linalg.norm(d, axis=1), np.ones(n), 'unit direction')
    nn, ee = tangents(t['ra'], t['dec'])
    pa = np.asarray(t['polangle'])[:, None]
    pol = np.cos(pa) * nn + np.sin(pa) * ee
    p = np.asarray(t['polarization'])
    # near the poles the north direction is badly defined
    good = np.abs(np.asarray(t['dec'])) < 89
    close(p[good][:, :3], ((pol @ A.T) @ R.T)[good], 'polarization (north through east)', atol=tol * 100)
    close(np.sum(p * d, axis=1), np.zeros(n), 'polarization perpendicular', atol=1e-9)
    close(np.linalg.norm(p, axis=1), np.ones(n), 'polarization normalised', atol=1e-9)
    p2 = point.photons_pol(d, (t['polangle'].data * u.rad).to(ur), t['time'].data)
    close(np.asarray(p2), p, 'polarization from angles in any unit', atol=1e-9)
    for k, val in (('RA_PNT', ra0), ('DEC_PNT', dec0), ('RA_NOM', ra0), ('DEC_NOM', dec0), ('ROLL_PNT', np.rad2deg(roll or 0)),
                   ('ROLL_NOM', np.rad2deg(roll or 0))):
        x = t.meta[k][0] - val
        if k.startswith('R'):
            x = (x + 180) % 360 - 180
        ensure(abs(x) < 1e-4, f'header keyword {k}', got=t.meta[k][0], expected=val)


@sub('C14', dict(s=sky(), roll=floats(-7, 7), rot=rotations(), userot=st.booleans(), n=st.integers(2, 40), jitter=st.booleans(),
                 spread=logfloats(1e-6, .1), seed=seeds), quick=100, thorough=2500)
def rigid(s, roll, rot, userot, n, jitter, spread, seed):
    '''any frame, also at the poles: a rotation of the sky, the pointing on the axis'''
    rng = rng_of(seed)
    c = coord(s)
    kw = {'reference_transform': ref(rot)} if userot else {}
    cls = (lambda **k: JitterPointing(jitter=0 * u.arcsec, **k)) if jitter else FixedPointing
    t = photons(rng, n, c.icrs.ra.deg, c.icrs.dec.deg, spread)
    t.add_row(t[0])
    t['ra'][-1], t['dec'][-1] = c.icrs.ra.deg, c.icrs.dec.deg
    nopole = abs(c.icrs.dec.deg) < 89.99
    if not nopole:
        t['dec'][-1] = c.icrs.dec.deg
    p = cls(coords=c, roll=roll * u.rad, **kw)(t.copy())
    for k, val in (('RA_', c.icrs.ra.deg), ('DEC_', c.icrs.dec.deg), ('ROLL_', np.rad2deg(roll))):
        for e in ('PNT', 'NOM'):
            x = p.meta[k + e][0] - val
            x = (x + 180) % 360 - 180 if k[0] == 'R' else x
            ensure(abs(x) < 1e-6, f'header keyword {k}{e} (ICRS)', got=p.meta[k + e][0], expected=val)
    d = np.asarray(p['dir'])[:, :3]
    v = xyz(t['ra'], t['dec'])
    close(d @ d.T, v @ v.T, 'angles between sources are preserved', atol=1e-9)
    axis = -(rot[:, 0] if userot else np.array([1., 0, 0]))
    close(d[-1], axis, 'source at the pointing direction is on the optical axis', atol=1e-7)
    # handedness
    if n >= 3:
        close(np.linalg.det(d[:3]), -np.linalg.det(v[:3]), 'mirror image', atol=1e-9)
    # roll turns around the axis by exactly that angle
    p0 = cls(coords=c, **kw)(t.copy())
    d0 = np.asarray(p0['dir'])[:, :3]
    M = np.linalg.lstsq(d0, d, rcond=None)[0].T if np.linalg.matrix_rank(d0, tol=1e-3) == 3 else None
    if M is not None:
        close(np.trace(M), 1 + 2 * np.cos(roll), 'amount of roll', atol=1e-5)
    # a reference transformation only rotates the result
    b = cls(coords=c, roll=roll * u.rad)(t.copy())
    R = rot if userot else np.eye(3)
    close(np.asarray(b['dir'])[:, :3] @ R.T, d, 'reference_transform', atol=1e-9)
    close(np.asarray(b['polarization'])[:-1, :3] @ R.T, np.asarray(p['polarization'])[:-1, :3], 'reference_transform of polarization', atol=1e-8)


@sub('C14', dict(s=sky(), sigma=logfloats(1e-7, .05), unit=st.sampled_from([u.rad, u.deg, u.arcsec]), neg=st.booleans(), rot=rotations(),
                 userot=st.booleans(), roll=floats(-4, 4), off=st.booleans(), seed=seeds), quick=60, thorough=1500)
def jitter(s, sigma, unit, neg, rot, userot, roll, off, seed):
    rng = rng_of(seed)
    np.random.seed(seed)
    s = (s[0], float(np.clip(s[1], -85, 85)), 'icrs')
    c = coord(s)
    n = 1500
    kw = dict(coords=c, roll=roll * u.rad)
    if userot:
        kw['reference_transform'] = ref(rot)
    R = rot if userot else np.eye(3)
    if off:
        t = photons(rng, n, s[0], s[1], .3)
    else:
        t = PointSource(coords=c, polarization=.3 * u.rad).generate_photons((n - .5) * u.s)
    f = FixedPointing(**kw)(t.copy())
    q = (sigma * u.rad).to(unit) * (-1 if neg else 1)
    model = JitterPointing(jitter=q, **kw)
    j = model(t.copy())
    j2 = model(t.copy())
    a, b = np.asarray(f['dir'])[:, :3], np.asarray(j['dir'])[:, :3]
    pa, pb = np.asarray(f['polarization'])[:, :3], np.asarray(j['polarization'])[:, :3]
    close(np.linalg.norm(b, axis=1), np.ones(n), 'unit direction')
    close(np.sum(b * pb, axis=1), np.zeros(n), 'polarization perpendicular', atol=1e-9)
    close(np.linalg.norm(pb, axis=1), np.ones(n), 'polarization normalised')
    ang = np.arctan2(np.linalg.norm(np.cross(a, b), axis=1), np.sum(a * b, axis=1))
    ensure(np.max(ang) < 8.5 * sigma, 'jitter is much larger than requested', got=np.max(ang) / sigma)
    same(np.asarray(f['time']), np.asarray(j['time']), 'time')
    # every photon, also in another observation, has its own jitter
    b2 = np.asarray(j2['dir'])[:, :3]
    ang2 = np.arctan2(np.linalg.norm(np.cross(a, b2), axis=1), np.sum(a * b2, axis=1))
    ensure(abs(np.corrcoef(ang, ang2)[0, 1]) < 8 / np.sqrt(n), 'jitter is repeated for the next photon list')
    # common rotation of direction and polarization
    close(np.linalg.norm(np.cross(pa, pb), axis=1) <= 8.5 * sigma + 1e-9, np.ones(n, dtype=bool), 'polarization turns by at most the jitter')
    if not off:
        diff = (b - a) @ R
        close(diff[:, 0] * 0 + np.abs(diff[:, 0]) <= (8.5 * sigma)**2 + 1e-9, np.ones(n, dtype=bool), 'jitter perpendicular to the axis')
        ensure(kstest(ang / sigma, 'halfnorm').pvalue > PMIN, 'amount of jitter')
        no_trend(ang, 'jitter')
        az = np.arctan2(diff[:, 2], diff[:, 1])
        ensure(kstest((az + np.pi) / 2 / np.pi, 'uniform').pvalue > PMIN, 'direction of jitter is not uniform')
        no_trend(az, 'direction of jitter')
        no_link(ang, az, 'amount and direction of jitter')
    label('off axis', off)


@sub('C14', dict(n=st.integers(2, 5)), quick=5, thorough=20)
def scalar_pointing(n):
    with raises(ValueError, 'array of pointing directions has to be refused'):
        FixedPointing(coords=SkyCoord(np.arange(n), np.arange(n), unit='deg'))
