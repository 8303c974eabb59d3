'''C35: Chandra aspect and chip coordinates.'''
import os
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st
import astropy.units as u
from astropy.coordinates import SkyCoord
from astropy.io import fits
from astropy.table import Table
from astropy.time import Time

from vt.core import sub, ensure, close, same, trivial, label, known_finding
from vt.gen import rng_of, seeds, floats, photon_table, rand_unit, rand_rot, h, make_pos4d, perp_unit

from marxs.missions import chandra
from marxs.missions.chandra import fitsheaders
from marxs.source import FixedPointing, PointSource

ARCSEC = np.pi / 180 / 3600
ANG = ['deg', 'arcmin', 'arcsec', 'rad']
F = 10061.65    # focal length from the coordinate memo

# From the Chandra coordinate memo: corners LL, LR, UL in LSI coordinates
CORNERS = np.array([
    [[2.361, -26.484, 23.088], [1.130, -26.546, -1.458], [1.130, -1.939, 23.088]],
    [[1.130, 23.086, -1.458], [2.360, 23.024, 23.088], [-0.100, -1.459, -1.458]],
    [[1.130, -26.546, -1.997], [2.361, -26.484, -26.543], [-0.10, -2.001, -1.997]],
    [[2.361, 23.024, -26.543], [1.131, 23.086, -1.997], [1.13, -1.521, -26.543]],
    [[0.744, -81.170, -59.170], [0.353, -56.597, -59.170], [0.744, -81.170, -34.590]],
    [[0.348, -56.133, -59.170], [0.099, -31.559, -59.170], [0.348, -56.133, -34.590]],
    [[0.096, -31.100, -59.170], [-0.011, -6.524, -59.170], [0.096, -31.100, -34.590]],
    [[-0.011, -6.035, -59.170], [0.024, 18.541, -59.170], [-0.011, -6.035, -34.590]],
    [[0.026, 18.970, -59.170], [0.208, 43.545, -59.170], [0.026, 18.970, -34.590]],
    [[0.208, 43.986, -59.170], [0.528, 68.560, -59.170], [0.208, 43.986, -34.590]]])
OLSI = np.array([0.684, 0.750, 236.552])
AIM = {'ACIS-I': np.array([-.782, 0, -233.592]), 'ACIS-S': np.array([-.684, 0, -190.133])}
TDET_THETA = np.deg2rad([90., 270., 90., 270., 0, 0, 0, 0, 0, 0])
TDET_ORIG = np.array([[3061, 5131], [5131, 4107], [3061, 4085], [5131, 3061], [791, 1702], [1833, 1702], [2875, 1702], [3917, 1702],
                      [4959, 1702], [6001, 1702]])
NAMES = ['I0', 'I1', 'I2', 'I3', 'S0', 'S1', 'S2', 'S3', 'S4', 'S5']


def ang(rng, rad):
    return (rad * u.rad).to(str(rng.choice(ANG)))


def random_dither(rng, big=False, still=False):
    amp = rng.uniform(0, 60, 3) * ARCSEC * rng.choice([0, 1, 1, 1], size=3)
    if big:
        amp = rng.uniform(0, .1, 3)
    if still:
        amp = np.zeros(3)
    per = 10**rng.uniform(1, 5, 3)
    pha = rng.uniform(-7, 7, 3)
    coords = SkyCoord(rng.uniform(0, 360), rng.uniform(-80, 80) if rng.uniform() < .7 else rng.choice([-1, 1]) * rng.uniform(80, 88), unit='deg')
    roll = rng.uniform(-7, 7)
    kw = {'coords': coords, 'roll': ang(rng, roll), 'DitherAmp': ang(rng, amp),
          'DitherPeriod': (per * u.s).to(str(rng.choice(['s', 'min', 'h']))), 'DitherPhase': ang(rng, pha)}
    ref = None
    if rng.uniform() < .5:
        ref = np.eye(4)
        ref[:3, :3] = rand_rot(rng)
        kw['reference_transform'] = ref
    return kw, amp, per, pha, coords, roll, ref


def pointing_oracle(amp, per, pha, coords, roll, t):
    '''unit vector of the pointing and roll [rad]'''
    off = amp * np.sin(2 * np.pi * t[:, None] / per + pha)
    ra0, dec0 = coords.ra.rad, coords.dec.rad
    ra = ra0 + off[:, 0] / np.cos(dec0)
    dec = dec0 + off[:, 1]
    r = roll + off[:, 2]

    def vec(a, d):
        return np.stack([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)], axis=-1)
    n, v = vec(ra0, dec0), vec(ra, dec)
    # rotation of the pattern with the roll of the spacecraft
    c, s = np.cos(r)[:, None], np.sin(r)[:, None]
    out = c * v + s * np.cross(n, v) + (1 - c) * (v @ n)[:, None] * n
    return out, r


def unit(p):
    return np.stack([np.cos(p[:, 1]) * np.cos(p[:, 0]), np.cos(p[:, 1]) * np.sin(p[:, 0]), np.sin(p[:, 1])], axis=1)


@sub('C35', dict(seed=seeds, big=st.booleans(), still=st.booleans(), n=st.integers(0, 30)), quick=200, thorough=20000)
def dither_pattern(seed, big, still, n):
    rng = rng_of(seed)
    kw, amp, per, pha, coords, roll, ref = random_dither(rng, big, still and rng.uniform() < .5)
    p = chandra.LissajousDither(**kw)
    t = rng.uniform(0, 1e5, n)
    off = p.dither(t)
    want = amp * np.sin(2 * np.pi * t[:, None] / per + pha)
    want[:, 0] /= np.cos(coords.dec.rad)
    close(u.Quantity(off).to_value(u.rad), want, 'dither offsets', rtol=1e-8, atol=1e-10)
    got = np.asarray(p.pointing(t))
    ensure(got.shape == (n, 3), 'one pointing for each time')
    v, r = pointing_oracle(amp, per, pha, coords, roll, t)
    ensure(((got[:, 0] >= 0) & (got[:, 0] <= 2 * np.pi)).all(), 'ra in range')
    close(got[:, 2], r, 'roll')
    # a roll that varies by less than about 1e-5 relative is treated as constant
    close(unit(got), v, 'pointing direction', atol=1e-7 + 1.5e-5 * np.abs(roll) * np.max(amp[:2]) * 2)
    # periodic
    k = rng.integers(1, 4)
    if n > 0:
        p1 = chandra.LissajousDither(**{**kw, 'DitherPeriod': np.array([per[0]] * 3) * u.s})
        close(unit(p1.pointing(t + k * per[0])), unit(p1.pointing(t)), 'periodic', atol=1e-6)
    label('roll dithers', amp[2] > 1e-3)
    label('empty', n == 0)
    trivial((amp[:2] == 0).all())


@sub('C35', dict(seed=seeds, big=st.booleans(), still=st.booleans(), n=st.integers(1, 12)), quick=80, thorough=5000)
def photons_see_the_dithered_pointing(seed, big, still, n):
    rng = rng_of(seed)
    kw, amp, per, pha, coords, roll, ref = random_dither(rng, big, still)
    p = chandra.LissajousDither(**kw)
    off = 10**rng.uniform(-5, -1)
    ra = coords.ra.rad + off * rng.normal(size=n) / np.cos(coords.dec.rad)
    dec = np.clip(coords.dec.rad + off * rng.normal(size=n), -1.5, 1.5)
    t = np.sort(rng.uniform(0, 1e5, n))
    photons = Table({'time': t * u.s, 'energy': np.ones(n) * u.keV, 'ra': np.rad2deg(ra) * u.deg, 'dec': np.rad2deg(dec) * u.deg,
                     'polangle': rng.uniform(0, 6, n) * u.rad, 'probability': np.ones(n)})
    before = photons.copy()
    ph = p(photons)
    v, r = pointing_oracle(amp, per, pha, coords, roll, t)
    for i in range(n):
        lon, lat = np.arctan2(v[i, 1], v[i, 0]), np.arcsin(np.clip(v[i, 2], -1, 1))
        rr = {} if ref is None else {'reference_transform': ref}
        fix = FixedPointing(coords=SkyCoord(lon, lat, unit='rad'), roll=r[i] * u.rad, **rr)
        want = fix.photons_dir(SkyCoord(ra[i:i + 1], dec[i:i + 1], unit='rad'), t[i:i + 1])
        close(np.asarray(ph['dir'])[i], np.asarray(want)[0], 'same direction as for a fixed pointing to where the telescope points at this time',
              atol=3e-7 + 3e-5 * np.abs(roll) * np.max(amp[:2]))
    for c in before.colnames:
        same(np.asarray(ph[c]), np.asarray(before[c]), f'{c} does not change')
    for k, w in [('RA', coords.ra.deg), ('DEC', coords.dec.deg), ('ROLL', np.rad2deg(roll))]:
        for s in ['_PNT', '_NOM']:
            close(ph.meta[k + s][0], w, 'nominal position in the header')
    # a source at the nominal position
    d = np.asarray(ph['dir'])
    close(np.linalg.norm(d[:, :3], axis=1), np.ones(n), 'unit vectors')
    same(d[:, 3], np.zeros(n), 'directions')
    pol = np.asarray(ph['polarization'])
    close((d * pol).sum(axis=1), np.zeros(n), 'polarization is perpendicular to direction', atol=1e-7)
    if (amp == 0).all():
        fix = FixedPointing(**{k: x for k, x in kw.items() if not k.startswith('Dither')})(before.copy())
        close(d, np.asarray(fix['dir']), 'no dither is a fixed pointing', atol=3e-7)
        label('no dither')
    label('transformed', ref is not None)
    trivial((amp[:2] == 0).all())


@sub('C35', dict(seed=seeds, big=st.booleans(), dateobs=st.booleans(), explicit=st.booleans()), quick=40, thorough=1500)
def aspect_solution(seed, big, dateobs, explicit):
    rng = rng_of(seed)
    kw, amp, per, pha, coords, roll, ref = random_dither(rng, big)
    roll = abs(roll) % 6.
    kw['roll'] = roll * u.rad
    p = chandra.LissajousDither(**kw)
    expo = 10**rng.uniform(0, 2.5)
    n = int(rng.integers(1, 5))
    photons = Table({'time': rng.uniform(0, expo, n) * u.s, 'energy': np.ones(n) * u.keV, 'ra': np.full(n, coords.ra.deg) * u.deg,
                     'dec': np.full(n, coords.dec.deg) * u.deg, 'polangle': np.zeros(n) * u.rad, 'probability': np.ones(n)})
    photons.meta['EXPOSURE'] = (expo, 'total')
    if dateobs:
        photons.meta['DATE-OBS'] = ('2013-05-06T07:08:09.000', 'start')
    photons = p(photons)
    meta = dict(photons.meta)
    step = 10**rng.uniform(-1, 1) if explicit else .256
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn = os.path.join(d, 'asol.fits')
        p.write_asol(photons, fn, **({'timestep': step} if explicit else {}))
        with fits.open(fn) as f:
            ext = f['ASPECT']
            tab = Table(ext.data)
            head = ext.header
            units = {c.name: c.unit for c in ext.columns}
            tab = Table({c: np.array(tab[c], dtype=float) for c in tab.colnames})
    ensure(dict(photons.meta) == meta, 'photon list is not changed')
    m = int(np.ceil(expo / step))
    ensure(abs(len(tab) - m) <= 1 and len(tab) >= 1, 'covers the exposure', got=len(tab), want=m)
    t = np.arange(len(tab)) * step
    close(tab['time'] - head['TSTART'], t, 'times', atol=1e-5)
    close(head['TSTOP'] - head['TSTART'], expo, 'exposure', atol=1e-5)
    v, r = pointing_oracle(amp, per, pha, coords, roll, t)
    tol = 1e-7 + 1.5e-5 * np.abs(roll) * np.max(amp[:2]) * 2
    close(unit(np.deg2rad(np.stack([tab['ra'], tab['dec']], axis=1))), v, 'pointing', atol=tol)
    close(np.deg2rad(np.asarray(tab['roll'])), r, 'roll', atol=1e-8)
    q = np.asarray(tab['q_att'])
    ensure(q.shape == (len(tab), 4), 'quaternions')
    close((q**2).sum(axis=1), np.ones(len(tab)), 'unit quaternions')
    w, x, y, z = q.T
    ex = np.stack([w**2 + x**2 - y**2 - z**2, 2 * (x * y + w * z), 2 * (x * z - w * y)], axis=1)
    ez = np.stack([2 * (x * z + w * y), 2 * (y * z - w * x), w**2 + z**2 - x**2 - y**2], axis=1)
    close(ex, v, 'attitude quaternion: optical axis points to the pointing direction', atol=tol)
    # z axis: north rotated by roll towards east
    north = np.array([0, 0, 1]) - v[:, 2:] * v
    north /= np.linalg.norm(north, axis=1)[:, None]
    east = np.cross(np.array([0., 0, 1]), v)
    east /= np.linalg.norm(east, axis=1)[:, None]
    close(ez, np.cos(r)[:, None] * north + np.sin(r)[:, None] * east, 'attitude quaternion: roll', atol=tol * 30)
    for c in tab.colnames:
        if c not in ['time', 'ra', 'dec', 'roll', 'q_att']:
            ensure((np.asarray(tab[c]) == 0).all(), 'offsets are not simulated')
    for c, v in units.items():
        want = ('s' if c == 'time' else None if c == 'q_att' else 'deg / s' if 'bias' in c else 'mm' if c[:2] in ('dy', 'dz') else 'deg')
        if v is None:
            ensure(c in ('q_att', 'ra', 'dec', 'roll'), 'unit of column', col=c)
        else:
            ensure(want is not None and u.Unit(v) == u.Unit(want), 'unit of column', col=c, unit=v)
    ensure(head['CONTENT'] == 'ACASOL' and head['HDUCLASS'] == 'OGIP' and head['TELESCOP'] == 'CHANDRA', 'header')
    close(head['RA_NOM'], coords.ra.deg, 'header nominal position')
    if dateobs:
        ensure(head['DATE-OBS'] == '2013-05-06T07:08:09.000', 'date of observation')
        close(head['OBS-MJD'], 56418.297326388886, 'MJD of the start', rtol=0, atol=1e-8)
    trivial(len(tab) < 2)


def chip_geometry(aim, offset):
    o = CORNERS[:, 0] + OLSI + aim - np.array([offset[0], 0, offset[1]])
    ex, ey = CORNERS[:, 1] - CORNERS[:, 0], CORNERS[:, 2] - CORNERS[:, 0]
    return o, ex, ey


def acis(rng, aimname):
    chips = [int(i) for i in rng.permutation(10)[:rng.integers(1, 11)]]
    off = np.zeros(2)
    kw = {}
    for i, k in enumerate(['DetOffsetX', 'DetOffsetY']):
        if rng.uniform() < .5:
            off[i] = kw[k] = float(rng.uniform(-8, 8))
    if rng.uniform() < .3:
        kw['name'] = 'my ACIS'
    det = chandra.ACIS(chips=chips, aimpoint=chandra.AIMPOINTS[aimname], **kw)
    if rng.uniform() < .3:
        det.generate_elements()
    return det, chips, off


def trace(chips, off, aimname, p, d):
    '''Chip hit, chip coordinates, position, ambiguous'''
    o, ex, ey = chip_geometry(AIM[aimname], off)
    n = len(p)
    chip = np.full(n, -1)
    coo = np.full((n, 2), np.nan)
    pos = np.full((n, 3), np.nan)
    bad = np.zeros(n, dtype=bool)
    for c in chips:
        nrm = np.cross(ex[c], ey[c])
        den = d @ nrm
        t = (o[c] - p) @ nrm / den
        x = p + t[:, None] * d
        lx, ly = np.linalg.norm(ex[c]), np.linalg.norm(ey[c])
        a = (x - o[c]) @ ex[c] / lx
        b = (x - o[c]) @ ey[c] / ly
        fx, fy = np.abs(2 * a / lx - 1), np.abs(2 * b / ly - 1)
        hit = (fx <= 1) & (fy <= 1) & (t >= 0)
        near = (np.maximum(fx, fy) < 1.01) & (np.maximum(fx, fy) > .997)
        bad |= near | (hit & (chip >= 0))
        chip[hit] = c
        # pixel 512.5 is in the center, one pixel is 0.024 mm
        coo[hit] = np.stack([(a - lx / 2) / .024 + 512.5, (b - ly / 2) / .024 + 512.5], axis=1)[hit]
        pos[hit] = x[hit]
    return chip, coo, pos, bad


def tdet_oracle(chip, coo):
    th = TDET_THETA[chip]
    v = coo - .5
    return np.stack([np.cos(th) * v[:, 0] + np.sin(th) * v[:, 1], -np.sin(th) * v[:, 0] + np.cos(th) * v[:, 1]], axis=1) + TDET_ORIG[chip] + .5


def check_coordinates(ph, chip, coo, pos, roll):
    hit = chip >= 0
    same(np.asarray(ph['CCD_ID']) if 'CCD_ID' in ph.colnames else np.full(len(ph), -1), chip, 'chip number')
    if not hit.any():
        return
    g = {c: np.asarray(ph[c], dtype=float)[hit] for c in ['chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y']}
    # the chips in the table of corners are rectangles only to 3 digits
    close(np.stack([g['chipx'], g['chipy']], axis=1), coo[hit], 'chip coordinates', atol=.1)
    got = np.stack([g['chipx'], g['chipy']], axis=1)
    close(np.stack([g['tdetx'], g['tdety']], axis=1), tdet_oracle(chip[hit], got), 'tiled detector coordinates follow from chip coordinates', atol=1e-6)
    x = np.asarray(ph['pos'])[hit, :3]
    close(x, pos[hit], 'position', atol=3e-3)
    size = np.deg2rad(.492 / 3600)
    u_, v_ = x[:, 1] / (F - x[:, 0]) / size, x[:, 2] / (F - x[:, 0]) / size
    close(g['detx'], 4096.5 + u_, 'detx', atol=1e-6)
    close(g['dety'], 4096.5 - v_, 'dety', atol=1e-6)
    c, s = np.cos(roll), np.sin(roll)
    close(g['x'] - 4096.5, c * (g['detx'] - 4096.5) + s * (g['dety'] - 4096.5), 'x is rotated by roll', atol=1e-6)
    close(g['y'] - 4096.5, -s * (g['detx'] - 4096.5) + c * (g['dety'] - 4096.5), 'y is rotated by roll', atol=1e-6)


@sub('C35', dict(seed=seeds, aim=st.sampled_from(['ACIS-I', 'ACIS-S'])), quick=80, thorough=5000)
def chip_coordinates(seed, aim):
    rng = rng_of(seed)
    det, chips, off = acis(rng, aim)
    ensure([e.id_num for e in det.elements] == chips, 'selection of chips')
    ensure([e.chip_name for e in det.elements] == ['ACIS-' + NAMES[i] for i in chips], 'names of chips')
    for e in det.elements:
        ensure(list(e.npix) == [1024, 1024], 'number of pixels')
    n = 40
    o, ex, ey = chip_geometry(AIM[aim], off)
    k = rng.integers(0, 10, n)
    k[:20] = rng.choice(chips, 20)
    f = rng.uniform(-.03, 1.03, (n, 2))
    target = o[k] + f[:, :1] * ex[k] + f[:, 1:] * ey[k]
    d = np.stack([-np.ones(n), rng.normal(0, .03, n), rng.normal(0, .03, n)], axis=1)
    d /= np.linalg.norm(d, axis=1)[:, None]
    p = target - d * rng.uniform(20, 1000, n)[:, None]
    chip, coo, pos, bad = trace(chips, off, aim, p, d)
    p, d, chip, coo, pos = (z[~bad] for z in [p, d, chip, coo, pos])
    if len(p) == 0:
        trivial()
        return
    roll = rng.uniform(-7, 7)
    ph = photon_table(rng, p, d)
    ph.meta['ROLL_PNT'] = (np.rad2deg(roll), 'roll')
    before = ph.copy()
    ph = det(ph)
    check_coordinates(ph, chip, coo, pos, roll)
    for c in before.colnames:
        if c != 'pos':
            same(np.asarray(ph[c]), np.asarray(before[c]), f'{c} does not change')
    m = ph.meta
    sim = AIM[aim] - np.array([off[0], 0, off[1]])
    close(np.array([np.ravel(m[k])[0] for k in ['SIM_X', 'SIM_Y', 'SIM_Z']], dtype=float), sim, 'position of the table')
    ensure(m['DETNAM'] == 'ACIS-' + ''.join(str(i) for i in chips), 'detector name')
    ensure(m['INSTRUME'][0] == 'ACIS', 'instrument')
    label('chips', len(chips) > 4)
    label('offset', (off != 0).any())
    trivial((chip >= 0).sum() < 3)


@sub('C35', dict(seed=seeds, aim=st.sampled_from(['ACIS-I', 'ACIS-S']), dith=st.booleans(), rolled=st.booleans()), quick=60, thorough=2500,
     examples=[dict(seed=1, aim='ACIS-I', dith=False, rolled=True)])
def sky_coordinates(seed, aim, dith, rolled):
    '''Ideal mirror: x, y are a tangential projection of the sky'''
    rng = rng_of(seed)
    coords = SkyCoord(rng.uniform(0, 360), rng.uniform(-80, 80), unit='deg')
    roll = rng.uniform(-7, 7) if rolled else rng.choice([0, 2 * np.pi])
    n = 25
    r = 10**rng.uniform(-5, -2.3, n)
    phi = rng.uniform(0, 2 * np.pi, n)
    src = coords.directional_offset_by(phi * u.rad, r * u.rad)
    ph = Table({'time': np.arange(n) * 10. * u.s, 'energy': np.ones(n) * u.keV, 'ra': src.ra.deg * u.deg, 'dec': src.dec.deg * u.deg,
                'polangle': np.zeros(n) * u.rad, 'probability': np.ones(n)})
    amp = np.zeros(3) if not dith else np.array([rng.uniform(0, 30), rng.uniform(0, 30), 0]) * ARCSEC
    per, pha = 10**rng.uniform(2, 4, 3), rng.uniform(-6, 6, 3)
    pt = chandra.LissajousDither(coords=coords, roll=roll * u.rad, DitherAmp=amp * u.rad, DitherPeriod=per * u.s, DitherPhase=pha * u.rad)
    ph = pt(ph)
    d = np.asarray(ph['dir'])[:, :3]
    p = np.array([F, 0, 0]) - 10 * d
    ph['pos'] = h(p, 1)
    det, chips, off = acis(rng, aim)
    chip, coo, pos, bad = trace(chips, off, aim, p, d)
    ok = ~bad
    ph = det(ph[ok])
    chip, coo, pos = (z[ok] for z in [chip, coo, pos])
    check_coordinates(ph, chip, coo, pos, roll)
    hit = chip >= 0
    if not hit.any():
        trivial()
        return
    # tangential projection around the direction in which the telescope points at this time
    v, rr = pointing_oracle(amp, per, pha, coords, roll, np.asarray(ph['time']))
    s = unit(np.deg2rad(np.stack([ph['ra'], ph['dec']], axis=1)))
    north = np.array([0, 0, 1]) - v[:, 2:] * v
    north /= np.linalg.norm(north, axis=1)[:, None]
    east = np.cross(np.array([0., 0, 1]), v)
    east /= np.linalg.norm(east, axis=1)[:, None]
    xi, eta = (s * east).sum(axis=1) / (s * v).sum(axis=1), (s * north).sum(axis=1) / (s * v).sum(axis=1)
    pix = np.deg2rad(.492 / 3600)
    got = np.stack([ph['x'] - 4096.5, ph['y'] - 4096.5], axis=1)[hit]
    want = np.stack([-xi, eta], axis=1)[hit] / pix
    # the plane of the chip is not flat on the focal surface, but x, y are calculated from the true 3 dim position
    if rolled and np.abs(got - want).max() > .05:
        # LissajousDither.photons_dir and FixedPointing measure roll N->E, but the transformation from DET to SKY has it the other way
        c, s_ = np.cos(2 * roll), np.sin(2 * roll)
        wrong = np.stack([c * want[:, 0] + s_ * want[:, 1], -s_ * want[:, 0] + c * want[:, 1]], axis=1)
        close(got, wrong, 'x, y are rotated by twice the roll', atol=.05)
        known_finding('ACIS sky coordinates x, y of a source are rotated by twice the roll angle')
    else:
        close(got, want, 'x points to the west, y to the north', atol=.05)
    label('dither', dith)


@sub('C35', dict(seed=seeds), quick=40, thorough=2000)
def column_order(seed):
    rng = rng_of(seed)
    pool = ['CHIPx', 'CHIPy', 'Detx', 'Dety', 'chipx', 'chipy', 'tdetx', 'tdety', 'detx', 'dety', 'x', 'y', 'energy', 'CCD_ID', 'probability', 'ra', 'dec', 'fooX', 'foox', 'fooy',
            'time', 'xcoo', 'hex', 'key', 'RA', 'DEC', 'barx', 'bary', 'order']
    cols = [str(c) for c in rng.permutation(pool)[:rng.integers(1, len(pool))]]
    cols = [c for i, c in enumerate(cols) if c in ['RA', 'DEC', 'fooX'] or c.lower() not in [k.lower() for k in cols[:i]]]
    tab = Table({c: rng.uniform(size=4) for c in cols})
    out = fitsheaders.sort_columns(tab)
    names = out.colnames
    ensure(sorted(names) == sorted(cols), 'same columns')
    for c in cols:
        same(out[c], tab[c], 'same content')
    stems = [c[:-1] for c in cols if c.endswith('x') and c[:-1] + 'y' in cols]
    for s in stems:
        ensure(names.index(s + 'y') == names.index(s + 'x') + 1, 'pairs of coordinates are next to each other', stem=s, names=names)
    std = [s + 'x' for k in ['chip', 'tdet', 'det', ''] for s in stems if s.lower() == k]
    ensure([n for n in names if n in std] == std, 'order of coordinate systems', names=names)
    ensure(names[:2 * len(std):2] == std, 'coordinates come first', names=names)
    for a, b in [('ra', 'dec'), ('RA', 'DEC')]:
        if a in cols and b in cols:
            ensure(names.index(b) == names.index(a) + 1, 'ra, dec')
    rest = [c for c in names if c not in [s + z for s in stems for z in 'xy'] and not
            ((c in ['ra', 'dec'] and 'ra' in cols and 'dec' in cols) or (c in ['RA', 'DEC'] and 'RA' in cols and 'DEC' in cols))]
    ensure(rest == sorted(rest), 'rest is sorted')
    ensure(names[len(names) - len(rest):] == rest, 'rest at the end')
    trivial(len(stems) < 1)


@sub('C35', dict(seed=seeds, aim=st.sampled_from(['ACIS-I', 'ACIS-S'])), quick=25, thorough=600)
def event_file(seed, aim):
    rng = rng_of(seed)
    det, chips, off = acis(rng, aim)
    n = 20
    o, ex, ey = chip_geometry(AIM[aim], off)
    k = rng.choice(chips, n)
    f = rng.uniform(.1, .9, (n, 2))
    target = o[k] + f[:, :1] * ex[k] + f[:, 1:] * ey[k]
    d = np.tile([-1., 0, 0], (n, 1))
    ph = photon_table(rng, target - 100 * d, d)
    expo = rng.uniform(1, 1e4) if rng.uniform() < .6 else 10**rng.uniform(4, 6)
    ra, dec = rng.uniform(0, 360), rng.uniform(-90, 90)
    ph.meta.update({'ROLL_PNT': (rng.uniform(0, 360), 'roll'), 'RA_PNT': (ra, 'ra'), 'DEC_PNT': (dec, 'dec'), 'EXPOSURE': (expo, 'total'),
                    'TLMIN7': 12345})
    keep = rng.uniform() < .5
    if keep:
        ph.meta['OBSERVER'] = ('Somebody', 'name')
    if 'ra' not in ph.colnames:
        ph['ra'], ph['dec'] = rng.uniform(0, 360, n), rng.uniform(-90, 90, n)
    obs = chandra.Chandra(elements=[det])
    ph = obs(ph)
    ensure(ph.meta['TELESCOP'][0] == 'CHANDRA' and ph.meta['MISSION'][0] == 'AXAF', 'telescope')
    before = ph.copy()
    with tempfile.TemporaryDirectory() as dn, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn = os.path.join(dn, 'evt.fits')
        obs.write_evt(ph, fn)
        with fits.open(fn) as ff:
            ext = ff['EVENTS']
            tab = Table(ext.data)
            tab = {c: np.array(tab[c]) for c in tab.colnames}
            head = dict(ext.header)
    for c in before.colnames:
        new = {'ra': 'marxs_ra', 'dec': 'marxs_dec'}.get(c, c)
        ensure(new in tab, 'all columns are written', col=c)
        if np.asarray(before[c]).dtype.kind in 'iuf':
            same(np.asarray(tab[new], dtype=float), np.asarray(before[c], dtype=float), 'content of columns')
    ensure('ra' not in tab and 'dec' not in tab, 'source positions are renamed')
    close(head['TSTOP'] - head['TSTART'], expo, 'start and stop', atol=1e-5)
    start, stop = Time(head['DATE-OBS'], format='fits'), Time(head['DATE-END'], format='fits')
    close((stop - start).sec, expo, 'dates of start and stop', atol=.01)
    close(head['OBS-MJD'], start.mjd, 'MJD of the start', rtol=0, atol=1e-3)
    close([head['ONTIME'], head['LIVETIME'], head['EXPOSURE']], [expo] * 3, 'exposure')
    ensure(head['OBSERVER'] == ('Somebody' if keep else 'MARXS'), 'keywords that were set before')
    lim = {'CCD_ID': [0, 9], 'CHIPX': [2, 1023], 'CHIPY': [2, 1023], 'TDETX': [2, 8191], 'TDETY': [2, 8191], 'DETX': [.5, 8192.5], 'DETY': [.5, 8192.5],
           'X': [.5, 8192.5], 'Y': [.5, 8192.5], 'ENERGY': [0, 1e6]}
    names = list(tab)
    # astropy drops these keywords when it writes the file, see DESIGN.md
    wcs = {k: v[0] if isinstance(v, tuple) else v for k, v in ph.meta.items()}
    # Sky coordinates: angles increase by one pixel of 0.492 arcsec, RA to the left; reference is the optical axis
    for c, kind, val, sign in [('x', 'RA---TAN', ra, -1), ('y', 'DEC--TAN', dec, 1)]:
        i = names.index(c) + 1
        ensure(wcs[f'TCTYP{i}'].replace('-', '') == kind.replace('-', ''), 'sky coordinates are a tangential projection', col=c)
        close(wcs[f'TCRVL{i}'], val, 'sky coordinates of the reference pixel', col=c)
        close(wcs[f'TCRPX{i}'], 4096.5, 'reference pixel', col=c)
        close(wcs[f'TCDLT{i}'], sign * .492 / 3600, 'pixel size', rtol=1e-3, col=c)
    ensure(len([k for k in wcs if k[:5] == 'TCTYP']) == 2, 'no sky coordinates in other columns')
    for i, c in enumerate(names):
        if c.upper() in lim:
            close([head[f'TLMIN{i + 1}'], head[f'TLMAX{i + 1}']], lim[c.upper()], 'limits of columns', col=c)
        else:
            ensure(f'TLMIN{i + 1}' not in head and f'TLMAX{i + 1}' not in head, 'no limits for other columns', col=c)
    for i, s in enumerate(['chip', 'tdet', 'det', 'sky']):
        ensure(head[f'MTYPE{i + 1}'] == s, 'groups of columns')
        a, b = head[f'MFORM{i + 1}'].split(',')
        ensure(a in names and b in names, 'columns of the group exist')
