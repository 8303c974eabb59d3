'''C17: detectors.'''
import warnings
import numpy as np
from hypothesis import strategies as st
from scipy.stats import kstest, norm
import astropy.units as u
from astropy.table import QTable

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import (no_trend, rng_of, seeds, floats, logfloats, placements, place_kwargs, make_pos4d, photon_table, aimed_rays, rand_unit, positions,
                    rotations)

from marxs.optics import FlatDetector, CircularDetector
from marxs.optics.detector import CCDRedistNormal
from marxs.math.geometry import Cylinder
from marxs.utils import SimulationSetupWarning
from marxs.optics import FlatStack, EnergyFilter

PMIN = 1e-10


@sub('C17', dict(place=placements(zlo=.05, zhi=50.), mat=st.booleans(), nx=st.integers(1, 3000), ny=st.integers(1, 3000), match=st.booleans(),
                 pix=logfloats(1e-3, 5), ignore=st.booleans(), stack=st.booleans(), n=st.integers(1, 40), seed=seeds), quick=300, thorough=10000)
def flat(place, mat, nx, ny, match, pix, ignore, stack, n, seed):
    rng = rng_of(seed)
    pos, rot, zoom = place
    zoom = np.array(zoom)
    if match:
        zoom[1], zoom[2] = pix * nx / 2, pix * ny / 2
    place = pos, rot, zoom
    ratio = 2 * zoom[1:] / pix
    off = np.abs(ratio - np.round(ratio))
    if np.any(np.abs(off - .01) < 1e-5) or np.any(np.abs(off - .5) < 1e-5) or np.any(ratio < .6) or np.any(ratio > 1e8):
        trivial()
        return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if stack:
            det = FlatStack(elements=[EnergyFilter, FlatDetector],
                            keywords=[{'filterfunc': lambda e: .5 * np.ones_like(e)}, {'pixsize': pix, 'ignore_pixel_warning': ignore}],
                            **place_kwargs(place, mat))
            det0 = det.elements[1]
        else:
            det0 = det = FlatDetector(pixsize=pix, ignore_pixel_warning=ignore, **place_kwargs(place, mat))
    nw = len([x for x in w if issubclass(x.category, SimulationSetupWarning)])
    ensure((nw > 0) == (bool(np.any(off > .01)) and not ignore), 'warning for a size that is not an integer multiple of the pixel size',
           warnings=nw, ratio=ratio, ignore=ignore)
    npix = np.round(ratio).astype(int)
    same(np.asarray(det0.npix), npix, 'number of pixels')
    p, d, target = aimed_rays(rng, n, place)
    loc = (target - pos) @ rot[:, 1:]
    if n > 3:      # aim for pixel centres of the corners
        for i, (a, b) in enumerate([(0, 0), (npix[0] - 1, npix[1] - 1), (0, npix[1] - 1)]):
            loc[i] = (np.array([a, b]) - (npix - 1) / 2) * pix
        target = pos + loc @ rot[:, 1:].T
        p = target - rng.uniform(1, 300, n)[:, None] * d
    ph = det(photon_table(rng, p, d))
    inside = np.all(np.abs(loc) < zoom[1:] * (1 - 1e-9), axis=1)
    outside = np.any(np.abs(loc) > zoom[1:] * (1 + 1e-9), axis=1)
    if not inside.any():
        trivial()
        return
    cols = [np.asarray(ph[c], dtype=float) for c in ('det_x', 'det_y', 'detpix_x', 'detpix_y')]
    for c in cols:
        ensure(np.all(np.isnan(c[outside])), 'no coordinates for photons that miss')
        ensure(np.all(np.isfinite(c[inside])), 'coordinates for photons that hit')
    scale = np.abs(pos).max() + 300 + zoom.max()
    xy = np.stack(cols[:2], axis=1)
    pxy = np.stack(cols[2:], axis=1)
    close(xy[inside], loc[inside], 'local coordinates', atol=1e-9 * scale, rtol=0)
    hit = np.asarray(ph['pos'])[:, :3]
    close((pos + xy @ rot[:, 1:].T)[inside], hit[inside], 'coordinates locate the hit in space', atol=1e-9 * scale, rtol=0)
    close((pxy - (npix - 1) / 2)[inside] * pix, xy[inside], 'pixel coordinates from the centre', atol=1e-9 * scale, rtol=0)
    if off.max() < 1e-6:
        close(((pxy + .5) * pix - zoom[1:])[inside], loc[inside], '(0,0) is the centre of the corner pixel', atol=2e-6 * pix + 1e-9 * scale, rtol=0)
        e = 1e-5 + 1e-9 * scale / pix
        ensure(np.all((pxy[inside] >= -.5 - e) & (pxy[inside] <= npix - .5 + e)), 'pixel coordinate outside of the chip')


@sub('C17', dict(pos=positions(), rot=rotations(), R=logfloats(1, 300), hz=logfloats(.1, 100), pix=logfloats(1e-3, 5), lo=floats(-3.14159, 3),
                 width=floats(.05, 6.3), full=st.booleans(), asgeom=st.booleans(), n=st.integers(1, 40), seed=seeds), quick=200, thorough=6000)
def circular(pos, rot, R, hz, pix, lo, width, full, asgeom, n, seed):
    rng = rng_of(seed)
    hi = min(lo + width, np.pi)
    lim = [-np.pi, np.pi] if full else [lo, hi]
    place = (pos, rot, np.array([R, R, hz]))
    kw = {'pos4d': make_pos4d(*place)}
    if not full:
        kw['phi_lim'] = lim
    det = CircularDetector(pixsize=pix, geometry=Cylinder(kw)) if asgeom else CircularDetector(pixsize=pix, **kw)
    off = np.zeros(2)
    if rng.random() < .3:
        off = rng.uniform(-100, 100, 2)
        det.centerpix = list(off)
    phi = rng.uniform(-np.pi, np.pi, n)
    z = rng.uniform(-1.2, 1.2, n) * hz
    local = np.stack([R * np.cos(phi), R * np.sin(phi), z], axis=1)
    target = pos + local @ rot.T
    # rays from inside: one crossing
    a = rng.uniform(0, 2 * np.pi, n)
    start = np.stack([np.cos(a), np.sin(a), np.zeros(n)], axis=1) * (R * rng.uniform(0, .8, n))[:, None]
    start[:, 2] = rng.uniform(-1, 1, n) * hz
    p = pos + start @ rot.T
    ph = det(photon_table(rng, p, target - p))
    inl = (phi > lim[0] + 1e-7) & (phi < lim[1] - 1e-7) & (np.abs(z) < hz * (1 - 1e-7))
    out = (phi < lim[0] - 1e-7) | (phi > lim[1] + 1e-7) | (np.abs(z) > hz * (1 + 1e-7))
    if not inl.any():
        trivial()
        return
    g = {c: np.asarray(ph[c], dtype=float) for c in ('det_phi', 'det_y', 'detpix_x', 'detpix_y')}
    for c in g.values():
        ensure(np.all(np.isnan(c[out])), 'no coordinates for photons that miss')
    g['detpix_x'] = g['detpix_x'] - off[0]
    g['detpix_y'] = g['detpix_y'] - off[1]
    scale = np.abs(pos).max() + R + hz
    rec = np.stack([R * np.cos(g['det_phi']), R * np.sin(g['det_phi']), g['det_y']], axis=1)
    close((pos + rec @ rot.T)[inl], target[inl], 'coordinates locate the hit in space', atol=1e-8 * scale, rtol=0)
    close(np.asarray(ph['pos'])[inl, :3], target[inl], 'position', atol=1e-8 * scale, rtol=0)
    close(g['det_phi'][inl], phi[inl], 'angle', atol=1e-7)
    close(g['detpix_x'][inl] * pix, g['det_phi'][inl] * R, 'pixels along the circle', atol=1e-8 * scale, rtol=1e-9)
    close(g['detpix_y'][inl] * pix, g['det_y'][inl], 'pixels along the axis', atol=1e-8 * scale, rtol=1e-9)
    x = g['detpix_x'][inl] * pix
    ensure(np.all((x >= lim[0] * R - 1e-6 * R) & (x <= lim[1] * R + 1e-6 * R)), 'pixels within the limits')


@sub('C17', dict(en=st.lists(st.one_of(floats(.1, 10), floats(.1, 10), floats(10, 40)), min_size=2, max_size=6, unique_by=lambda x: round(x, 2)), fwhm=st.booleans(),
                 uE=st.sampled_from([u.keV, u.eV]), uS=st.sampled_from([u.keV, u.eV]), alpha=floats(.01, .99), n=st.integers(1, 20),
                 seed=seeds), quick=80, thorough=2500)
def resolution(en, fwhm, uE, uS, alpha, n, seed):
    rng = rng_of(seed)
    en = np.sort(en)
    sig = rng.uniform(.01, .5, len(en))
    tab = QTable({'energy': (en * u.keV).to(uE), ('FWHM' if fwhm else 'sigma'): (sig * (2.3548200450309493 if fwhm else 1) * u.keV).to(uS)})
    ccd = CCDRedistNormal(tab_width=tab)
    top = max(11, 1.1 * en[-1])
    e = rng.uniform(.05, top, n)
    want = np.interp(e, en, sig)
    close(ccd.sig_ccd(e * u.keV).to_value(u.keV), want, 'width interpolated', rtol=1e-7)
    close(ccd.sig_ccd(e * 1000 * u.eV).to_value(u.keV), want, 'width for energies in eV', rtol=1e-7)
    close(ccd.sig_ccd((e * u.keV).to(u.AA, equivalencies=u.spectral())).to_value(u.keV), want, 'width for wavelengths', rtol=1e-7)
    x = e + rng.normal(size=n) * want * 2
    close(ccd.cdf(x * u.keV, e * u.keV), norm.cdf((x - e) / want), 'cumulative distribution', rtol=1e-7)
    iv = ccd.interval(alpha, e * u.keV)
    close(ccd.cdf(iv[0], e * u.keV), np.full(n, (1 - alpha) / 2), 'lower end of the interval', rtol=1e-6)
    close(ccd.cdf(iv[1], e * u.keV), np.full(n, (1 + alpha) / 2), 'upper end of the interval', rtol=1e-6)
    # photons
    m = 3000
    np.random.seed(seed % 2**32)
    d = np.tile([-1., 0, 0], (m, 1))
    p = np.stack([np.full(m, 5.), rng.uniform(-1.5, 1.5, m), rng.uniform(-.9, .9, m)], axis=1)
    ph = photon_table(rng, p, d, energy=rng.uniform(.05, top, m))
    before = ph.copy()
    ph = ccd(ph)
    hit = np.abs(p[:, 1]) <= 1
    same(ph['energy'], before['energy'], 'true energy')
    same(ph['probability'], before['probability'], 'probability')
    det = np.asarray(ph['energy_detected'], dtype=float)
    same(np.isfinite(det), hit, 'detected energy for photons that hit')
    e = np.asarray(before['energy'])
    zz = (det - e)[hit] / np.interp(e, en, sig)[hit]
    ensure(kstest(zz, 'norm').pvalue > PMIN, 'distribution of detected energies', mean=zz.mean(), std=zz.std())
    no_trend(zz, 'detected energies')
    for sel in (e[hit] < np.median(e), e[hit] >= np.median(e)):
        ensure(kstest(zz[sel], 'norm').pvalue > PMIN, 'distribution of detected energies', mean=zz[sel].mean(), std=zz[sel].std())
