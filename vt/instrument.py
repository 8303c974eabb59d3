'''Common checks of complete instruments with gratings (Lynx and AXIS).'''
import numpy as np

from .core import ensure, close, label, same
from .gen import h


def torus_distance(t, points):
    '''Signed tube-radius mismatch of points, from the definition of the torus.'''
    x = h(points, 1) @ np.linalg.inv(t.pos4d).T
    return np.hypot(np.hypot(x[:, 0], x[:, 2]) - t.R, x[:, 1]) - t.r


def check_gas(conf, gas):
    '''Gratings are on the Rowland torus, have the size and blaze of the configuration'''
    c = np.array([e.pos4d[:3, 3] for e in gas.elements])
    ensure(len(c) > 3, 'there are gratings')
    close(torus_distance(conf['rowland'], c), np.zeros(len(c)), 'gratings are on the torus', rtol=0, atol=1e-4)
    ensure(np.all(c[:, 0] > 5e3), 'gratings are on the mirror side')
    r = np.hypot(c[:, 1], c[:, 2])
    half = np.hypot(*(conf['grating_size'] / 2 + conf['grating_frame']))
    g = conf['metashellgeometry']
    ensure(r.min() > g['r_inner'].min() - half and r.max() < g['r_outer'].max() + half,
           'gratings are within the radii of the mirror', r=(r.min(), r.max()))
    for e in gas.elements:
        close(np.linalg.norm(e.pos4d[:3, :3], axis=0)[1:], conf['grating_size'] / 2, 'size of the gratings', rtol=1e-9)
        nrm = e.pos4d[:3, 0] / np.linalg.norm(e.pos4d[:3, 0])
        los = e.pos4d[:3, 3] / np.linalg.norm(e.pos4d[:3, 3])
        ensure(abs(np.arccos(min(1, abs(nrm @ los))) - conf['blazeang']) < 1e-6, 'gratings are blazed',
               ang=np.arccos(abs(nrm @ los)), expected=conf['blazeang'])
        ey = e.pos4d[:3, 1] / np.linalg.norm(e.pos4d[:3, 1])
        ensure(ey[1] > 0.95 and abs(ey[2]) < .02, 'gratings are aligned with the dispersion direction', ey=ey)
        # blazed towards the side of the CCDs: reflection on the bars of the grating
        refl = -los + 2 * (los @ ey) * ey
        close(refl[1] / -refl[0] * e.pos4d[0, 3] + e.pos4d[1, 3], np.tan(2 * conf['blazeang']) * e.pos4d[0, 3],
              'gratings are blazed to the other side', rtol=.2)


def check_detectors(conf, ray, out, det, direct, direct_half, direct_pix):
    '''Every detector of the instrument reports a point on the same ray

    ray : photon table in front of the detectors
    out : photon table at the end
    det : Rowland detector array
    direct : name of the detector in the focal plane
    '''
    pos, d = np.array(ray['pos'])[:, :3], np.array(ray['dir'])[:, :3]
    foc = pos - d * (pos[:, :1] / d[:, :1])        # at x = 0
    ok = np.isfinite(foc).all(axis=1) & (np.array(ray['probability']) > 0)
    for i, n in enumerate(['detinf_x', 'detinf_y']):
        close(np.array(out[n])[ok], foc[ok, i + 1], f'{n}: position in the focal plane', rtol=0, atol=1e-5)
    # the small detector at the focal point
    on = ok & np.all(np.abs(foc[:, 1:]) < direct_half - 1e-6, axis=1)
    off = ok & np.any(np.abs(foc[:, 1:]) > direct_half + 1e-6, axis=1)
    got = [np.array(out[n]) if n in out.colnames else np.full(len(out), np.nan)
           for n in (f'{direct}_x', f'{direct}_y', f'{direct}pix_x', f'{direct}pix_y')]
    for i in (0, 1):
        ensure(np.all(np.isnan(got[i][off]) & np.isnan(got[i + 2][off])), 'no position if the detector is missed')
        close(got[i][on], foc[on, i + 1], f'{direct}: position', rtol=0, atol=1e-5)
        close(got[i + 2][on] * direct_pix - direct_half + direct_pix / 2, foc[on, i + 1], f'{direct}: pixels',
              rtol=0, atol=1e-5)
    label('direct light', on.any())
    # Rowland circle, the second intersection as seen from the gratings
    tor = conf['rowland']
    inv = np.linalg.inv(tor.pos4d)
    lp, ld = (h(pos, 1) @ inv.T)[:, :3], (h(d, 0) @ inv.T)[:, :3]
    p2, d2 = lp[:, :2] - [tor.R, 0], ld[:, :2]
    a, b, c = np.sum(d2**2, axis=1), np.sum(p2 * d2, axis=1), np.sum(p2**2, axis=1) - tor.r**2
    disc = b**2 - a * c
    with np.errstate(invalid='ignore'):
        t = (-b + np.sqrt(disc)) / a               # far side
    x = lp + t[:, None] * ld
    # Position of the center of the detector: opposite to the gratings
    phi = np.arctan2(-x[:, 1], -(x[:, 0] - tor.R))
    sure = ok & (disc > 0) & (np.abs(np.abs(x[:, 2]) - 50) > 1e-3) & (np.abs(np.abs(phi) - np.pi / 2) > 1e-6)
    hit = sure & (np.abs(x[:, 2]) < 50) & (np.abs(phi) < np.pi / 2)
    if 'detcirc_phi' in out.colnames:
        gphi, gy = np.array(out['detcirc_phi']), np.array(out['detcirc_y'])
    else:
        gphi = gy = np.full(len(out), np.nan)
    ensure(np.all(np.isfinite(gphi[hit])), 'circular detector: all rays that hit are seen')
    ensure(np.all(np.isnan(gphi[sure & ~hit])), 'circular detector: other rays are not seen')
    close(gphi[hit], phi[hit], 'circular detector: angle', rtol=0, atol=1e-6)
    close(gy[hit], x[hit, 2], 'circular detector: height', rtol=0, atol=1e-4)
    for i, n in enumerate(['projcirc_y', 'projcirc_z']):
        glob = (h(x, 1) @ tor.pos4d.T)[:, i + 1]
        close(np.array(out[n])[hit], glob[hit], f'{n}: projection from the circle', rtol=0, atol=1e-4)
    label('circular detector', hit.any())
    # CCDs
    nccd = 0
    ccd = np.array(out['CCD_ID'] if 'CCD_ID' in out.colnames else np.full(len(out), -1))
    if 'facet' in ray.colnames:
        same(np.array(out['facet']), np.array(ray['facet']), 'number of the grating stays')
    inside = np.zeros(len(out), dtype=int)
    for e in det.elements:
        inv = np.linalg.inv(e.pos4d)
        lp, ld = (h(pos, 1) @ inv.T)[:, :3], (h(d, 0) @ inv.T)[:, :3]
        loc = (lp - ld * (lp[:, :1] / ld[:, :1]))[:, 1:]
        size = np.linalg.norm(e.pos4d[:3, 1:3], axis=0)
        m = np.max(np.abs(loc), axis=1)
        w = ok & (m < 1 - 1e-6)
        inside += ok & (m < 1 + 1e-6)
        ensure(np.all(ccd[w] >= 0), 'all rays that hit a CCD are detected')
        if not w.any():
            continue
        nccd += w.sum()
        close(ccd[w], np.full(w.sum(), e.id_num), 'number of the CCD')
        pix = e.pixsize
        at = (h(np.column_stack([np.zeros(len(loc)), loc]), 1) @ e.pos4d.T)[:, 1:3]
        for i, n in enumerate('xy'):
            far = w & ~on        # not seen by the detector in the focal plane before
            close(np.array(out[f'proj_{n}'])[far], at[far, i], f'proj_{n}', rtol=0, atol=1e-4)
            close(np.array(out[f'det_{n}'])[w], (loc * size)[w, i], f'det_{n}', rtol=0, atol=1e-5)
            close(np.array(out[f'detpix_{n}'])[w], ((loc + 1) * size)[w, i] / pix - .5, f'detpix_{n}', rtol=0,
                  atol=1e-5 / pix)
    ensure(np.all(ccd[ok & (inside == 0)] < 0), 'no CCD number for rays that miss')
    label('CCDs', nccd > 0)
    return on, hit, nccd
