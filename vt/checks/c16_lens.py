'''C16: lenses.'''
import numpy as np
from hypothesis import strategies as st

from vt.core import sub, ensure, close, same, trivial, label
from vt.gen import (rng_of, seeds, floats, logfloats, placements, place_kwargs, photon_table, aimed_rays, rotmat, rand_unit, rotations)

from marxs.optics import PerfectLens, ThinLens


class Recorder:
    '''reflectivity function that keeps a log of its arguments'''
    def __init__(self, kind):
        self.kind = kind
        self.calls = []

    def value(self, e, ang):
        if self.kind == 0:
            return np.ones_like(e)
        return np.exp(-(.1 * e + ang) * self.kind / 3)

    def __call__(self, e, ang, grid=True):
        ensure(grid is False, 'reflectivity has to be evaluated photon by photon')
        e, ang = np.array(e, dtype=float), np.array(ang, dtype=float)
        self.calls.append((e, ang))
        return self.value(e, ang)


@sub('C16', dict(place=placements(zlo=1, zhi=300.), mat=st.booleans(), f=logfloats(20, 2e4), doff=st.one_of(st.just(None), floats(-300, 300)),
                 kind=st.integers(0, 3), style=st.sampled_from(['random', 'bundle', 'narrow', 'centre']), n=st.integers(1, 40), seed=seeds),
     quick=250, thorough=8000)
def perfect_lens(place, mat, f, doff, kind, style, n, seed):
    rng = rng_of(seed)
    pos, rot, zoom = place
    p, d, target = aimed_rays(rng, n, place, maxang=None if style == 'random' else (.001 if style == 'narrow' else .5))
    if style in ('bundle', 'centre'):
        d = np.tile(d[0], (n, 1))
        p = target - rng.uniform(1, 300, n)[:, None] * d
    if style == 'centre':
        # most rays go through the undeflected point, if that is on the lens
        target = pos + rng.choice([0, 0, 1e-12, 1e-9, 1e-6], size=(n, 1)) * rot[:, 1]
        p = target - rng.uniform(1, 300, n)[:, None] * d
    rec = Recorder(kind)
    kw = dict(place_kwargs(place, mat))
    if doff is not None and style != 'centre':
        kw['d_center_optical_axis'] = doff
    else:
        doff = None
    if kind:
        kw['reflectivity_interpolator'] = rec
    lens = PerfectLens(focallength=f, **kw)
    ph = photon_table(rng, p, d)
    before = ph.copy()
    ph = lens(ph)
    loc = (target - pos) @ rot[:, 1:]
    hit = np.all(np.abs(loc) < zoom[1:] * (1 - 1e-9), axis=1)
    sure = hit | np.any(np.abs(loc) > zoom[1:] * (1 + 1e-9), axis=1)
    moved = np.isfinite(ph['mirror_x']) if 'mirror_x' in ph.colnames else np.zeros(n, bool)
    same(moved[sure], hit[sure], 'the lens acts on photons that hit it')
    if not moved.any():
        trivial()
        return
    d0 = np.asarray(before['dir'])[moved][:, :3]
    d1 = np.asarray(ph['dir'])[moved][:, :3]
    p1 = np.asarray(ph['pos'])[moved][:, :3]
    scale = np.abs(pos).max() + zoom.max() + 300 + f
    close(p1, target[moved], 'rays start from the point where they hit the lens', atol=1e-9 * scale, rtol=0)
    centre = pos - (doff or 0.) * rot[:, 2]
    focus = centre + f * d0
    dist = np.linalg.norm(focus - p1, axis=1)
    ok = dist > 1e-3 * f
    close(np.linalg.norm(d1, axis=1), np.ones(len(d1)), 'unit direction')
    close(d1[ok], ((focus - p1) / dist[:, None])[ok], 'ray points to the focus', atol=1e-8 * (scale / dist[ok]).max(), rtol=0)
    if style in ('bundle', 'centre') and len(d1) > 1 and ok.all():
        # all meet in one point, one focal length along the ray from the centre
        foot = p1 + np.sum((focus - p1) * d1, axis=1)[:, None] * d1
        ensure(np.abs(foot - foot[0]).max() < 1e-7 * scale, 'parallel rays meet in a point')
    # reflectivity
    c = np.clip(np.sum(d0 * d1, axis=1), -1, 1)
    cr = np.linalg.norm(np.cross(d0, d1), axis=1)
    bend = np.arctan2(cr, c)
    m = bend < 1.5
    prob0 = np.asarray(before['probability'])[moved]
    prob1 = np.asarray(ph['probability'])[moved]
    en = np.asarray(ph['energy'])[moved]
    ensure(np.all(np.isfinite(prob1)), 'probability is finite', angles=rec.calls[0][1] if rec.calls else None)
    # the bend is shared between two reflections, each turns the ray by twice the grazing angle
    close(prob1[m], (prob0 * rec.value(en, bend / 4) ** 2)[m], 'two reflections at the grazing angle', atol=1e-6)
    same(ph['energy'], before['energy'], 'energy')
    # polarization turns with the ray
    q0 = np.asarray(before['polarization'])[moved][:, :3]
    q1 = np.asarray(ph['polarization'])[moved][:, :3]
    close(np.linalg.norm(q1, axis=1), np.ones(len(q1)), 'polarization normalised', atol=1e-7)
    close(np.sum(q1 * d1, axis=1), np.zeros(len(q1)), 'polarization perpendicular to ray', atol=1e-6)


@sub('C16', dict(place=placements(zlo=1, zhi=300.), mat=st.booleans(), f=logfloats(20, 2e4), maxang=st.one_of(st.just(None), logfloats(1e-4, 1)),
                 style=st.sampled_from(['random', 'bundle', 'centre', 'axis', 'near']), n=st.integers(1, 25), seed=seeds), quick=250, thorough=6000)
def thin_lens(place, mat, f, maxang, style, n, seed):
    rng = rng_of(seed)
    pos, rot, zoom = place
    p, d, target = aimed_rays(rng, n, place, maxang=maxang)
    if style == 'axis':
        d = np.tile(-rot[:, 0], (n, 1))
    elif style == 'bundle':
        d = np.tile(d[0], (n, 1))
    elif style == 'centre':
        target = np.tile(pos, (n, 1))
    elif style == 'near':
        target = pos + (target - pos) * 10**rng.uniform(-6, 0, (n, 1))
    p = target - rng.uniform(1, 300, n)[:, None] * d
    lens = ThinLens(focallength=f, **place_kwargs(place, mat))
    ph = photon_table(rng, p, d)
    before = ph.copy()
    ph = lens(ph)
    off = target - pos
    loc = off @ rot[:, 1:]
    hit = np.all(np.abs(loc) < zoom[1:] * (1 - 1e-9), axis=1)
    if not hit.any():
        trivial()
        return
    d0 = np.asarray(before['dir'])[hit][:, :3]
    d1 = np.asarray(ph['dir'])[hit][:, :3]
    q0 = np.asarray(before['polarization'])[hit][:, :3]
    q1 = np.asarray(ph['polarization'])[hit][:, :3]
    off = off[hit]
    scale = np.abs(pos).max() + zoom.max() + 300
    close(np.asarray(ph['pos'])[hit][:, :3], target[hit], 'hit point', atol=1e-9 * scale, rtol=0)
    r = np.linalg.norm(off, axis=1)
    close(np.linalg.norm(d1, axis=1), np.ones(len(d1)), 'unit direction')
    for i in range(len(r)):
        if r[i] < 1e-6:
            # round-off: the rotation axis may be arbitrary, but the angle is tiny
            close(d1[i], d0[i], 'no deflection at the centre', atol=1e-6 / f + 1e-9)
            continue
        ax = np.cross(d0[i], off[i])
        if np.linalg.norm(ax) < 1e-2 * r[i]:
            continue
        m = rotmat(ax, -r[i] / f)
        tol = 1e-9 * (1 + scale / np.linalg.norm(ax) * min(1, r[i] / f)) + 1e-9 * scale / f
        close(d1[i], m @ d0[i], 'deflected by distance/f towards the axis', atol=tol, rtol=0)
        close(q1[i], m @ q0[i], 'polarization turns with the ray', atol=tol, rtol=0)
    if style == 'axis' and r.max() > 0 and r.max() / f < .05:
        # meets the optical axis at about the focal length
        for i in range(len(r)):
            if r[i] < 1e-3:
                continue
            t = -np.dot(off[i], off[i]) / np.dot(d1[i], off[i])
            ensure(abs(t / f - 1) < .01, 'parallel rays are focussed at the focal length', got=t, f=f)
    same(ph['probability'], before['probability'], 'no absorption')
    same(ph['energy'], before['energy'], 'energy')


@sub('C16', dict(place=placements(zlo=1, zhi=300.), mat=st.booleans(), f=logfloats(20, 2e4), lens=st.sampled_from(['thin', 'thin', 'perfect']),
                 maxang=st.one_of(st.just(None), logfloats(1e-4, 1)), twice=st.booleans(), n=st.integers(1, 40), seed=seeds), quick=100, thorough=3000)
def photons_on_the_surface(place, mat, f, lens, maxang, twice, n, seed):
    '''An aperture and a lens at the same place or two lenses in contact: round-off decides
    if a photon is in front of the lens; it either passes undeflected or is bent as by any lens.'''
    rng = rng_of(seed)
    pos, rot, zoom = place
    p, d, target = aimed_rays(rng, n, place, maxang=maxang)
    p = target + rng.choice([0, 0, 1e-16, -1e-16, 1e-14, -1e-14], size=(n, 1)) * np.abs(pos).max() * d
    ph = photon_table(rng, p, d)
    kw = place_kwargs(place, mat)
    el = (ThinLens if lens == 'thin' else PerfectLens)(focallength=f, **kw)
    if twice:
        ThinLens(focallength=f * 3, **kw)(ph)
    before = ph.copy()
    ph = el(ph)
    d0, d1 = np.asarray(before['dir']), np.asarray(ph['dir'])
    q1 = np.asarray(ph['polarization'])
    scale = np.abs(pos).max() + zoom.max() + 300
    ensure(np.isfinite(d1).all() and np.isfinite(q1).all() and np.isfinite(ph['pos']).all(), 'values are finite')
    same(d1[:, 3], np.zeros(n), 'a direction')
    close(np.linalg.norm(d1, axis=1), np.ones(n), 'unit direction', atol=1e-7)
    close(np.sum(d1 * q1, axis=1), np.zeros(n), 'polarization is perpendicular', atol=1e-5)
    close(np.asarray(ph['pos'])[:, :3], target, 'photons stay where they are', atol=1e-9 * scale, rtol=0)
    bent = 0
    for i in range(n):
        off = target[i] - pos
        r = np.linalg.norm(off)
        if np.array_equal(d0[i], d1[i]):
            continue
        bent += 1
        a, b = d0[i, :3], d1[i, :3]
        if lens == 'thin':
            ax = np.cross(a, off)
            if r < 1e-3 or np.linalg.norm(ax) < 1e-2 * r:
                continue
            want = rotmat(ax, -r / f) @ a
        else:
            want = pos + f * a - target[i]
            if np.linalg.norm(want) < 1e-2 * f:
                continue
            want = want / np.linalg.norm(want)
        close(b, want, 'bent like by any lens of this kind', atol=1e-6 + 1e-7 * scale / max(r, 1e-3) * min(1, r / f), rtol=0)
    trivial(bent == 0)
