'''C15: apertures.'''
import numpy as np
from hypothesis import strategies as st
from scipy.stats import kstest, chi2
import astropy.units as u
from astropy.table import Table

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import (no_trend, no_link, rng_of, seeds, floats, logfloats, placements, place_kwargs, make_pos4d, rand_unit, rand_rot, positions,
                    rotations)

from marxs.optics import RectangleAperture, CircleAperture, MultiAperture
from marxs.base import GeometryError

PMIN = 1e-10


def photons(rng, n, style, rot):
    '''photons as they come from a pointing'''
    d = rand_unit(rng, n)
    if style == 'front':
        d = -rot[:, 0] + rng.normal(size=(n, 3)) * .05
    elif style == 'one':
        d = np.tile(rand_unit(rng, 1), (n, 1))
    elif style == 'axis':
        d = np.tile(-rot[:, 0], (n, 1))
    d = d / np.linalg.norm(d, axis=1)[:, None]
    t = Table({'dir': np.hstack([d, np.zeros((n, 1))]), 'energy': rng.uniform(.1, 5, n), 'time': np.arange(n) * 1.,
               'probability': rng.choice([1., 1., .5, 0.], size=n), 'polangle': rng.uniform(0, 6, n)})
    return t


def outline(place, spec, loc):
    '''loc: coordinates along e_y, e_z in mm; returns fractions that must be uniform, or None if outside'''
    pos, rot, zoom = place
    tol = 1e-9 * (zoom.max() + np.abs(pos).max())
    if spec['kind'] == 'rect':
        ensure(np.all(np.abs(loc) <= zoom[1:] + tol), 'photon starts outside of the rectangle')
        return (loc / zoom[1:] + 1) / 2
    R, ri = zoom[1], spec['r_inner']
    r = np.hypot(loc[:, 0], loc[:, 1])
    ensure(np.all((r <= R + tol) & (r >= ri - tol)), 'photon starts outside of the ring', lo=r.min(), hi=r.max(), R=R, r_inner=ri)
    lo, hi = spec['phi']
    phi = np.arctan2(loc[:, 1], loc[:, 0])
    rel = (phi - lo) % (2 * np.pi)
    da = tol / np.maximum(r, tol) + 1e-9
    out = (rel > (hi - lo) + da) & (rel < 2 * np.pi - da)
    ensure(not np.any(out), 'photon starts outside of the sector', phi=phi[out], limits=(lo, hi))
    rel = np.where(rel > (hi - lo) + da, 0, rel)
    return np.stack([np.clip((r**2 - ri**2) / (R**2 - ri**2), 0, 1), np.clip(rel / (hi - lo), 0, 1)], axis=1)


@st.composite
def specs(draw):
    if draw(st.integers(0, 2)) == 0:
        return {'kind': 'rect'}
    lo = draw(floats(-6, 3.7))
    width = draw(st.one_of(st.just(2 * np.pi), floats(.05, 2 * np.pi)))
    default = draw(st.booleans())
    return {'kind': 'circle', 'phi': [0, 2 * np.pi] if default else [lo, lo + width], 'defphi': default,
            'f': draw(st.one_of(st.just(0.), floats(0, .98)))}


def build(spec, place, as_matrix, **kw):
    if spec['kind'] == 'rect':
        return RectangleAperture(**place_kwargs(place, as_matrix), **kw), 4 * place[2][1] * place[2][2]
    spec['r_inner'] = spec['f'] * place[2][1]
    if spec['f'] > 0:
        kw['r_inner'] = spec['r_inner']
    if not spec['defphi']:
        kw['phi'] = spec['phi']
    R = place[2][1]
    return (CircleAperture(**place_kwargs(place, as_matrix), **kw),
            (R**2 - spec['r_inner']**2) / 2 * (spec['phi'][1] - spec['phi'][0]))


def local(place, t):
    pos, rot, zoom = place
    p = np.asarray(t['pos'])
    close(p[:, 3], np.ones(len(p)), 'homogeneous position')
    d = (p[:, :3] - pos) @ rot
    close(d[:, 0], np.zeros(len(p)), 'starts on the surface of the aperture', atol=1e-9 * (zoom.max() + np.abs(pos).max() + 1))
    return d[:, 1:]


def check_uniform(f, msg):
    n = len(f)
    if n < 100:
        return
    for i in (0, 1):
        ensure(kstest(f[:, i], 'uniform').pvalue > PMIN, msg + ': not uniform over the area', axis=i)
        no_trend(f[:, i], msg)
    no_link(f[:, 0], f[:, 1], msg)
    ensure(abs(np.corrcoef(f[:, 0], f[:, 1])[0, 1]) < 7 / np.sqrt(n), msg + ': coordinates are correlated')


@sub('C15', dict(spec=specs(), place=placements(same_yz=True), rect=placements(), as_matrix=st.booleans(), n=st.sampled_from([1, 5, 900]),
                 style=st.sampled_from(['front', 'all', 'one', 'axis']), oldpos=st.booleans(), seed=seeds), quick=200, thorough=5000)
def single(spec, place, rect, as_matrix, n, style, oldpos, seed):
    rng = rng_of(seed)
    np.random.seed(seed)
    if spec['kind'] == 'rect':
        place = rect
    a, area = build(spec, place, as_matrix)
    close(a.area.to(u.mm**2).value, area, 'area of the aperture', rtol=1e-9)
    t = photons(rng, n, style, place[1])
    if oldpos:
        t['pos'] = np.ones((n, 4)) * 7
        t['pos'][:, 3] = 1
    ref = t.copy()
    t = a(t)
    ensure(len(t) == n, 'number of photons')
    loc = local(place, t)
    f = outline(place, spec, loc)
    check_uniform(f, 'aperture')
    # recorded coordinates (relative to the size of the aperture, or in mm)
    yz = np.stack([np.asarray(t[c], dtype=float) for c in a.loc_coos_name], axis=1)
    size = place[2][1:]
    tol = 1e-8 * (size.max() + np.abs(place[0]).max() + 1)
    ensure(np.all(np.abs(yz * size - loc) < tol) or np.all(np.abs(yz - loc) < tol), 'recorded coordinates on the aperture',
           got=yz[:3], mm=loc[:3], size=size)
    cosine = -np.asarray(ref['dir'])[:, :3] @ place[1][:, 0]
    close(t['probability'], np.asarray(ref['probability']) * np.clip(cosine, 0, 1), 'probability is the projected area', atol=1e-12)
    for c in ref.colnames:
        if c not in ('pos', 'probability'):
            same(np.asarray(t[c]), np.asarray(ref[c]), f'column {c} changed')
    trivial(style == 'axis' and n == 1)
    label('sector', spec['kind'] == 'circle' and not spec['defphi'])
    label('back side', np.any(cosine < 0))


class Spy:
    def __init__(self, log, tag):
        self.log, self.tag = log, tag

    def __call__(self, photons):
        ids = np.asarray(photons['telescope']).copy() if 'telescope' in photons.colnames else None
        self.log.append((self.tag, ids, np.array(photons['pos'])))


@sub('C15', dict(sp=st.lists(specs(), min_size=1, max_size=4), rot=rotations(), offset=st.integers(0, 30), steps=st.booleans(), idcol=st.booleans(),
                 tiny=st.booleans(), style=st.sampled_from(['front', 'all']), seed=seeds), quick=100, thorough=2500)
def group(sp, rot, offset, steps, idcol, tiny, style, seed):
    rng = rng_of(seed)
    np.random.seed(seed)
    n = 2000
    elems, places, areas = [], [], []
    for i, s in enumerate(sp):
        s = sp[i] = dict(s)
        z = np.exp(rng.uniform(-1, 2))
        if tiny and i == 0:
            z = z * .03
        zoom = np.array([1., z, z if s['kind'] == 'circle' else z * rng.uniform(.5, 2)])
        p = (rot @ np.array([rng.uniform(-5, 5), 60. * i, rng.uniform(-5, 5)]), rand_rot(rng) if style == 'all' else rot, zoom)
        e, a = build(s, p, bool(i % 2))
        elems.append(e)
        places.append(p)
        areas.append(a)
    log = []
    kw = {'id_col': 'telescope'} if idcol or steps else {}
    col = kw.get('id_col', 'aperture')
    if offset:
        kw['id_num_offset'] = offset
    if steps:
        kw.update(preprocess_steps=[Spy(log, 'pre')], postprocess_steps=[Spy(log, 'post'), Spy(log, 'post2')])
    m = MultiAperture(elements=elems, **kw)
    close(m.area.to(u.mm**2).value, sum(areas), 'area of a group', rtol=1e-9)
    t = photons(rng, n, style, rot)
    ref = t.copy()
    t = m(t)
    ids = np.asarray(t[col]) - offset
    ensure(np.all((ids >= 0) & (ids < len(elems))), 'every photon is labelled with its opening')
    frac = np.array(areas) / sum(areas)
    cnt = np.bincount(ids, minlength=len(elems))
    z = (cnt - n * frac) / np.sqrt(n * frac * (1 - frac) + 1)
    ensure(np.all(np.abs(z) < 6.5 + 3 / np.sqrt(n * frac + 1)), 'photons are not shared in proportion to the area', counts=cnt, expected=n * frac)
    # no systematic order
    if len(elems) > 1 and n * frac.min() > 100:
        c = np.corrcoef(np.arange(n), ids)[0, 1]
        ensure(abs(c) < 7 / np.sqrt(n), 'opening depends on the order of photons', c=c)
    for i, (p, s) in enumerate(zip(places, sp)):
        k = ids == i
        if k.any():
            f = outline(p, s, local(p, t[k]))
            check_uniform(f, 'group')
            cosine = -np.asarray(ref['dir'])[k, :3] @ p[1][:, 0]
            close(np.asarray(t['probability'])[k], np.asarray(ref['probability'])[k] * np.clip(cosine, 0, 1), 'projected area', atol=1e-12)
    if steps:
        ensure([x[0] for x in log] == ['pre', 'post', 'post2'] * len(elems), 'steps around each opening', got=[x[0] for x in log])
    label('several', len(elems) > 1)


@sub('C15', dict(R=logfloats(.1, 50), f=floats(1.001, 3), q=floats(1.01, 5), lo=floats(-3, 3), w=floats(.01, 3), seed=seeds), quick=30, thorough=200)
def invalid(R, f, q, lo, w, seed):
    with raises(ValueError, 'inner radius larger than the aperture'):
        CircleAperture(zoom=R, r_inner=R * f)
    with raises(GeometryError, 'elliptical aperture'):
        CircleAperture(zoom=[1., R, R * q])
    with raises(ValueError, 'angles in the wrong order'):
        CircleAperture(zoom=R, phi=[lo + w, lo])
    with raises(ValueError, 'more than a full circle'):
        CircleAperture(zoom=R, phi=[lo, lo + 2 * np.pi + w])
    with raises(ValueError, 'degrees instead of radian'):
        CircleAperture(zoom=R, phi=[0, 10 + w])


@sub('C15', dict(r=st.lists(floats(.01, .95), min_size=2, max_size=5), R=logfloats(1, 50), seed=seeds), quick=30, thorough=500)
def independent_rings(r, R, seed):
    '''Settings of one aperture do not leak into another one'''
    np.random.seed(seed)
    rng = rng_of(seed)
    aps = [CircleAperture(zoom=R, r_inner=R * x) for x in r] + [CircleAperture(zoom=R)]
    for x, a in zip(r + [0.], aps):
        close(a.area.to(u.mm**2).value, np.pi * R**2 * (1 - x**2), 'area', rtol=1e-9)
        t = a(photons(rng, 200, 'axis', np.eye(3)))
        rad = np.hypot(t['pos'][:, 1], t['pos'][:, 2]) / R
        ensure(np.all((rad >= x - 1e-9) & (rad <= 1 + 1e-9)), 'ring limits', lo=rad.min(), r_inner=x)
