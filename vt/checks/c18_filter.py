'''C18: filters and baffles.'''
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import interp1d

from vt.core import sub, ensure, close, same, trivial, label, raises
from vt.gen import rng_of, seeds, floats, logfloats, placements, place_kwargs, photon_table, aimed_rays, rand_unit

from marxs.optics import EnergyFilter, GlobalEnergyFilter, Baffle, FlatStack, FlatDetector
from marxs.simulator import Sequence


def curve(rng, kind):
    x = np.sort(rng.uniform(.1, 8, 6))
    x[0], x[-1] = 0., 20.
    y = rng.uniform(0, 1, 6)
    y[rng.random(6) < .2] = 0
    y[rng.random(6) < .2] = 1
    if kind == 'interp1d':
        return interp1d(x, y), lambda e: np.interp(e, x, y)
    if kind == 'scalar':
        c = float(y[2])
        return (lambda e: c), lambda e: np.full(len(e), c)
    if kind == 'step':
        f = lambda e: (np.asarray(e) > x[2]).astype(float)
        return f, f
    a, b = rng.uniform(0, 1), rng.uniform(.1, 5)
    f = lambda e: a * np.exp(-b / np.asarray(e))
    return f, f


def energies(rng, n):
    '''a broad spectrum, or a narrow line'''
    if rng.random() < .5:
        return rng.uniform(.2, 8., n)
    e0 = rng.uniform(.2, 8.)
    return e0 * (1 + rng.uniform(-1, 1, n) * 10**rng.uniform(-7, -1))


def narrow(rng, kind, e):
    '''a curve that has structure in the range of the energies'''
    e1 = rng.choice(e)
    w = max(np.ptp(e), 1e-9)
    x = np.sort([0., e1 - w * rng.uniform(.1, 1), e1 + w * rng.uniform(.1, 1), 20.])
    y = rng.uniform(0, 1, 4)
    if kind == 'interp1d':
        return interp1d(x, y), lambda q: np.interp(q, x, y)
    f = lambda q: (np.asarray(q) > e1).astype(float)
    return f, f


def rays(rng, place, n):
    pos, rot, zoom = place
    p, d, target = aimed_rays(rng, n, place)
    back = rng.random(n) < .15        # flies away from the element
    d[back] *= -1
    loc = (target - pos) @ rot[:, 1:]
    hit = np.all(np.abs(loc) < zoom[1:] * (1 - 1e-9), axis=1) & ~back
    miss = np.any(np.abs(loc) > zoom[1:] * (1 + 1e-9), axis=1) | back
    ok = hit | miss
    return p[ok], d[ok], target[ok], hit[ok]


def check_prob(t, before, want):
    p0 = np.asarray(before['probability'])
    close(np.asarray(t['probability'])[p0 == 0], np.zeros((p0 == 0).sum()), 'probability of absorbed photons', atol=0)
    k = p0 > 0
    close((np.asarray(t['probability']) / np.where(k, p0, 1))[k], (want / np.where(k, p0, 1))[k], 'probability', rtol=1e-12, atol=1e-6)


def unchanged(t, before, skip=()):
    for c in before.colnames:
        if c not in skip:
            same(t[c], before[c], f'column {c} must not be changed')


@sub('C18', dict(place=placements(zlo=.05, zhi=100.), mat=st.booleans(), kind=st.sampled_from(['interp1d', 'scalar', 'step', 'exp']),
                 stack=st.booleans(), idcol=st.booleans(), n=st.integers(1, 40), seed=seeds), quick=250, thorough=8000)
def positioned(place, mat, kind, stack, idcol, n, seed):
    rng = rng_of(seed)
    p, d, target, hit = rays(rng, place, n)
    if len(p) == 0:
        trivial()
        return
    en = energies(rng, len(p))
    f, ref = narrow(rng, kind, en) if kind in ('interp1d', 'step') and rng.random() < .5 else curve(rng, kind)
    f2, ref2 = curve(rng, 'exp')
    t = photon_table(rng, p, d, energy=en)
    before = t.copy()
    kw = {'id_col': 'fid', 'id_num': 7} if idcol else {}
    if stack:
        el = FlatStack(elements=[EnergyFilter, EnergyFilter], keywords=[{'filterfunc': f}, {'filterfunc': f2}], **kw, **place_kwargs(place, mat))
    else:
        el = EnergyFilter(filterfunc=f, **kw, **place_kwargs(place, mat))
    t = el(t)
    unchanged(t, before, ('probability', 'pos'))
    e = np.asarray(before['energy'])
    fac = np.asarray(ref(e), dtype=float) * (ref2(e) if stack else 1)
    want = np.asarray(before['probability']) * np.where(hit, fac, 1)
    check_prob(t, before, want)
    same(np.asarray(t['pos'])[~hit], np.asarray(before['pos'])[~hit], 'position of photons that miss')
    scale = np.abs(place[0]).max() + 300 + place[2].max()
    close(np.asarray(t['pos'])[hit][:, :3], target[hit], 'photons are moved to the filter', atol=1e-9 * scale, rtol=0)
    if idcol and hit.any():
        same(np.asarray(t['fid']) == 7, hit, 'id of photons that pass the filter')
    trivial(not hit.any())


@sub('C18', dict(kinds=st.lists(st.sampled_from(['interp1d', 'scalar', 'step', 'exp']), min_size=1, max_size=3), n=st.integers(1, 40), seed=seeds),
     quick=100, thorough=3000)
def everywhere(kinds, n, seed):
    rng = rng_of(seed)
    en = energies(rng, n)
    t = photon_table(rng, rng.normal(size=(n, 3)) * 100, rand_unit(rng, n), energy=en)
    before = t.copy()
    cs = [narrow(rng, k, en) if k in ('interp1d', 'step') and rng.random() < .5 else curve(rng, k) for k in kinds]
    t = Sequence(elements=[GlobalEnergyFilter(filterfunc=c[0]) for c in cs])(t)
    unchanged(t, before, ('probability',))
    want = np.asarray(before['probability'])
    for c in cs:
        want = want * c[1](np.asarray(before['energy']))
    check_prob(t, before, want)


@sub('C18', dict(place=placements(zlo=.05, zhi=100.), bad=st.sampled_from(['neg', 'large', 'nan', 'tinyneg', 'tinylarge', 'inf']),
                 glob=st.booleans(), where=st.sampled_from(['one', 'all']), scalar=st.booleans(), n=st.integers(2, 20), seed=seeds), quick=100, thorough=3000)
def invalid(place, bad, glob, where, scalar, n, seed):
    rng = rng_of(seed)
    pos, rot, zoom = place
    p, d, target = aimed_rays(rng, n, place, spread=.99)
    val = {'neg': -rng.uniform(.01, 5), 'large': rng.uniform(1.01, 50), 'nan': np.nan, 'tinyneg': -1e-9, 'tinylarge': 1 + 1e-9, 'inf': np.inf}[bad]
    k = rng.integers(n)

    def f(e):
        if scalar:
            return val
        y = np.full(len(e), .5)
        y[k if where == 'one' else slice(None)] = val
        return y
    t = photon_table(rng, p, d)
    prob = np.array(t['probability'])
    el = GlobalEnergyFilter(filterfunc=f) if glob else EnergyFilter(filterfunc=f, **place_kwargs(place, False))
    with raises(ValueError, 'a filter curve outside of 0..1 has to be refused'):
        el(t)
    same(t['probability'], prob, 'refused filter must not change the probabilities')


@sub('C18', dict(place=placements(zlo=.05, zhi=100.), mat=st.booleans(), k=st.integers(1, 3), n=st.integers(1, 40), spread=floats(.5, 3), seed=seeds),
     quick=250, thorough=8000)
def baffle(place, mat, k, n, spread, seed):
    rng = rng_of(seed)
    pos, rot, zoom = place
    p, d, target, hit = rays(rng, place, n)
    if len(p) == 0:
        trivial()
        return
    t = photon_table(rng, p, d)
    before = t.copy()
    els = [Baffle(**place_kwargs(place, mat))]
    passed = hit.copy()
    sure = np.ones(len(p), bool)
    sh = 0
    for i in range(1, k):        # more baffles along the axis
        sh += rng.uniform(.5, 100)
        z2 = zoom * rng.uniform(.3, 5)
        c = pos - sh * rot[:, 0]
        els.append(Baffle(**place_kwargs((c, rot, z2), mat)))
        den = d @ rot[:, 0]
        # photons that missed the previous baffle are still where they were
        s = ((c - p) @ rot[:, 0]) / den
        loc = (p + s[:, None] * d - c) @ rot[:, 1:]
        inside = np.all(np.abs(loc) < z2[1:], axis=1) & (s > 0)
        sure &= np.all(np.abs(np.abs(loc) - z2[1:]) > 1e-7 * (300 + np.abs(pos).max()), axis=1) & (np.abs(s) > 1e-6)
        # a photon on the first plane travelling away from the second one
        inside &= ~(passed & (den > 0))
        passed &= inside
    t = Sequence(elements=els)(t)
    unchanged(t, before, ('probability', 'pos'))
    want = np.where(passed, np.asarray(before['probability']), 0.)
    same(np.asarray(t['probability'])[sure], want[sure], 'a baffle removes the photons that do not pass its opening and no others')
    if k == 1:
        same(np.asarray(t['pos'])[~hit], np.asarray(before['pos'])[~hit], 'position of photons that miss')
        scale = np.abs(pos).max() + 300 + zoom.max()
        close(np.asarray(t['pos'])[hit][:, :3], target[hit], 'photons are moved to the opening', atol=1e-9 * scale, rtol=0)
